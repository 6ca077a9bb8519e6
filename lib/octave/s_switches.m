function s_switches(thorough)
% vl_simdctrl and vl_threads: every history of up to four (five) requests
for n=1:4+thorough, A = oc_all(4, n) ; for a=1:size(A,1)
  oc_case('requests %s', A(a,:)) ; vl_simdctrl(1) ; on = 1 ;
  for q=A(a,:), oc_op(1) ;
    switch q, case 0, w = vl_simdctrl(0) ; e = on ; on = 0 ; case 1, w = vl_simdctrl(1) ; e = on ; on = 1 ; case 2, w = vl_simdctrl() ; e = on ; case 3, w = vl_simdctrl(true) ; e = on ; on = 1 ; end
    oc_check('simd', isequal(double(w), e), 'request %d reports %s instead of %d', q, mat2str(w), e) ; 
    x = single([1 2 3;4 5 6;7 8 9;1 3 5;2 2 2]) ; oc_check('same', oc_near(vl_alldist2(x), sum((permute(x,[2 3 1])-permute(x,[3 2 1])).^2, 3), 1e-5), 'distances') ; 
  end
  oc_check('simd', vl_simdctrl() == on, 'the last state') ; oc_state(on, n) ;
end, end
t0 = vl_threads() ; oc_case('threads') ; oc_check('threads', isscalar(t0) && t0 >= 1, 'number of threads %s', mat2str(t0)) ;
for n=[1 2 3], oc_op(1) ; b = vl_threads() ; p = vl_threads(n) ; oc_check('threads', isequal(p, b), 'the previous number %s instead of %s', mat2str(p), mat2str(b)) ; c = vl_threads() ; oc_check('threads', c >= 1 && c <= max(n, t0), 'set %d, get %s', n, mat2str(c)) ; end
vl_threads(t0) ; B = {{'vl_simdctrl', 1, 2}, {'vl_simdctrl', [1 1]}, {'vl_simdctrl', []}, {'vl_threads', 1, 2}, {'vl_threads', [1 2]}, {'vl_threads', []}} ;
for k=1:numel(B), oc_case('%s with bad arguments (%d)', B{k}{1}, k) ; oc_op(1) ; oc_check('bad', oc_err(@() feval(B{k}{:})), 'accepted') ; end
