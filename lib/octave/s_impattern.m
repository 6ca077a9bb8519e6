function s_impattern(thorough)
% vl_impattern: size, range, symmetry and contents of each pattern; vl_imwhiten
N = {'wedge','cone','smoothChecker','threeDotsSquare','uniformNoise','blob','blobs','blobs1'} ; S = {[], [9 9], [8 8], [12 7], [7 12], [1 5], [33 20]} ;
for k=1:numel(N), for s=1:numel(S), for cs=1:2
  a = {} ; if s > 1, a = {'size', S{s}} ; end, nm = N{k} ; if cs == 2, nm = upper(nm) ; end
  if k <= 8 && s == 6 && k ~= 5, continue ; end
  oc_case('vl_impattern(%s, %s)', nm, a) ; oc_op(1) ; I = vl_impattern(nm, a{:}) ; e = [128 128] ; if s > 1, e = S{s}([2 1]) ; end
  oc_check('class', isreal(I) && (isa(I,'double') ), 'class %s', class(I)) ; oc_check('range', all(I(:) >= -1e-9 & I(:) <= 1 + 1e-9), 'range %g..%g', min(I(:)), max(I(:))) ; oc_check('size', isequal(size(I), e), 'size %s, expected %s', mat2str(size(I)), mat2str(e)) ;
  if ~isequal(size(I), e), continue ; end
  [u, v] = meshgrid(linspace(-1,1,e(2)), linspace(-1,1,e(1))) ; R = [] ;
  switch k, case 1, R = double(abs(u) + abs(v) > .25 & v >= 0) ; safe = abs(abs(u) + abs(v) - .25) > 1e-9 & abs(v) > 1e-9 ; case 2, R = hypot(u, v) / max(hypot(u,v)(:)) ; safe = true(e) ; end
  if ~isempty(R), oc_check('pattern', all(abs(double(I(safe)) - R(safe)) < 1e-9), 'contents') ; end
  oc_check('again', isequal(I, vl_impattern(nm, a{:})), 'a second call differs') ; oc_state(I) ;
end, end, end
for st=[1 3 4], for sg=[0 .8], for e=1:2, sz = [12 9] ; if e == 2, sz = [10 10] ; end
  oc_case('smoothChecker step %d sigma %g size %s', st, sg, sz) ; I = vl_impattern('smoothChecker', 'step', st, 'sigma', sg, 'size', sz) ; [u,v] = meshgrid(0:sz(1)-1, 0:sz(2)-1) ; R = double(mod(floor(u/st) + floor(v/st), 2) == 1) ; if sg, R = vl_imsmooth(R, sg) ; end
  oc_check('checker', isequal(size(I), size(R)) && max(abs(I(:) - R(:))) < 1e-6, 'contents') ; oc_op(1) ;
end, end, end
for th=[0 pi/6 pi/2], for an=[.25 .5 1], for cut=0:1, for sg=[.1 .3]
  oc_case('blob %g %g %d %g', th, an, cut, sg) ; oc_op(1) ; I = vl_impattern('blob', 'orientation', th, 'anisotropy', an, 'cut', cut > 0, 'sigma', sg, 'size', [15 15]) ; [u,v] = meshgrid(linspace(-1,1,15)) ;
  x = (cos(th)*u + sin(th)*v)/(sg*an) ; y = (-sin(th)*u + cos(th)*v)/sg ; R = exp(-.5*(x.^2+y.^2)) ; safe = true(15) ; if cut, R(x <= 0) = 0 ; safe = abs(x) > 1e-9 ; end
  oc_check('blob', all(abs(I(safe) - R(safe)) < 1e-9), 'contents') ;
end, end, end, end
st = vl_twister('state') ; I = vl_impattern('uniformNoise', 'seed', 4, 'size', [3 4]) ; oc_check('noise', isequal(st, vl_twister('state')) && ~isequal(I, vl_impattern('uniformNoise', 'seed', 5, 'size', [3 4])), 'the state of the generator') ; oc_check('bad', oc_err(@() vl_impattern('nothing')), 'an unknown pattern is accepted') ;
% whitening: a linear filter with amplitude |f|^alpha
for M=1:5, for n=2:5, for al=[0 1 2], for co=0:1, for j=1:M*n
  I = zeros(M, n) ; I(j) = 1 ; oc_case('vl_imwhiten of impulse %d of %d x %d, alpha %d, cutoff %d', j, M, n, al, co) ; oc_op(1) ; I = I + .5*(mod(j,2)==0) ;
  if co, J = vl_imwhiten(I, al, .6) ; elseif al == 1 && mod(j,2), J = vl_imwhiten(I) ; else J = vl_imwhiten(I, al) ; end
  oc_check('white-size', isreal(J) && isequal(size(J), size(I)), 'size') ; if M == 1, continue ; end
  if al == 0 && ~co, oc_check('white-identity', max(abs(J(:) - I(:))) < 1e-9, 'exponent 0 changes the image') ; end
  if mod(M,2) && mod(n,2)
    [fx, fy] = meshgrid(((0:n-1) - (n-1)/2)/(n-1), ((0:M-1) - (M-1)/2)/(M-1)) ; rho = hypot(fx, fy) ; H = rho.^al ; if co, H = H .* exp(-(rho/.3).^4) ; end
    R = zeros(M, n) ; [x, y] = meshgrid(0:n-1, 0:M-1) ;
    for p=1:M, for q=1:n, w = exp(-2i*pi*((p-1-(M-1)/2)*y/M + (q-1-(n-1)/2)*x/n)) ; R = R + H(p,q) * sum(sum(I .* w)) * conj(w) / (M*n) ; end, end
    oc_check('white', max(abs(J(:) - real(R(:)))) < 1e-9, 'result %s, expected %s', mat2str(J,4), mat2str(real(R),4)) ; oc_state(J) ;
  end
end, end, end, end, end
