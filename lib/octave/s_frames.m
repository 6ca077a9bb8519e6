function s_frames(thorough)
V = [-2 0 1.5] ; R = [0 .5 2] ;
Q = oc_all(3,3) ;
for q=1:size(Q,1)
  x = V(Q(q,1)+1) ; y = V(Q(q,2)+1) ; r = R(Q(q,3)+1) ;
  oc_case('point and disc %s', [x y r]) ; oc_op(2) ;
  oc_check('point', isequal(vl_frame2oell([x;y]), [x;y;0;0;0;0]), 'point') ;
  oc_check('disc', isequal(vl_frame2oell([x;y;r]), [x;y;r;0;0;r]), 'disc') ;
  for t=-8:8
    th = t*pi/4 ; f = vl_frame2oell([x;y;r;th]) ; A = reshape(f(3:6), 2, 2) ;
    oc_check('oriented-disc', isequal(f(1:2), [x;y]) && max(max(abs(A - r*[cos(th) -sin(th);sin(th) cos(th)]))) < 1e-12, 'oriented disc with angle %d pi/4', t) ;
  end
  for a=-2:2, for b=-2:2, for c=-2:2, for d=-1:1
    B = [a b;c d] ; S = B*B' ; f = vl_frame2oell([x;y;S(1,1);S(1,2);S(2,2)]) ; A = reshape(f(3:6), 2, 2) ;
    oc_check('ellipse', isequal(f(1:2), [x;y]) && max(max(abs(A*A' - S))) < 1e-9 && A(1,2) == 0 && A(2,2) >= 0, 'ellipse with covariance %s: affine map %s', mat2str(S), mat2str(A)) ;
  end, end, end, end
  o = [x;y;1;2;3;r] ; oc_check('oriented', isequal(vl_frame2oell(o), o), 'oriented ellipse') ;
  oc_state(x,y,r) ;
end
for D=2:6
  F = reshape(mod((1:D*4)*3, 7)+1, D, 4) ; if D == 5, F(3,:) += 9 ; F(5,:) += 30 ; end
  E = vl_frame2oell(F) ; oc_case('four frames of %d parameters', D) ;
  for k=1:4, oc_check('columns', oc_near(E(:,k), vl_frame2oell(F(:,k))), 'column %d', k) ; end
end
oc_check('bad', oc_err(@() vl_frame2oell(1)) && oc_err(@() vl_frame2oell(ones(7,1))), 'an unknown format is accepted') ;
F = reshape(1:15, 5, 3) ; G = vl_ertr(F) ;
oc_check('ertr', isequal(G, F([2 1 5 4 3],:)) && isequal(vl_ertr(G), F) && oc_err(@() vl_ertr(ones(4,1))), 'vl_ertr') ;
% flattening every forest of up to 5 nodes, and colouring by label
for n=1:5+thorough
  A = oc_all(n,n) + 1 ;
  for k=1:size(A,1)
    m = A(k,:) ; root = zeros(1,n) ; ok = true ;
    for i=1:n, x = i ; c = 0 ; while m(x) ~= x && c <= n, x = m(x) ; c = c+1 ; end, if c > n, ok = false ; break ; end, root(i) = x ; end
    if ~ok, continue ; end
    if mod(k,2), m = m' ; root = root' ; end
    oc_case('vl_flatmap(%s)', m) ; oc_op(1) ;
    [l, C] = vl_flatmap(m) ;
    oc_check('flatmap', isequal(l, root), 'labels %s, expected %s', mat2str(l), mat2str(root)) ;
    u = unique(root) ; e = arrayfun(@(r) find(u == r), root) ;
    oc_check('clusters', numel(C) == n && isequal(C(:), e(:)), 'clusters %s, expected %s', mat2str(C), mat2str(e)) ;
    oc_state(m) ;
    if n == 4
      I = reshape([.1 .7 1 .4 , .3 .3 0 .9], 2, 2, 2) ; L = reshape(root, 2, 2) ; oc_op(1) ;
      S = vl_imseg(I, L) ; ok = isequal(size(S), size(I)) ;
      for c=1:2, for i=1:4
        P = I(:,:,c) ; v = mean(P(L == L(i))) ; W = S(:,:,c) ; ok = ok && abs(W(i) - v) < 1e-9 ;
      end, end
      oc_check('imseg', ok, 'vl_imseg with labels %s', mat2str(L)) ;
    end
  end
end
