function s_warp(thorough)
V = [-1 0 2] ;
% affine maps of points of every dimension, both calling conventions
for n=1:4
  for s=1:40
    A = reshape(mod((1:n*n)*7*s + s, 5) - 2, n, n) ; T = mod((1:n)'*3*s, 7) - 3 ; if mod(s,3) == 0, A = eye(n) ; end
    for k=0:3
      X = reshape(mod((1:n*k)*5 + s, 9) - 4, n, k) ; Y = A*X + repmat(T,1,k) ;
      oc_case('vl_waffine(%s, %s, %s)', A, T, X) ; oc_op(2) ;
      Z = vl_waffine(A, T, X) ; oc_check('affine', isequal(Z, Y) || (isempty(Z) && k == 0), 'result %s', mat2str(Z)) ;
      if n > 1
        c = cell(1,n) ; for d=1:n, c{d} = X(d,:)' ; end
        r = cell(1,n) ; [r{:}] = vl_waffine(A, T, c{:}) ;
        for d=1:n, oc_check('affine', isequal(r{d}, Y(d,:)'), 'coordinate %d is %s', d, mat2str(r{d})) ; end
      end
      oc_state(Y, n) ;
    end
  end
end
Q = oc_all(3,4) ;
for q=1:size(Q,1)
  x = V(Q(q,1:2)+1) ; y = V(Q(q,3:4)+1) ; oc_case('vl_dwaffine(%s, %s)', x, y) ; oc_op(1) ;
  [dx, dy] = vl_dwaffine(x, y) ; A = [2 3;5 7] ; T = [1;-1] ;
  [w1, w2] = vl_waffine(A, T, x, y) ;
  for p=1:6
    B = A ; S = T ; if p <= 4, B(p) += 1 ; else S(p-4) += 1 ; end
    [v1, v2] = vl_waffine(B, S, x, y) ;
    oc_check('daffine', isequal(dx(:,p), (v1-w1)(:)) && isequal(dy(:,p), (v2-w2)(:)), 'derivative with respect to parameter %d', p) ;
  end
  oc_state(dx, dy) ;
end
% thin-plate splines through every set of control points of a grid
[gx, gy] = meshgrid(0:2, 0:2) ; G = [gx(:)'; gy(:)'] ; [x1, x2] = meshgrid(-.5:.5:2.5, 0:.5:2) ;
for m=1:2^9-1
  s = find(bitget(m, 1:9)) ; K = numel(s) ; Y = G(:,s) ;
  if K < 3 || K > 5+4*thorough || rank([Y ; ones(1,K)]) < 3, continue ; end
  oc_case('thin-plate spline with control points %s', Y) ; oc_op(4) ;
  [phi, S] = vl_tps(Y(1,:), Y(2,:), Y) ;
  Yp = Y + .2*[sin(5*Y(1,:)+Y(2,:)) ; cos(3*Y(2,:)-Y(1,:))] ;
  [a, b] = vl_wtps(phi, Yp) ;
  oc_check('interpolates', max(abs([a(:)' - Yp(1,:), b(:)' - Yp(2,:)])) < 1e-9, 'control points go to %s', mat2str([a(:)';b(:)'],5)) ;
  phi = vl_tps(x1, x2, Y) ; A = [1.5 -.5;.25 2] ; t = [3;-1] ; L = A*Y + repmat(t,1,K) ;
  oc_check('size', isequal(size(phi), [K+3 size(x1)]), 'size of the basis %s', mat2str(size(phi))) ;
  [a, b] = vl_wtps(phi, L) ; [c, d] = vl_waffine(A, t, x1, x2) ;
  oc_check('affine-tps', max(abs([a(:)-c(:) ; b(:)-d(:)])) < 1e-8, 'an affine motion of the control points is not reproduced') ;
  oc_check('stiffness', isequal(size(S), [K K]) && max(max(abs(S*[ones(K,1) Y']))) < 1e-8 && max(max(abs(S-S'))) < 1e-8 && abs(min(eig((S+S')/2))) < 1e-8 + max(abs(eig((S+S')/2))), 'stiffness matrix') ;
  [U, dU] = vl_tpsu(G, Y) ;
  for i=1:9, for j=1:K
    r2 = sum((G(:,i) - Y(:,j)).^2) ; e = 0 ; if r2 > 0, e = r2*log(r2) ; end
    oc_check('tpsu', abs(U(i,j) - e) < 1e-12, 'U(%d,%d) is %g, expected %g', i, j, U(i,j), e) ;
    e = [0;0] ; if r2 > 0, e = -2*(1 + log(r2))*(G(:,i) - Y(:,j)) ; end
    oc_check('dtpsu', max(abs(squeeze(dU(i,:,j))' - e)) < 1e-9, 'derivative of U(%d,%d)', i, j) ;
  end, end
  for am=[.05 .1 .2]
    Yp = Y + am*[sin(5*Y(1,:)+Y(2,:)) ; cos(3*Y(2,:)-Y(1,:))] ;
    [p, q] = meshgrid(.2:.4:1.9, .3:.5:1.8) ; [f, g] = vl_wtps(vl_tps(p, q, Y), Yp) ; [h, i] = vl_witps(f, g, Y, Yp) ;
    e = max(abs([h(:)-p(:) ; i(:)-q(:)])) ; oc_check('inverse', isequal(size(h), size(p)) && e < 1e-10, 'the inverse warp is off by %g', e) ;
  end
  oc_state(S) ;
end
