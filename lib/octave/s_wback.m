function s_wback(thorough)
% backward warping of images of one to three channels, at every point of a grid
for M=2:3, for N=2:3, for K=1:3, for custom=0:1
  I = reshape(mod((1:M*N*K).^2*7, 13), M, N, K) ; xr = 1:N ; yr = 1:M ;
  if custom, xr = cumsum([-1 1 1](1:N)) ; yr = 2*(1:M) ; end
  [X, Y] = meshgrid(xr(1)-.5:.25:xr(end)+.5, yr(1)-.5:.25:yr(end)+.5) ;
  for form=1:3
    x = X ; y = Y ; if form == 2, x = X(:) ; y = Y(:) ; elseif form == 3, x = X(5) ; y = Y(5) ; end
    oc_case('vl_imwbackward %dx%dx%d image, custom grid %d, form %d', M, N, K, custom, form) ; oc_op(2) ;
    if custom, a = {xr, yr, I, x, y} ; else a = {I, x, y} ; end
    J = vl_imwbackward(a{:}) ; [J3, Jx, Jy] = vl_imwbackward(a{:}) ;
    ok = isequal(size(J), [size(x) K](1:2+(K>1))) ; oc_check('size', ok, 'size %s', mat2str(size(J))) ; if ~ok, continue ; end
    oc_check('same', isequaln_(J, J3), 'results differ with the number of outputs') ;
    for k=1:K, for q=1:numel(x)
      px = (x(q) - xr(1)) / (xr(2) - xr(1)) + 1 ; py = (y(q) - yr(1)) / (yr(2) - yr(1)) + 1 ; g = J(q + (k-1)*numel(x)) ;
      if px < 1 || py < 1 || px > N || py > M, oc_check('outside', isnan(g), 'value %g outside', g) ; continue ; end
      i0 = floor(py) ; j0 = floor(px) ; i1 = min(i0+1, M) ; j1 = min(j0+1, N) ; wy = py-i0 ; wx = px-j0 ;
      if px == N || py == M, continue ; end     % on the far edge: see C41
      e = (1-wy)*((1-wx)*I(i0,j0,k) + wx*I(i0,j1,k)) + wy*((1-wx)*I(i1,j0,k) + wx*I(i1,j1,k)) ;
      oc_check('value', abs(g - e) < 1e-9, 'value at %g,%g is %g, expected %g', x(q), y(q), g, e) ;
      if wx > 0 && wy > 0
        ex = ((1-wy)*(I(i0,j1,k)-I(i0,j0,k)) + wy*(I(i1,j1,k)-I(i1,j0,k))) / (xr(2)-xr(1)) ;
        ey = ((1-wx)*(I(i1,j0,k)-I(i0,j0,k)) + wx*(I(i1,j1,k)-I(i0,j1,k))) / (yr(2)-yr(1)) ;
        oc_check('deriv', abs(Jx(q+(k-1)*numel(x)) - ex) < 1e-9 && abs(Jy(q+(k-1)*numel(x)) - ey) < 1e-9, 'derivatives at %g,%g are %g and %g, expected %g and %g', x(q), y(q), Jx(q+(k-1)*numel(x)), Jy(q+(k-1)*numel(x)), ex, ey) ;
      end
    end, end
    oc_state(J) ;
  end
end, end, end, end
function r = isequaln_(a, b)
r = isequal(size(a), size(b)) && isequal(isnan(a), isnan(b)) && isequal(a(~isnan(a)), b(~isnan(b))) ;
