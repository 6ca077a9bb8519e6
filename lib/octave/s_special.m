function s_special(thorough)
h = 1e-5 ;
for x=-6:.25/(1+thorough):6
  oc_case('at %g', x) ; oc_op(6) ;
  oc_check('gaussian', abs(vl_gaussian(x) - exp(-x^2/2)/sqrt(2*pi)) < 1e-12, 'vl_gaussian') ;
  oc_check('dgaussian', abs(vl_dgaussian(x) - (vl_gaussian(x+h)-vl_gaussian(x-h))/2/h) < 1e-7, 'vl_dgaussian') ;
  oc_check('ddgaussian', abs(vl_ddgaussian(x) - (vl_dgaussian(x+h)-vl_dgaussian(x-h))/2/h) < 1e-7, 'vl_ddgaussian') ;
  oc_check('sigmoid', abs(vl_sigmoid(x) + vl_sigmoid(-x) - 1) < 1e-12 && abs(vl_sigmoid(x) - 1/(1+exp(-x))) < 1e-12, 'vl_sigmoid') ;
  oc_check('dsigmoid', abs(vl_dsigmoid(x) - (vl_sigmoid(x+h)-vl_sigmoid(x-h))/2/h) < 1e-7, 'vl_dsigmoid') ;
  for r=0:.25:1
    y = vl_rcos(r, x) ; a = abs(x) ;
    if a < 1-r || (r == 0 && a <= 1), e = 1 ; elseif a > 1, e = 0 ; else e = .5*(1 + cos(pi*(a-(1-r))/r)) ; end
    oc_check('rcos', abs(y - e) < 1e-12, 'vl_rcos(%g, %g) is %g, expected %g', r, x, y, e) ;
  end
  oc_state(x) ;
end
X = reshape(-2:.5:3.5, 3, 4) ; F = {@vl_gaussian, @vl_dgaussian, @vl_ddgaussian, @vl_sigmoid, @vl_dsigmoid, @(x) vl_rcos(.5, x)} ;
for f=1:6
  oc_case('function %d of an array', f) ; Y = F{f}(X) ;
  oc_check('array', isequal(size(Y), size(X)) && oc_near(Y, arrayfun(F{f}, X)), 'elements differ') ;
end
% numerical derivatives of every quadratic map of up to three variables with small coefficients
for n=1:3, for c=1:60
  Q = reshape(mod((1:n*n)*c*7, 5) - 2, n, n) ; b = mod((1:n)'*c*3, 5) - 2 ; x = mod((1:n)'*c, 4) - 1.5 ;
  f = @(x, s) s*[x(:)'*Q*x(:) + b'*x(:) ; sum(x(:)) ; x(1)^2] ;
  oc_case('derivatives of a quadratic map of %d variables, %d', n, c) ; oc_op(2) ;
  xs = x ; if mod(c,2), xs = x' ; end
  d = vl_numder(f, xs, 2) ; e = 2*[(Q+Q')*x + b , ones(n,1), [2*x(1) ; zeros(n-1,1)]]' ;
  oc_check('numder', isequal(size(d), [3 n]) && max(max(abs(d - e))) < 1e-4, 'derivative %s, expected %s', mat2str(d,5), mat2str(e,5)) ;
  d = vl_numder2(f, xs, 2) ; ok = isequal(size(d), [3 n n](1:2+(n>1))) ;
  H = zeros(3,n,n) ; H(1,:,:) = 2*(Q+Q') ; H(3,1,1) = 4 ;
  oc_check('numder2', ok && max(abs(d(:) - H(:))) < 1e-2, 'second derivative %s, expected %s', mat2str(d(:)',4), mat2str(H(:)',4)) ;
  oc_state(d) ;
end, end
