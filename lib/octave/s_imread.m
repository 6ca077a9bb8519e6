function s_imread(thorough)
% images read as gray scale, of every class and number of channels; versions; Harris scores
global IMAGE FORMAT
addpath(fullfile(fileparts(mfilename('fullpath')), 'mocki')) ;
C = {'uint8','uint16','double','logical','single'} ; V = {[0 1 128 255], [0 1 40000 65535], [0 .25 .5 1], [0 1 1 0], [0 .25 .5 1]} ; S = [255 65535 1 1 1] ; A = oc_all(4, 6) ;
for c=1:5, for a=1:1+4*(c>1)*~thorough:size(A,1), for ch=[1 3], for fm=0:1
  if fm && mod(a,5), continue ; end
  if ch == 1, I = reshape(V{c}(A(a,:)+1), 2, 3) ; else I = reshape(V{c}(A(a,:)+1), 2, 1, 3) ; end
  if c == 4 && ch == 3, continue ; end % there are no such files
  IMAGE = feval(C{c}, I) ; FORMAT = 0 ; o = {} ; if fm, o = {'pgm'} ; end
  E = double(I)/S(c) ; if ch == 3, E = .298936*E(:,:,1) + .587043*E(:,:,2) + .114021*E(:,:,3) ; end
  for f=1:2
    oc_case('image of class %s with %d channels %s', C{c}, ch, I) ; oc_op(1) ; if f == 1, J = vl_imreadgray('a file', o{:}) ; else J = vl_imreadbw('a file', o{:}) ; end
    oc_check('gray', isequal(size(J), size(E)) && all(abs(double(J(:)) - E(:)) < 2e-3) && min(J(:)) >= 0 && max(J(:)) <= 1, 'the image is %s, expected %s', mat2str(double(J),4), mat2str(E,4)) ; if c < 5, oc_check('class', isa(J, 'double'), 'class %s', class(J)) ; end
    oc_check('format', isequal(FORMAT, o), 'the format is not used') ;
  end
  oc_state(E) ;
end, end, end, end
% corner strength
D = {[3 3], [2 4], [4 2], [2 2]} ; T = [.5 1 2] ;
for d=1:4, A = oc_all(2 + (prod(D{d}) == 4), prod(D{d})) ; for a=1:size(A,1), for t=T, for m=0:3
  I = reshape(A(a,:), D{d}) ; if mod(a + 2*t + m, 2) && prod(D{d}) == 9 && ~thorough, continue ; end
  o = {} ; if m == 1, o = {[]} ; al = .04 ; elseif m > 1, al = [0 .1](m-1) ; o = {al} ; end
  oc_case('vl_harris(%s, %g, %s)', I, t, o) ; oc_op(1) ; if mod(a,2), [H, q] = vl_harris(I, t, o{:}) ; else H = vl_harris(I, t, o{:}) ; [H2, q] = vl_harris(I, t, o{:}) ; oc_check('same', isequaln(H, H2), 'another score') ; end
  X = I ; Y = I ; n = size(I,2) ; X(:,1) = I(:,2) - I(:,1) ; X(:,n) = I(:,n) - I(:,n-1) ; X(:,2:n-1) = (I(:,3:n) - I(:,1:n-2))/2 ; n = size(I,1) ; Y(1,:) = I(2,:) - I(1,:) ; Y(n,:) = I(n,:) - I(n-1,:) ; Y(2:n-1,:) = (I(3:n,:) - I(1:n-2,:))/2 ;
  P = vl_imsmooth(X.^2, t) ; Q = vl_imsmooth(X.*Y, t) ; R = vl_imsmooth(Y.^2, t) ; ok = isequal(size(H), size(I)) && isequal(size(q.sigmap), size(I)) && isequal(size(q.rho), size(I)) ; oc_check('size', ok, 'sizes') ; if ~ok, continue ; end
  for i=1:numel(I)
    e = sort(eig([P(i) Q(i);Q(i) R(i)])) ; l = max(e(1), 0) ; u = e(2) ; oc_check('sigmap', abs(q.sigmap(i) - u) < 1e-6, 'the largest eigenvalue of pixel %d is %g, expected %g', i, q.sigmap(i), u) ;
    if m, h = l*u - al*(l+u)^2 ; else h = 2*l*u/(l+u+eps) ; end, oc_check('score', abs(H(i) - h) < 1e-6, 'score %g, expected %g', H(i), h) ;
    if u > 1e-3, g = l/u ; if m, r = g - al*(1+g)^2 ; else r = 2*g/(1+g) ; end, oc_check('rho', abs(q.rho(i) - r) < 1e-4, 'rho of pixel %d is %g, expected %g', i, q.rho(i), r) ; end
  end
  oc_state(H) ;
end, end, end, end
