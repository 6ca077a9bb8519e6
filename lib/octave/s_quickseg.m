function s_quickseg(thorough)
% vl_quickseg and vl_quickvis on small images: consistent trees, labels, means and edges
V = [0 .3 1] ; S = {[1 4], [2 2], [2 3], [3 3]} ;
for s=1:numel(S), sz = S{s} ; b = 2 + (prod(sz) < 6) ; if prod(sz) == 9 && ~thorough, A = oc_all(2, 9) ; A = A(1:5:end,:) ; else A = oc_all(b, prod(sz)) ; end
for a=1:size(A,1), for col=0:1, for md=[1.2 2 5], for ratio=[.5 5]
  I = reshape(V(A(a,:)+1), sz) ; if col, I = cat(3, reshape(V(A(a,:)+1), sz), .6*reshape(V(A(a,:)+1), sz), flipud(reshape(V(A(a,:)+1), sz))) ; end
  if mod(a,3) == 0, U = uint8(round(255*I)) ; else U = I ; end, D = im2double(U) ;
  oc_case('vl_quickseg(%s, %g, 1, %g), %d channels', D(:,:,1), ratio, md, size(I,3)) ; oc_op(1) ;
  [J, lab, map, gaps, E] = vl_quickseg(U, ratio, 1, md) ; n = prod(sz) ;
  ok = isequal(size(J), size(D)) && isequal(size(lab), sz) && isequal(size(map), sz) && isequal(size(gaps), sz) && isequal(size(E), sz) ; oc_check('size', ok, 'sizes') ; if ~ok, continue ; end
  m = map(:)' ; oc_check('tree', all(m >= 1 & m <= n & m == round(m)), 'map %s', mat2str(m)) ; 
  oc_check('roots', isequal(isinf(gaps(:)'), m == 1:n), 'the gaps of the roots') ; oc_check('density', all(E(m) > E(1:n) | m == 1:n), 'a parent is less dense') ; oc_check('far', all(gaps(~isinf(gaps)) <= md + 1e-6), 'a link is too long') ;
  [y, x] = ind2sub(sz, 1:n) ; d2 = (x - x(m)).^2 + (y - y(m)).^2 ; q = zeros(1,n) ; 
  if size(I,3) == 1, q = d2 + ratio^2*(D(:)' - D(m)).^2 ; t = m ~= 1:n ; oc_check('gap', all(abs(gaps(t).^2 - q(t)) < 1e-6 + ratio^2*2.1e-3), 'gaps %s, expected about %s', mat2str(gaps(t),4), mat2str(sqrt(q(t)),4)) ; end
  r = m ; for k=1:n, r = m(r) ; end
  same = bsxfun(@eq, r, r') ; l = lab(:)' ; oc_check('labels', isequal(same, bsxfun(@eq, l, l')) && isequal(unique(l), 1:max(l)), 'labels %s for the roots %s', mat2str(l), mat2str(r)) ;
  for c=1:size(D,3), X = D(:,:,c) ; Y = J(:,:,c) ; for k=unique(l), oc_check('mean', all(Y(l==k) >= mean(X(l==k)) - 1e-9 & Y(l==k) <= mean(X(l==k)) + 1/2550 + 1e-9), 'region %d has colour %s, mean %g', k, mat2str(Y(l==k)',5), mean(X(l==k))) ; end, end
  oc_state(lab, map) ;
  % edges that persist up to a distance
  for form=1:3
    T = [.6 1.1 1.6] ; switch form, case 1, cmd = '[e, dd, m2, g2] = vl_quickvis(U, ratio, 1, T) ;' ; case 2, cmd = '[e, dd, m2, g2] = vl_quickvis(U, ratio, 1, md, 10) ;' ; case 3, cmd = '[e, dd, m2, g2] = vl_quickvis(U, ratio, 1, md, 1) ;' ; end
    oc_case('vl_quickvis form %d of %s, %g, %g, %d channels', form, D(:,:,1), ratio, md, size(I,3)) ; oc_op(1) ; eval(['evalc(''' cmd ''') ;']) ; dd = dd(:)' ;
    oc_check('vis-size', isequal(size(e), sz) && isequal(size(m2), sz) && isequal(size(g2), sz), 'sizes') ;
    if form == 1, oc_check('vis-dists', isequal(dd, T), 'distances %s', mat2str(dd)) ; elseif form == 3, oc_check('vis-dists', numel(dd) <= 1, '%d distances', numel(dd)) ; else oc_check('vis-dists', numel(dd) <= 10 && all(dd <= md), 'distances %s', mat2str(dd)) ; end
    w = zeros(sz) ;
    for k=1:numel(dd), p = m2(:)' ; z = g2(:)' >= dd(k) ; p(z) = find(z) ; r = p ; for i=1:n, r = p(r) ; end, r = reshape(r, sz) ;
      for i=1:sz(1)-1, for j=1:sz(2)-1, if r(i,j) ~= r(i+1,j) || r(i,j) ~= r(i,j+1), w(i,j) = dd(k) ; end, end, end
    end
    oc_check('vis-edges', isequal(e(1:end-1,1:end-1), w(1:end-1,1:end-1)), 'edges %s, expected %s (inside)', mat2str(e,4), mat2str(w,4)) ;
  end
end, end, end, end, end
