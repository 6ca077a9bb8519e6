function s_imarraysc(thorough)
% vl_imarraysc on every small array: the mosaic of the images scaled
V = [0 1 2 5 -3] ; CM = {[0 0 0;1 1 1], [0 0 0; 1 0 0; 0 1 0; 0 0 1; 1 1 1], [0 0 0;.5 .5 .5;1 1 1]} ; b = 3 + thorough ;
A = oc_all(b, 4) ; CL = {[], [0 4], [-1 1], [2 3]} ;
for cls=1:3, for a=1:size(A,1), for cm=1:3, for mode=1:5, for shape=1:2
  if mod(a + cm + mode + shape, 3) && cls == 2, continue ; end
  if shape == 1, I = reshape(V(A(a,:)+1), 1, 2, 2) ; else I = reshape(V(A(a,:)+1), 2, 1, 2) ; end
  one(I, CM{cm}, CL, mode, cls) ;
end, end, end, end, end
A = oc_all(2 + thorough, 6) ;
for a=1:size(A,1), for mode=1:5, for cls=1:2:3
  I = reshape(V(A(a,:)+1), 1, 1, 3, 2) ; one(I, CM{1}, CL, mode, cls) ;
  I = cat(2, I, I(:,:,[2 3 1],[2 1])) ; one(I, CM{2}, CL, mode, cls) ;
end, end, end
I = zeros(2,2,2,2) ; oc_case('bad') ; oc_check('bad', oc_err(@() vl_imarraysc(I, 'cmap', CM{1})) && oc_err(@() vl_imarraysc(zeros(1,1,3,1,2), 'cmap', CM{1})) && oc_err(@() vl_imarraysc(zeros(2,2), 'cmap', CM{1}, 'uniform', true, 'clim', [0 1])), 'accepted') ;
function one(I, cm, CL, mode, cls)
K = {'double','single','uint8'} ; I = cast(I, K{cls}) ; u = mode == 5 ; rgb = ndims(I) == 4 ;
oc_case('%s array of size %s: %s, mode %d, %d colours', K{cls}, mat2str(size(I)), double(I(:)'), mode, size(cm,1)) ; oc_op(1) ;
a = {'cmap', cm} ; if u, a = [a {'Uniform', true}] ; elseif mode > 1, a = [{'CLim', CL{mode}} a] ; end
J = vl_imarraysc(I, a{:}) ; D = double(I) ; n = size(cm,1) ; E = D ; lo = D ;
for k=1:size(D, 3 + rgb)
  if rgb, q = D(:,:,:,k) ; else q = D(:,:,k) ; end
  if u, r = [min(D(:)) max(D(:))] ; elseif mode > 1, r = CL{mode} ; else r = [min(q(:)) max(q(:))] ; end
  t = (q - r(1)) / max(r(2) - r(1), eps) ; t = min(max(t, 0), 1) ;
  if rgb, E(:,:,:,k) = t ; lo(:,:,:,k) = t ; else E(:,:,k) = min(floor(n*t + 1e-4) + 1, n) ; lo(:,:,k) = min(floor(n*t - 1e-4) + 1, n) ; lo(:,:,k) = max(lo(:,:,k), 1) ; end
end
X = vl_imarray(E, 'cmap', cm) ; Y = vl_imarray(lo, 'cmap', cm) ; J = double(J) ;
oc_check('scaled', isequal(size(J), size(X)) && all(abs(J(:) - X(:)) < 1e-4 | abs(J(:) - Y(:)) < 1e-4), 'result %s, expected %s', mat2str(J(:)',5), mat2str(X(:)',5)) ;
oc_state(J) ;
