function s_lbpflip(thorough)
% left-right flip of features against the features of the flipped image
for k=0:2^9-1
  I = reshape(bitget(k, 1:9), 3, 3) ; one(I, 3) ;
end
G = oc_all(3,6) ;
for k=1:size(G,1), one([0 1 0; G(k,1:3) ; G(k,4:6)], 3) ; end
for k=0:2^12-1
  if ~thorough && mod(k,4), continue ; end
  one([0 1 0 0 1 1 ; reshape(bitget(k, 1:12), 2, 6)], 3) ;
end
function one(I, c)
I = single(I) ;
oc_case('%s', I) ; oc_op(3) ;
f = vl_lbp(I, c) ; g = vl_lbp(fliplr(I), c) ; h = vl_lbpfliplr(f) ;
oc_check('flip', isequal(size(h), size(g)) && max(abs(h(:)-g(:))) < 1e-5, 'the flipped features differ from those of the flipped image by %g', max(abs(h(:)-g(:)))) ;
oc_check('involution', isequal(vl_lbpfliplr(h), f), 'flipping twice changes the features') ;
oc_state(f) ;
