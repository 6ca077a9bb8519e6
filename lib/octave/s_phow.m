function s_phow(thorough)
% vl_phow on small images: dense SIFT of the smoothed channels at each scale
Z = {[4 6 8 10], [2 3], 3, [4 2], [1 3 5]} ; CL = {'gray','rgb','hsv','opponent'} ; CT = [.005 0 .02 10] ;
M = 22 ; N = 26 ; [x,y] = meshgrid(1:N, 1:M) ; rand('twister', 3) ;
G = single(.5 + .3*sin(x/3).*cos(y/4) + .1*(x > 12) + .02*mod(x.*y,5)) ; G(1:8,1:8) = .4 ;
C = cat(3, G, single(.4 + .3*cos((x+y)/5)), single(mod(x.*x + y, 7)/9)) ; C(1:8,1:8,:) = .4 ;
for im=0:1, for c=1:4, for z=1:numel(Z), for st=1:2+thorough, for fast=0:1, for fl=0:1, for e=0:4+thorough
  if im, I = C ; else I = G ; end
  o = struct('step',2,'fast',true,'float',false,'magnif',6,'win',1.5,'ct',.005) ; a = {} ;
  if st == 2, o.step = 3 ; a = [a {'Step', 3}] ; elseif st == 3, o.step = 1 ; a = [a {'step', 1}] ; end
  if z > 1, a = [a {'Sizes', Z{z}}] ; end
  if c > 1, a = [a {'Color', CL{c}}] ; end
  if ~fast, o.fast = false ; a = [a {'Fast', false}] ; end
  if fl, o.float = true ; a = [a {'FloatDescriptors', true}] ; end
  switch e, case 1, o.ct = 0 ; a = [a {'ContrastThreshold', 0}] ; case 2, o.ct = .02 ; a = [a {'contrastthreshold', .02}] ;
    case 3, o.magnif = 3 ; a = [{'Magnif', 3} a] ; case 4, o.win = 3 ; a = [a {'WindowSize', 3}] ; case 5, o.ct = 10 ; a = [a {'ContrastThreshold', 10}] ; end
  oc_case('vl_phow of image %d, colours %s, sizes %s, options %s', im, CL{c}, Z{z}, a) ; oc_op(1) ;
  [f, d] = vl_phow(I, a{:}) ;
  [ef, ed, near] = ref(I, CL{c}, Z{z}, o) ;
  oc_check('frames', isequal(size(f), size(ef)) && all(abs(f(:) - ef(:)) < 1e-5*(1 + abs(ef(:)))), 'frames of size %s, expected %s', mat2str(size(f)), mat2str(size(ef))) ;
  oc_check('class', isequal(size(d), size(ed)) && strcmp(class(d), class(ed)), 'descriptors of size %s and class %s', mat2str(size(d)), class(d)) ;
  if isequal(size(d), size(ed)), k = ~near ; t = 1 + 1e-3*o.float ; oc_check('descriptors', all(all(abs(double(d(:,k)) - double(ed(:,k))) <= t)), 'descriptors differ by up to %g', max(max(abs(double(d(:,k)) - double(ed(:,k)))))) ; end
  m = max(Z{z}) ; % the grids of all scales start at the same center, if the sizes are all even or all odd
  if ~any(diff(mod(Z{z},2))), for s=Z{z}, g = f(1:2, f(4,:) == s) ; if ~isempty(g), oc_check('aligned', all(abs(min(g,[],2) - (1 + 3/2*m)) <= .5), 'the first center of size %d is %s', s, mat2str(min(g,[],2)',4)) ; end, end, end
  oc_state(f, double(d)) ;
end, end, end, end, end, end, end
function [F, D, near] = ref(I, color, sizes, o)
if strcmp(color, 'gray'), if size(I,3) == 3, I = rgb2gray(I) ; end
else
  if size(I,3) == 1, I = repmat(I, [1 1 3]) ; end
  if strcmp(color, 'hsv'), I = rgb2hsv(I) ; end
  if strcmp(color, 'opponent'), r = I(:,:,1) ; g = I(:,:,2) ; b = I(:,:,3) ; mu = .3*r + .59*g + .11*b ; I = cat(3, mu, (r-g)/sqrt(2) + .01*mu, (r+g-2*b)/sqrt(6) + .01*mu) ; end
end
F = zeros(4,0) ; D = [] ; near = [] ;
for s=sizes
  q = floor(1 + 3/2*(max(sizes) - s)) ; dd = [] ; ff = {} ;
  a = {'norm', 'windowsize', o.win, 'step', o.step, 'size', s, 'bounds', [q q size(I,2) size(I,1)]} ; if o.fast, a{end+1} = 'fast' ; end, if o.float, a{end+1} = 'floatdescriptors' ; end
  for k=1:size(I,3), [ff{k}, d] = vl_dsift(vl_imsmooth(I(:,:,k), s/o.magnif), a{:}) ; dd = [dd ; d] ; end
  switch color, case 'rgb', ct = (ff{1}(3,:) + ff{2}(3,:) + ff{3}(3,:))/3 ; case 'hsv', ct = ff{3}(3,:) ; otherwise, ct = ff{1}(3,:) ; end
  dd(:, ct < o.ct) = 0 ; near = [near, abs(ct - o.ct) < 1e-6] ;
  F = [F, [ff{1}(1:3,:) ; repmat(s, 1, size(ff{1},2))]] ; D = [D, dd] ;
end
near = logical(near) ;
