function s_trainenc(thorough)
% trainEncoder: cells, projection, vocabulary; readImage and getDenseSIFT
global CALLS FEATS IMAGE FORMAT
recog_path() ; rd = @(s) (double(s) - 48*ischar(s)).*ones(6,8) ; N = 90 ; T = {'bovw','vlad','fv'} ;
for i=1:3, q = 1:N ; FEATS{i} = struct('frame', [1 + mod(q*3,8) ; 1 + mod(q+i,6) ; ones(1,N)], 'descr', single([5*sin(q*i) + q/30 ; cos(1.7*q + i) ; 2*sin(.9*q).*cos(q*i) + .3*sin(q*i)])) ; end
LA = {{}, {'1x1'}, {'2x1'}, {'1x3','2x2'}} ; SU = {zeros(4,0), [0;.25;1;.5]} ;
for t=1:3, for la=1:4, for su=1:2, for pca=[inf 1 2], for wh=0:2, for ren=0:1, for geo=0:1, for ni=1:2+thorough
  if mod(la + su + ren + geo + ni, 2) && ~thorough, continue ; end
  o = {'type', T{t}, 'numWords', 2, 'numSamplesPerWord', 12, 'readImageFn', rd, 'extractorFn', @recog_feat} ; if la > 1, o = [o {'layouts', LA{la}}] ; end, if su > 1, o = [o {'subdivisions', SU{2}}] ; end
  if pca < inf, o = [o {'numPcaDimensions', pca}] ; end, if wh, o = [o {'whitening', true}] ; end, if wh == 2, o = [o {'whiteningRegul', .25}] ; end, if ren, o = [o {'renormalize', true}] ; end, if geo, o = [o {'geometricExtension', 'xy'}] ; end
  ims = num2cell(char(48 + (1:ni))) ; CALLS = [] ; oc_case('trainEncoder of %d images, %s', ni, o([1:4 9:end])) ; oc_op(1) ; evalc('e = trainEncoder(ims, o{:}) ;') ;
  L = LA{max(la,2)} ; C = SU{su} ; for i=1:numel(L), s = L{i} - 48 ; m = s(1) ; n = s(3) ; for x=1:n, for y=1:m, C(:,end+1) = [(x-1)/n ; (y-1)/m ; x/n ; y/m] ; end, end, end
  oc_check('cells', isequal(size(e.subdivisions), size(C)) && all(all(abs(sortrows(e.subdivisions') - sortrows(C')) < 1e-12)), 'subdivisions %s, expected %s', mat2str(e.subdivisions,3), mat2str(C,3)) ;
  oc_check('copied', strcmp(e.type, T{t}) && e.numWords == 2 && e.renormalize == ren && isequal(e.extractorFn, @recog_feat), 'fields of the encoder') ; oc_check('images', isequal(sort(CALLS), 1:ni), 'images read') ;
  % the sample the encoder was learnt from
  k = ceil(24/ni) ; X = [] ; Fm = [] ; for i=1:ni, randn('state',0) ; rand('state',0) ; s = vl_colsubset(1:N, single(k)) ; X = [X FEATS{i}.descr(:,s)] ; Fm = [Fm [FEATS{i}.frame(1,s)/8 - .5 ; FEATS{i}.frame(2,s)/6 - .5]] ; end
  if pca < inf || wh
    m = min(pca, 3) ; c = mean(X, 2) ; oc_check('center', max(abs(e.projectionCenter - c)) < 1e-4, 'center') ; P = double(e.projection) ; Y = double(X) - double(c) ; S = Y*Y'/size(X,2) ; ev = sort(eig(S), 'descend') ; G = P*S*P' ; v = ev(1:m) ;
    if wh, r = 0 ; if wh == 2, r = .25*ev(1) ; end, v = v ./ (v + r) ; B = diag(1./(ev(1:m) + r)) ; else B = eye(m) ; end
    oc_check('projection', isequal(size(P), [m 3]) && max(max(abs(G - diag(v)))) < 1e-3*max(1,max(v)) && max(max(abs(P*P' - B))) < 1e-3*max(1,max(abs(B(:)))), 'projected covariance %s, expected %s', mat2str(G,4), mat2str(v',4)) ; Z = e.projection*(X - e.projectionCenter) ;
  else oc_check('projection', isequal(e.projection, 1) && isequal(e.projectionCenter, 0), 'a projection was learnt') ; Z = X ; end
  if ren, Z = Z ./ max(sqrt(sum(Z.^2, 1)), 1e-12) ; end, if geo, Z = [Z ; Fm] ; end, Z = single(Z) ;
  if t < 3, w = e.words ; oc_check('words', fixedpoint(Z, e.words), 'words %s are not the means of the samples nearest to them', mat2str(e.words,4)) ; oc_check('tree', isequal(vl_kdtreequery(e.kdtree, e.words, e.words), uint32(1:2)), 'the tree does not find the words') ;
  else b = max(var(Z'))*.0001 ; w = double(e.priors(:)) ; M = double(e.means) ; V = double(e.covariances) ; Zd = double(Z) ; r = max(max(Zd, [], 2) - min(Zd, [], 2)) + 1e-3 ;
    oc_check('mixture', isequal(size(M), [size(Z,1) 2]) && isequal(size(V), size(M)) && numel(w) == 2 && all(w >= 0) && abs(sum(w) - 1) < 1e-3 && all(V(:) > .99*b) && all(abs(M*w - mean(Zd,2)) < .03*r), 'mixture of mean %s, expected %s', mat2str((M*w)',4), mat2str(mean(Zd,2)',4)) ;
    if all(V(:) > 1.01*b), oc_check('variance', all(abs((V + M.^2)*w - (M*w).^2 - var(Zd,1,2)) < .06*r^2), 'mixture of variance %s, expected %s', mat2str(((V + M.^2)*w - (M*w).^2)',4), mat2str(var(Zd,1,2)',4)) ; end, end
  evalc('z = encodeImage(e, ones(6,8)) ;') ; q = size(Z,1) ; oc_check('usable', size(z,1) == size(C,2)*2*[1 q 2*q](t) && all(isfinite(z)), 'the encoder gives codes of %s elements', mat2str(size(z))) ; oc_state(e.projection, e.numWords) ;
end, end, end, end, end, end, end, end
% the defaults
for t=1:3, o = {'type', T{t}, 'readImageFn', rd, 'extractorFn', @recog_feat} ; n = [1024 64 64](t) ; p = {{}, {'numPcaDimensions', 100, 'whitening', true, 'whiteningRegul', .01}, {'numPcaDimensions', 80}}{t} ;
  for i=1:3, q = 1:400 ; FEATS{i} = struct('frame', ones(3,400), 'descr', single([sin(q*i)*7 ; cos(q*1.3+i)])) ; end
  oc_case('the defaults of trainEncoder for %s', T{t}) ; oc_op(1) ; evalc('e = trainEncoder({''1'',''2'',''3''}, o{:}) ; f = trainEncoder({''1'',''2'',''3''}, o{:}, ''numWords'', n, p{:}) ;') ; oc_check('defaults', e.numWords == n && oc_near(e.projection, f.projection, 1e-5), 'default words or projection %s, expected %s', mat2str(e.projection,5), mat2str(f.projection,5)) ;
end
% reading images
for h=[5 479 480 481 960], for cls=1:2, for ch=[1 3]
  IMAGE = repmat(mod((1:h)', 256), [1 3 ch]) ; if cls == 1, IMAGE = uint8(IMAGE) ; else IMAGE = IMAGE/255 ; end
  for f=0:1, oc_case('readImage of height %d, class %d, %d channels', h, cls, ch) ; oc_op(1) ; if f, [I, s] = readImage('a file') ; else [I, s] = readImage(IMAGE) ; end
    oc_check('read', abs(s - min(1, 480/h)) < 1e-12 && isa(I, 'single') && size(I,1) == min(h, 480) && size(I,3) == ch && min(I(:)) >= 0 && max(I(:)) <= 1, 'image of size %s and class %s, scale %g', mat2str(size(I)), class(I), s) ; if h <= 480, oc_check('same', max(abs(I(:) - single(im2double(IMAGE(:))))) < 1e-6, 'contents') ; end, end
end, end, end
oc_case('a file that is missing') ; oc_check('missing', oc_err(@() readImage('nix')), 'a missing image is accepted') ;
% dense SIFT features at several scales
[x, y] = meshgrid(1:48, 1:44) ; G = single(.5 + .3*sin(x/3).*cos(y/4) + .02*mod(x.*y,5)) ; G(:,1:20) = .3 ;
for sc=1:3, for st=[3 5], for rt=0:1, for nm=0:1, for ct=0:1, for b=[4 3], for ge=0:1, for col=0:1, for sg=0:1
  if mod(sc + st + rt + nm + ct + b + ge + col + sg, 2) && ~thorough, continue ; end
  SC = {1, [1 .5], [.5 1 .75]}{sc} ; o = {'scales', SC, 'step', st, 'binSize', b} ; g = [4 4 8] ; if rt, o = [o {'rootSift', true}] ; end, if nm, o = [o {'normalizeSift', false}] ; end, if ct, o = [o {'contrastthreshold', .01}] ; end, if ge, g = [2 2 4] ; o = [o {'geometry', g}] ; end, if sg, o = [o {'sigma', .8}] ; end
  I = G ; if col, I = cat(3, G, .8*G, .9*G) ; end, oc_case('getDenseSIFT %s, %d channels', o, size(I,3)) ; oc_op(1) ; if sc == 2 && ~col, I = uint8(round(I*255)) ; end, F = getDenseSIFT(I, o{:}) ; if sc == 2 && ~col, I = single(I)/255 ; end, if col, I = rgb2gray(I) ; end, if sg, I = vl_imsmooth(I, .8) ; end
  f = [] ; d = [] ; c = [] ;
  for s=SC, [p, q] = vl_dsift(imresize(I, s), 'norm', 'fast', 'floatdescriptors', 'step', st, 'size', b, 'geometry', g) ; if rt, q = sqrt(q) ; end, if ~nm, q = q ./ max(sqrt(sum(q.^2,1)), 1e-5) ; end, if ct, q(:, p(3,:) < .01) = 0 ; end, c = [c p(3,:)] ; d = [d q] ; f = [f [(p(1:2,:) - 1)/s + 1 ; repmat(b/s/3, 1, size(p,2))]] ; end
  near = abs(c - .01) < 1e-6 ; oc_check('frames', oc_near(F.frame, f, 1e-6) && oc_near(F.contrast, c, 1e-5), 'frames') ; oc_check('descr', isequal(size(F.descr), size(d)) && max(max(abs(F.descr(:,~near) - d(:,~near)))) < 1e-3, 'descriptors') ; oc_state(f) ;
end, end, end, end, end, end, end, end, end
function ok = fixedpoint(Z, w)
% every word is the mean of the samples nearest to it
Z = double(Z) ; w = double(w) ; D = zeros(size(w,2), size(Z,2)) ; for k=1:size(w,2), D(k,:) = sum((Z - w(:,k)).^2, 1) ; end
[m, a] = min(D, [], 1) ; ok = isequal(size(w,1), size(Z,1)) && all(isfinite(w(:))) ; if ~ok, return ; end
[ds] = sort(D, 1) ; if any(ds(2,:) - ds(1,:) < 1e-4), return ; end
for k=1:size(w,2), if any(a == k), ok = ok && max(abs(w(:,k) - mean(Z(:,a == k), 2))) < 1e-3 ; end, end
