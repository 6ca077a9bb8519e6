function s_encode(thorough)
% encodeImage: the encoding of every cell equals its definition; caching
global CALLS FEATS
recog_path() ;
W = 8 ; H = 6 ; [x, y] = meshgrid([1 2 4 5 7.5], [1 3 4.5 5.9]) ; fr = [x(:)' ; y(:)' ; ones(1,20)] ; q = 1:20 ;
D = single([mod(q*7,11) ; mod(q*5,13) - 4 ; mod(q.*q,7)]) ;
S{1} = 1:20 ; S{2} = [1 2 6] ; S{3} = [20 3] ; S{4} = [] ; S{5} = 7 ;
for i=1:5, FEATS{i} = struct('frame', fr(:,S{i}), 'descr', D(:,S{i})) ; end
rd = @(im) im ; LA = {[0;0;1;1], [0 0 .5 .5;0 .5 0 .5;.5 .5 1 1;.5 1 .5 1], [0 0;0 .5;1 1;.5 1], [0 .25 .5;0 0 0;.25 .5 1;1 1 1], [0 0 0;0 0 .5;1 .5 1;1 1 1]} ; T = {'bovw','vlad','fv'} ;
for t=1:3, for la=1:numel(LA), for geo=0:1, for ren=0:1, for pr=1:3, for im=1:5
  switch pr, case 1, P = 1 ; c = 0 ; case 2, P = single([1 0 0;0 .6 .8]) ; c = single([3;1;2]) ; case 3, P = single([.5 -.5 1]) ; c = single([1;1;1]) ; end
  d = 3 ; if pr > 1, d = size(P,1) ; end, dim = d + 2*geo ;
  e = struct('type', T{t}, 'subdivisions', LA{la}, 'renormalize', ren > 0, 'projection', P, 'projectionCenter', c, 'readImageFn', rd, 'extractorFn', @recog_feat) ; if geo, e.geometricExtension = 'xy' ; else e.geometricExtension = 'None' ; end
  K = 3 ; words = single(mod((1:dim)'*(1:K)*5, 7) - 2) ; if ren, words = words/4 ; end, e.numWords = K ;
  if t < 3, e.words = words ; e.kdtree = vl_kdtreebuild(words, 'NumTrees', 2) ; else e.means = words ; e.covariances = single(.5 + mod((1:dim)'*(1:K), 3)) ; e.priors = single([.5;.25;.25]) ; end
  I = im*ones(H, W) ; CALLS = [] ; oc_case('encodeImage: %s, cells %s, extension %s, renormalize %d, projection %d, features %d', T{t}, LA{la}, e.geometricExtension, ren, pr, im) ; oc_op(1) ;
  evalc('z = encodeImage(e, I) ;') ; R = [] ; skip = false(0,1) ;
  for k=1:size(LA{la},2)
    b = LA{la}(:,k) ; f = fr(:,S{im}) ; s = f(1,:) >= b(1)*W & f(1,:) < b(3)*W & f(2,:) >= b(2)*H & f(2,:) < b(4)*H ; X = zeros(dim, 0, 'single') ; J = find(s) ;
    for j=J, v = P*(D(:,S{im}(j)) - c) ; if ren, v = v/max(norm(v), 1e-12) ; end, if geo, v = [v ; f(1,j)/W - .5 ; f(2,j)/H - .5] ; end, X(:,end+1) = v ; end
    tie = false ; A = zeros(K, numel(J), 'single') ; for j=1:numel(J), dd = sum((words - X(:,j)).^2, 1) ; [m, w] = min(dd) ; A(w,j) = 1 ; o = sort(dd) ; tie = tie || o(2) - o(1) < 1e-4 ; end
    switch t, case 1, r = sqrt(sum(A,2)) ; case 2, if isempty(J), r = zeros(dim*K,1) ; else r = vl_vlad(X, words, A, 'SquareRoot', 'NormalizeComponents') ; end, case 3, tie = false ; if isempty(J), r = zeros(2*dim*K,1) ; else r = vl_fisher(X, e.means, e.covariances, e.priors, 'Improved') ; end, end
    r = double(r) / max(norm(double(r)), 1e-12) ; R = [R ; r] ; skip = [skip ; repmat(tie, numel(r), 1)] ;
  end
  z = double(z) ; ok = isequal(size(z), size(R)) ; oc_check('size', ok, 'code of size %s, expected %s', mat2str(size(z)), mat2str(size(R))) ;
  if ok, oc_check('code', all(abs(z(~skip) - R(~skip)) < 1e-4), 'code %s, expected %s', mat2str(z',4), mat2str(R',4)) ; end
  oc_check('calls', isequal(CALLS, im), 'features extracted %d times', numel(CALLS)) ; oc_state(z) ;
end, end, end, end, end, end
% several images and the cache: every history of three calls
e = struct('type', 'bovw', 'subdivisions', LA{3}, 'renormalize', false, 'projection', 1, 'projectionCenter', 0, 'readImageFn', rd, 'extractorFn', @recog_feat, 'geometricExtension', 'none') ; e.words = single([1 4 8;0 3 -2;1 2 3]) ; e.numWords = 3 ; e.kdtree = vl_kdtreebuild(e.words, 'NumTrees', 2) ; Z = [] ;
for im=1:5, I = im*ones(H,W) ; evalc('Z(:,im) = encodeImage(e, I) ;') ; end
for n=0:4, for ch=1:4, for cache=0:1, A = oc_all(2, 3) ; for a=1:8
  L = mod((0:n-1)*2, 5) + 1 ; ims = {} ; for i=1:n, ims{i} = L(i)*ones(H,W) ; end, nch = ceil(n/ch) ; 
  c = fullfile(pwd, 'cache') ; if exist(c, 'dir'), delete(fullfile(c, '*.mat')) ; else mkdir(c) ; end
  o = {'cacheChunkSize', ch} ; if cache, o = [o {'cacheDir', c}] ; end, have = false(1, nch) ;
  for step=A(a,:)
    if step && cache && nch, f = fullfile(c, 'chunk-001.mat') ; if exist(f, 'file'), delete(f) ; end, have(1) = false ; end
    CALLS = [] ; oc_case('encodeImage of %d images, chunks of %d, cache %d, history %s', n, ch, cache, A(a,:)) ; oc_op(1) ; evalc('z = encodeImage(e, ims, o{:}) ;') ; x = [] ; for k=1:nch, if ~have(k), x = [x L((k-1)*ch+1:min(n,k*ch))] ; end, end
    oc_check('images', isequal(z, Z(:,L)) || (n == 0 && isempty(z)), 'codes of %d images', n) ; oc_check('cached', isequal(CALLS, x) || (isempty(CALLS) && isempty(x)), 'features extracted of %s, expected of %s', mat2str(CALLS), mat2str(x)) ; have(:) = cache ;
    w = 0 ; if cache, w = nch ; end, oc_check('files', numel(glob(fullfile(c, '*.mat'))) == w, 'files in the cache') ;
  end
end, end, end, end
oc_case('unknown geometric extension') ; oc_check('extension', oc_err(@() extendDescriptorsWithGeometry('nix', 1, 1)), 'accepted') ;
