function s_setup(thorough)
% setupGeneric on every small tree of classes and images: disjoint sets of the sizes asked for
recog_path() ; C = {'apple','bee','cat','dog'} ; r = fullfile(pwd, 'data') ;
for nc=1:3+thorough, A = oc_all(4, nc) ; for a=1:size(A,1)
  if exist(r, 'dir'), confirm_recursive_rmdir(false, 'local') ; rmdir(r, 's') ; end, mkdir(r) ; n = A(a,:)*2 ; 
  for c=1:nc, mkdir(fullfile(r, C{c})) ; for i=1:n(c), fclose(fopen(fullfile(r, C{c}, sprintf('i%d.jpg', i)), 'w')) ; end, fclose(fopen(fullfile(r, C{c}, 'readme.txt'), 'w')) ; end, fclose(fopen(fullfile(r, 'x.jpg'), 'w')) ;
  for tr=[2 50], for va=[0 1], for te=[1 50], for lite=0:1, for sd=1:2
    o = {'numTrain', tr, 'numVal', va, 'numTest', te, 'lite', lite > 0, 'seed', sd} ; if tr == 50 && te == 50 && ~va, o = o(7:end) ; end
    oc_case('setupGeneric of classes with %s images, %s', n, o) ; oc_op(1) ; d = setupGeneric(r, o{:}) ; d2 = setupGeneric(r, o{:}) ; I = d.images ; k = numel(I.name) ;
    oc_check('fields', isequal(d.meta.sets, {'train','val','test'}) && isequal(d.meta.classes, C(1:min(nc, 3 + (~lite)*9))) && strcmp(d.imageDir, r) && numel(I.id) == k && numel(I.set) == k && numel(I.class) == k, 'fields of the database') ;
    oc_check('unique', numel(unique(I.name)) == k && numel(unique(I.id)) == k, 'an image appears twice') ;
    if ~lite, oc_check('seed', isequal(d, d2), 'the same seed gives another database') ; end
    for i=1:k, oc_check('file', exist(fullfile(d.imageDir, I.name{i}), 'file') == 2 && strncmp(I.name{i}, [d.meta.classes{I.class(i)} filesep], numel(d.meta.classes{I.class(i)})+1), 'image %s of class %d', I.name{i}, I.class(i)) ; end
    for c=1:numel(d.meta.classes), e = [min(n(c), tr) 0 0] ; e(2) = min(n(c) - e(1), va) ; e(3) = min(n(c) - e(1) - e(2), te) ; if lite, e = min(e, 5) ; end
      g = [sum(I.class == c & I.set == 1) sum(I.class == c & I.set == 2) sum(I.class == c & I.set == 3)] ; oc_check('sets', isequal(g, e), 'class %d has sets of %s images, expected %s', c, mat2str(g), mat2str(e)) ; end
    oc_check('other', all(I.set > 0) && all(I.class <= numel(d.meta.classes)), 'an image without set or class') ; oc_state(I.set, I.class) ;
  end, end, end, end, end
  oc_case('expected number of classes') ; oc_check('expected', oc_err(@() setupGeneric(r, 'ExpectedNumClasses', nc + 1)) && ~oc_err(@() setupGeneric(r, 'ExpectedNumClasses', nc)), 'the number of classes is not checked') ;
end, end
confirm_recursive_rmdir(false, 'local') ; rmdir(r, 's') ;
