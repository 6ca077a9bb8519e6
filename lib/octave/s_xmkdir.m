function s_xmkdir(thorough)
% works in the scratch directory the suite is started in
top = pwd ; base = fullfile(top, 'x') ;
P = {'a', 'a/', 'a/b', 'a/b/', 'a/b/c', 'a.b/c.d', 'a/b.c/', 'a/b/c/d', 'b'} ;
E = {{}, {'a'}, {'a', 'a/b'}, {'b'}, {'a', 'a/b', 'a/b/c'}} ;
for p=1:numel(P), for e=1:numel(E), for ab=0:1, for md=0:3
  opt = {{}, {'Pretend', true}, {'Verbose', true}, {'pretend', false, 'verbose', false}}{md+1} ;
  oc_case('vl_xmkdir(''%s'') absolute %d existing %s options %s', P{p}, ab, E{e}, opt) ; oc_op(1) ;
  if exist(base, 'dir'), confirm_recursive_rmdir(false, 'local') ; rmdir(base, 's') ; end
  mkdir(base) ; cd(base) ; for i=1:numel(E{e}), mkdir(fullfile(base, E{e}{i})) ; end
  before = tree(base) ;
  t = P{p} ; if ab, t = [base '/' t] ; end
  if md == 1 || md == 2, out = evalc('vl_xmkdir(t, opt{:})') ; else out = evalc('vl_xmkdir(t, opt{:})') ; oc_check('silent', isempty(out), 'prints %s', out) ; end
  after = tree(base) ; cd(top) ;
  w = before ;
  if md ~= 1
    q = P{p} ; if q(end) == '/', q(end) = [] ; end
    k = [find(q == '/') - 1, numel(q)] ; for j=k, w{end+1} = ['/' q(1:j)] ; end
  end
  oc_check('dirs', (isempty(w) && isempty(after)) || isequal(after(:), unique(w)(:)), 'directories %s', disp(after)) ;
  oc_state(p, e, ab, md) ;
end, end, end, end
if exist(base, 'dir'), confirm_recursive_rmdir(false, 'local') ; rmdir(base, 's') ; end
function l = tree(d)
l = cell(1,0) ; n = dir(d) ;
for i=1:numel(n)
  if n(i).isdir && ~any(strcmp(n(i).name, {'.', '..'}))
    s = tree(fullfile(d, n(i).name)) ;
    l = [l {['/' n(i).name]} cellfun(@(x) ['/' n(i).name x], s, 'UniformOutput', false)] ;
  end
end
l = unique(l) ; l = reshape(l, 1, []) ;
