function s_plots(thorough)
% boxes, grids, points, descriptors and scale spaces are drawn where they are (graphics functions replaced by recorders)
warning('off', 'all') ; addpath(fullfile(fileparts(mfilename('fullpath')), 'mockp')) ;
global DRAWN HOLD AXES CURRENT PROPS
P = {{}, {'r-'}, {'LineWidth', 2}, {'b', 'LineWidth', 5}, {'Color', 'k'}, {'--'}} ;
% boxes
B = [1 4 5 0 ; 2 -3 5 1 ; 4 7 5 3 ; 3 2 5 4] ; LB = {{}, 'one', {'one'}, {'a','b'}, {'a','b','c'}} ;
for n=0:3, A = oc_all(4, n) ; for a=1:size(A,1), for p=1:numel(P), for l=1:numel(LB), for hd=0:1
  b = B(:, A(a,:)+1) ; o = P{p} ; w = prop(o) ; if l > 1, o = [o {'label', LB{l}}] ; end, if ~n, b = zeros(4,0) ; end
  DRAWN = {} ; HOLD = logical(hd) ; PROPS = struct() ; oc_case('vl_plotbox(%s, %s)', b, o) ; oc_op(1) ; h = vl_plotbox(b, o{:}) ;
  if ~n, oc_check('empty', isempty(h) && isempty(DRAWN), 'boxes drawn') ; continue ; end
  oc_check('hold', HOLD == hd, 'the state of hold changes') ;
  oc_check('handles', isequal(size(h), [1+(l>1), n]), 'handles of size %s', mat2str(size(h))) ; g = DRAWN{1} ; x = g{2} ; y = g{3} ;
  ok = isequal(size(x), size(y)) && size(x,2) == n ; oc_check('size', ok, 'coordinates of size %s', mat2str(size(x))) ; if ~ok, continue ; end
  oc_check('lines', isequal(h(1,:), 100 + (1:n)), 'handles %s', mat2str(h)) ;
  for k=1:n
    q = [x(:,k)' ; y(:,k)'] ; c = [b([1 3 3 1 1],k)' ; b([2 2 4 4 2],k)'] ;
    oc_check('box', isequal(q(:,1), q(:,end)) && isequal(unique(q','rows'), unique(c','rows')) && all(any(diff(q,1,2) == 0, 1)) && size(q,2) == 5, 'box %d is %s', k, mat2str(q)) ;
    if l > 1
      t = DRAWN{1+k} ; L = LB{l} ; if ischar(L), L = {L} ; end
      oc_check('label', strcmp(t{1}, 'text') && t{2} == (b(1,k)+b(3,k))/2 && t{3} == (b(2,k)+b(4,k))/2 && strcmp(t{4}, L{mod(k-1,numel(L))+1}) && h(2,k) == 100*(1+k), 'label %d', k) ;
    end
  end
  oc_check('count', numel(DRAWN) == 1 + n*(l > 1), '%d objects', numel(DRAWN)) ; props(g, w) ; oc_state(x, y) ;
end, end, end, end, end
oc_case('vl_plotbox of 5 rows') ; mustfail('rows', @() vl_plotbox([1 2 3 4 5]')) ; mustfail('rows', @() vl_plotbox([1 2 3 4])) ;
% grids
for m=1:3, for n=1:3, for v=1:3, for p=1:numel(P), for hd=0:1
  [x, y] = meshgrid(1:n, 1:m) ; if v == 2, x = x + .3*y ; y = y - .1*x.^2 ; elseif v == 3, x = x.*y ; end
  DRAWN = {} ; HOLD = logical(hd) ; oc_case('vl_plotgrid(%s, %s, %s)', x, y, P{p}) ; oc_op(1) ; vl_plotgrid(x, y, P{p}{:}) ; oc_check('hold', HOLD == hd, 'the state of hold changes') ;
  oc_check('one', numel(DRAWN) == 1, '%d objects', numel(DRAWN)) ; g = DRAWN{1} ; S = segs(g{2}, g{3}) ; E = zeros(0,4) ;
  for i=1:m, for j=1:n, if i < m, E(end+1,:) = [x(i,j) y(i,j) x(i+1,j) y(i+1,j)] ; end, if j < n, E(end+1,:) = [x(i,j) y(i,j) x(i,j+1) y(i,j+1)] ; end, end, end
  oc_check('grid', same(S, E), '%d segments, expected %d', size(S,1), size(E,1)) ; props(g, prop(P{p})) ; oc_state(E) ;
end, end, end, end, end
% points
for D=1:4, for n=0:3, for p=1:3
  V = reshape(1:D*n, D, n) ; o = {{}, {'r+'}, {'x','LineWidth',2}} ; DRAWN = {} ; oc_case('vl_plotpoint of %d points with %d coordinates', n, D) ; oc_op(1) ;
  if D == 1 || D == 4, mustfail('points', @() vl_plotpoint(V, o{p}{:})) ; continue ; end
  h = vl_plotpoint(V, o{p}{:}) ; g = DRAWN{1} ; oo = o{p} ; if p == 1, oo = {'.'} ; end
  e = cell(1, D) ; for i=1:D, e{i} = V(i,:) ; end, nm = {'','plot','plot3'} ; oc_check('points', numel(DRAWN) == 1 && strcmp(g{1}, nm{D}) && isequal(g(2:end), [e oo]), 'the points drawn') ;
end, end, end
% descriptors: the frames of the bins, and in each bin one spoke for each orientation
F{1} = [] ; F{2} = [3 -1 ; 4 7] ; F{3} = [3 -1 ; 4 7 ; 2 .5] ; F{4} = [F{3} ; pi/3 -2] ; F{5} = [F{2} ; 4 1 ; 1 0 ; 3 2] ; F{6} = [F{2} ; 1 2 ; .5 0 ; -1 0 ; 2 3] ;
C = {{4,8},{1,4},{2,2},{3,1},{2,4}} ;
for c=1:numel(C), ns = C{c}{1} ; no = C{c}{2} ; for K=1:2, for D=1:6, for v=1:3, for mg=1:2, for mx=1:2, for cl=1:2
  d = zeros(ns^2*no, K) ; for k=1:K, switch v, case 1, d(:,k) = mod((1:ns^2*no)*7 + 5*k, 23) ; case 2, d(1+mod(4*k, ns^2*no), k) = 9 ; case 3, d(:,k) = 255*(mod(1:ns^2*no, 2)) ; end, end
  o = {} ; m = 3 ; if c > 1, o = {'NumSpatialBins', ns, 'NumOrientationBins', no} ; end, if mg == 2, m = 1.5 ; o = [o {'MagnificationFactor', m}] ; end, if mx == 2, o = [o {'MaxValue', 30}] ; end
  f = F{D} ; if D > 1, f = f(:,1:K) ; end, if cl == 2, dd = uint8(d) ; else dd = d ; end
  DRAWN = {} ; oc_case('vl_plotsiftdescriptor of %d descriptors, frames %s, options %s', K, f, o) ; oc_op(1) ;
  if D == 1 && isempty(o), h = vl_plotsiftdescriptor(dd) ; else h = vl_plotsiftdescriptor(dd, f, o{:}) ; end
  oc_check('one', numel(DRAWN) == 1, '%d objects', numel(DRAWN)) ; g = DRAWN{1} ; S = segs(g{2}, g{3}) ; E = zeros(0,4) ;
  for k=1:K
    switch D, case 1, T = [0;0] ; A = eye(2) ; otherwise, T = f(1:2,k) ; end
    switch D, case 2, A = 10*eye(2) ; case 3, A = f(3,k)*eye(2) ; case 4, t = f(4,k) ; A = f(3,k)*[cos(t) -sin(t) ; sin(t) cos(t)] ; case 5, a = sqrt(f(3,k)) ; A = [a 0 ; f(4,k)/a sqrt(f(5,k) - f(4,k)^2/f(3,k))] ; case 6, A = [f(3,k) f(5,k) ; f(4,k) f(6,k)] ; end
    A = A*m ; w = .4*d(:,k) ; if mx == 2, w = w/30 ; else w = w/max(d(:,k)) ; end
    for i=0:ns, z = i - ns/2 ; E(end+1,:) = [A*[z;-ns/2]+T ; A*[z;ns/2]+T]' ; E(end+1,:) = [A*[-ns/2;z]+T ; A*[ns/2;z]+T]' ; end
    for y=0:ns-1, for x=0:ns-1, for t=0:no-1
      q = [x + .5 - ns/2 ; y + .5 - ns/2] ; E(end+1,:) = [A*q+T ; A*(q + w(1 + t + no*(x + ns*y))*[cos(2*pi*t/no);sin(2*pi*t/no)])+T]' ;
    end, end, end
  end
  oc_check('descriptor', same(S, E), '%d segments, expected %d', size(S,1), size(E,1)) ; oc_state(E) ;
end, end, end, end, end, end, end
oc_case('vl_plotsiftdescriptor of odd arguments') ; z = zeros(128,2) ;
mustfail('args', @() vl_plotsiftdescriptor(zeros(127,1))) ; mustfail('args', @() vl_plotsiftdescriptor(z, [1;2])) ; mustfail('args', @() vl_plotsiftdescriptor(z, [1 2])) ; mustfail('args', @() vl_plotsiftdescriptor(z, 'ab')) ; mustfail('args', @() vl_plotsiftdescriptor(z, ones(7,2))) ;
% the places of axes
MG = {{}, {'Margin', .01}, {'MarginLeft', .02}, {'MarginRight', .03}, {'MarginTop', .04}, {'MarginBottom', .05}, {'Spacing', .02}} ;
for K=1:7, for p=1:K, for a=1:numel(MG), for b=1:numel(MG), for bx=1:3
  o = [MG{a} MG{b}] ; if bx == 2, o = [o {'Box', 'outer'}] ; elseif bx == 3, o = [{'box', 'inner'} o] ; end
  for mode=1:2
    N = ceil(sqrt(K)) ; M = ceil(K/N) ; if mode == 2, M = 2 ; N = ceil(K/2) ; end, if mode == 2, c = {M, N, p} ; else c = {K, p} ; end
    AXES = {} ; oc_case('vl_tightsubplot(%s, %s)', c, o) ; oc_op(1) ; H = vl_tightsubplot(c{:}, o{:}) ; e = zeros(1,4) ;
    for i=1:2:numel(o), v = o{i+1} ; switch lower(o{i}), case 'margin', e(:) = v ; case 'marginleft', e(1) = v ; case 'marginright', e(2) = v ; case 'margintop', e(3) = v ; case 'marginbottom', e(4) = v ; case 'spacing', e(:) = v/2 ; end, end
    r = floor((p-1)/N) ; q = mod(p-1, N) ; pos = [q/N + e(1), 1 - (r+1)/M + e(4), 1/N - e(1) - e(2), 1/M - e(3) - e(4)] ;
    nm = 'Position' ; if bx == 2, nm = 'OuterPosition' ; end
    oc_check('axes', numel(AXES) == 1 && H == 1 && strcmp(AXES{1}{1}, nm) && all(abs(AXES{1}{2} - pos) < 1e-9), 'axes at %s, expected %s', mat2str(AXES{1}{2},3), mat2str(pos,3)) ;
    vl_tightsubplot(K, 1, 'Margin', .11) ; H2 = vl_tightsubplot(c{:}, o{:}) ; oc_check('again', H2 == 1 && CURRENT == 1 && numel(AXES) == 2, 'the axes are not found again') ; oc_state(pos) ;
  end
end, end, end, end, end
oc_case('vl_tightsubplot with wrong options') ; mustfail('args', @() vl_tightsubplot(2, 1, 'Nix', 1)) ; mustfail('args', @() vl_tightsubplot(2, 1, 'Box', 'nix')) ;
% sizes of figures
for a=[.25 .5 1 1.5 4], for w=[100 300], for hh=[100 200]
  PROPS = struct('position7', [5 6 w hh], 'paperposition7', [1 2 hh w]) ; oc_case('vl_figaspect(%g) of %d x %d', a, w, hh) ; oc_op(1) ; vl_figaspect(a) ; x = PROPS.position7 ; y = PROPS.paperposition7 ;
  oc_check('aspect', abs(x(3)/x(4) - a) < 1e-9 && abs(y(3)/y(4) - a) < 1e-9 && isequal(x(1:2), [5 6]) && isequal(y(1:2), [1 2]), 'sizes %s and %s', mat2str(x), mat2str(y)) ;
  oc_check('side', (a >= 1 && x(4) == hh && y(4) == w) || (a < 1 && x(3) == w && y(3) == hh), 'both sides change') ;
end, end, end
PT = {'usletter','a4','square'} ; PS = {[8.5 11],[8 12],[5 5]} ;
for r=[.25 .5 1], for ar=[0 .5 2], for ref=0:2, for pt=1:4, for mg=0:2, for fg=1:2
  o = {} ; if ar, o = {'AspectRatio', ar} ; end, if ref, R = {'Horizontal','vertical'} ; o = [o {'Reference', R{ref}}] ; end, if pt > 1, o = [o {'PaperType', PT{pt-1}}] ; end, if mg, o = [o {'Margin', mg/4}] ; end
  PROPS = struct('paperposition7', [1 2 6 4], 'paperposition9', [3 3 2 6], 'papersize7', [1 1], 'papersize9', [2 2]) ; oc_case('vl_printsize(%d, %g, %s)', fg, r, o) ; oc_op(1) ; 
  if fg == 1, id = 7 ; b = 1.5 ; vl_printsize(r, o{:}) ; else id = 9 ; b = 1/3 ; vl_printsize(9, r, o{:}) ; end
  if ar, b = ar ; end, pap = PS{max(pt-1,1)} ; if ref == 2, H = pap(2)*r ; W = H*b ; g = H*mg/4 ; else W = pap(1)*r ; H = W/b ; g = W*mg/4 ; end
  x = PROPS.(sprintf('paperposition%d', id)) ; s = PROPS.(sprintf('papersize%d', id)) ;
  oc_check('print', all(abs(x - [g g W H]) < 1e-9) && all(abs(s - [W+2*g H+2*g]) < 1e-9), 'position %s of paper %s, expected %s', mat2str(x,4), mat2str(s,4), mat2str([g g W H],4)) ; oc_state(x, s) ;
end, end, end, end, end, end
oc_case('vl_printsize, wrong reference') ; mustfail('args', @() vl_printsize(1, 'Reference', 'nix')) ;
% scale spaces
for n=1:3, for k=1:3, for first=-1:1, for u=0:2
  ss = struct('firstOctave', first) ; for i=1:n, ss.data{i} = reshape(mod((1:4*k)*5 + i, 7 + i), 2, 2, k) - i ; end
  o = {} ; if u == 1, o = {'Uniform', true} ; elseif u == 2, o = {'clim', [0 3]} ; end
  DRAWN = {} ; AXES = {} ; oc_case('vl_plotss of %d octaves of %d levels from %d, %s', n, k, first, o) ; oc_op(1) ; vl_plotss(ss, o{:}) ; oc_check('count', numel(DRAWN) == 2*n && numel(AXES) == n, '%d objects in %d axes', numel(DRAWN), numel(AXES)) ; lo = inf ; hi = -inf ;
  for i=1:n, lo = min(lo, min(ss.data{i}(:))) ; hi = max(hi, max(ss.data{i}(:))) ; end
  for i=1:n
    if u == 1, c = {'clim', [lo hi]} ; elseif u == 2, c = {'clim', [0 3]} ; else c = {} ; end
    N = ceil(sqrt(n)) ; M = ceil(n/N) ; pos = [mod(i-1,N)/N, 1 - (floor((i-1)/N)+1)/M, 1/N, 1/M] ; oc_check('axes', all(abs(AXES{i}{2} - pos) < 1e-9), 'octave %d at %s', i, mat2str(AXES{i}{2},3)) ;
    oc_check('octave', strcmp(DRAWN{2*i-1}{1}, 'imshow') && isequal(DRAWN{2*i-1}{2}, vl_imarraysc(ss.data{i}, c{:})), 'image %d', i) ; oc_check('title', isequal(DRAWN{2*i}{2}, sprintf('octave %d', first - 1 + i)), 'title %s', DRAWN{2*i}{2}) ;
  end
end, end, end, end
% data sets of the SVM
H = struct('kernel', 'kchi2', 'order', 2) ; X = {single([1 2;3 4]), [1 2;3 4], zeros(2,0), zeros(2,2,2), sparse([1 0;0 1]), uint8([1 2]), 'ab', {1}} ; K = {{}, {'homkermap', H}, {'HomKerMap', []}, {'homkermap', [H H]}, {'homkermap', 3}, {'homkermap', 'kchi2'}, {'homkermap', struct('nix', 1)}, {'nix', 1}, {'homkermap', struct('window', 'uniform', 'gamma', 1, 'period', 2)}} ;
for x=1:numel(X), for k=1:numel(K)
  oc_case('vl_svmdataset of array %d, options %d', x, k) ; oc_op(1) ; bad = x > 3 || (k > 3 && k < 9) ;
  if bad, mustfail('dataset', @() vl_svmdataset(X{x}, K{k}{:})) ; continue ; end
  d = vl_svmdataset(X{x}, K{k}{:}) ; e = struct('data', X{x}) ; if k == 2 || k == 9, e.homkermap = K{k}{2} ; end, oc_check('dataset', isequal(d, e) && strcmp(class(d.data), class(X{x})), 'the data set') ;
end, end
function w = prop(o)
w = struct() ; if mod(numel(o), 2), w = struct() ; s = o{1} ; o(1) = [] ; switch s, case 'r-', w.color = 'r' ; w.linestyle = '-' ; case 'b', w.color = 'b' ; case '--', w.linestyle = '--' ; end, end
for i=1:2:numel(o), w.(lower(o{i})) = o{i+1} ; end
function props(g, w)
% the properties given arrive in the drawing function
r = struct() ; o = g(4:end) ; for i=1:2:numel(o)-1, r.(lower(o{i})) = o{i+1} ; end
oc_check('props', isequal(r, w) && ~mod(numel(o),2), 'properties %s instead of %s', disp(r), disp(w)) ;
function S = segs(x, y)
% all segments of polygonal lines separated by nans
x = x(:) ; y = y(:) ; k = ~any(isnan([x(1:end-1) x(2:end)]), 2) ; S = [x([k;false]) y([k;false]) x([false;k]) y([false;k])] ;
function r = same(S, E)
% equal sets of segments, direction does not matter
r = isequal(size(S), size(E)) ; if ~r || isempty(S), return ; end
r = all(all(abs(canon(S) - canon(E)) < 1e-6)) ;
function S = canon(S)
S = round(S*1e7)/1e7 + 0 ; 
for i=1:size(S,1), if S(i,1) > S(i,3) + 1e-5 || (abs(S(i,1) - S(i,3)) <= 1e-5 && S(i,2) > S(i,4)), S(i,:) = S(i,[3 4 1 2]) ; end, end
[q, k] = sortrows(round(S*1e4)) ; S = S(k,:) ;
function mustfail(key, fn)
oc_op(1) ; oc_check(key, oc_err(fn), 'a wrong argument is accepted') ;
