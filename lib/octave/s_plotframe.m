function s_plotframe(thorough)
% vl_plotframe draws each frame where it is (graphics functions replaced by recorders)
global DRAWN
addpath(fullfile(fileparts(mfilename('fullpath')), 'mock')) ;
B{2} = [1 5;3 -2] ; B{3} = [1 5 0;3 -2 4;2 .5 7] ; B{4} = [B{3} ; 0 pi/3 -2] ; B{5} = [B{3}(1:2,:) ; 4 1 9 ; 0 .5 -2 ; 1 2 3] ; B{6} = [B{3}(1:2,:) ; 2 1 0 ; 0 1 -3 ; .5 -1 2 ; 3 1 0] ;
P = {{}, {'r-'}, {'LineWidth', 2}, {'b', 'LineWidth', 5}, {'Color', 'k'}} ;
for D=2:6, A = oc_all(size(B{D},2), 3) ; for n=1:3, for a=1:size(A,1), for p=1:numel(P)
  if any(A(a,n+1:end)), continue ; end
  f = B{D}(:, A(a,1:n)+1) ; DRAWN = {} ; oc_case('vl_plotframe(%s, %s)', f, P{p}) ; oc_op(1) ;
  if mod(a,2) && n == 1 && D > 1, h = vl_plotframe(f', P{p}{:}) ; else h = vl_plotframe(f, P{p}{:}) ; end
  oc_check('one', numel(DRAWN) == 1 && isequal(h, 1), '%d objects, handle %s', numel(DRAWN), mat2str(h)) ; g = DRAWN{1} ; x = g{2}(:)' ; y = g{3}(:)' ;
  oc_check('size', numel(x) == numel(y) && isequal(isnan(x), isnan(y)), 'coordinates') ;
  if D == 2, oc_check('points', isequal(x, f(1,:)) && isequal(y, f(2,:)), 'points %s', mat2str([x;y],4)) ; continue ; end
  s = pieces(x, y) ; arrows = D == 4 || D == 6 ;
  oc_check('pieces', numel(s) == n*(1 + arrows), '%d curves for %d frames', numel(s), n) ; if numel(s) ~= n*(1 + arrows), continue ; end
  % each frame is drawn as a closed ellipse and a radius
  ne = zeros(1,n) ; na = ne ;
  for k=1:numel(s)
    q = s{k} ; hit = 0 ;
    for i=1:n
      T = f(1:2,i) ; switch D, case {3,4}, S = f(3,i)^2*eye(2) ; case 5, S = [f(3,i) f(4,i) ; f(4,i) f(5,i)] ; case 6, M = reshape(f(3:6,i),2,2) ; S = M*M' ; end
      v = q - T ; if size(q,2) > 2, r = sum(v .* (S \ v), 1) ; if all(abs(r - 1) < 1e-6) && norm(q(:,1) - q(:,end)) < 1e-6 && size(q,2) >= 12 && turns(S, v), ne(i) = 1 ; hit = 1 ; end
      else
        if D == 4, w = f(3,i)*[-sin(f(4,i)) ; cos(f(4,i))] ; elseif D == 6, w = f(5:6,i) ; else w = [inf;inf] ; end
        if norm(v(:,1)) < 1e-9 && norm(v(:,2) - w) < 1e-6, na(i) = 1 ; hit = 1 ; end
      end
    end
    oc_check('curve', hit, 'curve %d from %s to %s (%d points) belongs to no frame', k, mat2str(q(:,1)',4), mat2str(q(:,end)',4), size(q,2)) ;
  end
  oc_check('all', all(ne) && (~arrows || all(na)), 'frames without ellipse or arrow') ;
  % the properties asked for come after the defaults
  o = g(4:end) ; w = struct() ; for i=1:2:numel(o)-1, w.(lower(o{i})) = o{i+1} ; end
  if p == 3, oc_check('props', w.linewidth == 2, 'LineWidth') ; elseif p == 4, oc_check('props', w.linewidth == 5 && isequal(w.color, 'b') , 'LineWidth and color') ; elseif p == 5, oc_check('props', isequal(w.color, 'k'), 'Color') ; elseif p == 2, oc_check('props', isequal(w.color, 'r') && isequal(w.linestyle, '-'), 'line specification') ; end
  oc_state(x, y) ;
end, end, end, end
function s = pieces(x, y)
s = {} ; c = zeros(2,0) ;
for i=1:numel(x), if isnan(x(i)), if ~isempty(c), s{end+1} = c ; end, c = zeros(2,0) ; else c(:,end+1) = [x(i);y(i)] ; end, end
if ~isempty(c), s{end+1} = c ; end
function r = turns(S, v)
% the curve goes around once
[V, L] = eig(S) ; u = diag(1./sqrt(diag(L)))*V'*v ; t = atan2(u(2,:), u(1,:)) ; d = mod(diff(t) + pi, 2*pi) - pi ; r = abs(abs(sum(d)) - 2*pi) < 1e-3 && (all(d > 0) || all(d < 0)) ;
