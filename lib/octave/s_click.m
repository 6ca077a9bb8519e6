function s_click(thorough)
% every history of clicks and keys: the points chosen; the figure is left as it was
global EVENTS MARKS PROPS HOLD
warning('off', 'all') ; addpath(fullfile(fileparts(mfilename('fullpath')), 'mockc')) ;
E = {[], [1;2], [4;-3], [1.4;2], [2.6;0]} ; V = [1 4 2 ; 2 -3 0] ; L = 3 + thorough ;
for len=0:L, A = oc_all(5, len) ; for a=1:size(A,1), for fn=1:3, for N=0:3, for mk=0:2, for hd=0:1
  ev = E(A(a,:)+1) ; n = N ; if N == 0, n = 1 ; elseif N == 3, n = inf ; end
  if fn == 3, if N || mk, continue ; end, n = 2 ; end
  if mk && ~N, continue ; end, if mk == 2 && mod(a,2), continue ; end
  % the events that are used: up to n points or the first key
  k = find(cellfun(@isempty, ev), 1) ; m = n ; if ~isempty(k), m = min(m, k - 1) ; end
  if isempty(k) && n > len, continue ; end % would wait for ever
  P = [ev{1:m}] ; used = m + (m < n) ;
  o = {} ; if N, o = {n} ; end, if mk == 1, o = [o {'PlotMarker', true}] ; elseif mk == 2, o = [o {'plotmarker', 0}] ; end
  EVENTS = ev ; MARKS = zeros(3,0) ; HOLD = logical(hd) ; PROPS = struct('windowbuttondownfcn', 'before', 'keypressfcn', 'other', 'pointer', 'arrow') ; b = PROPS ;
  nm = {'vl_click','vl_clickpoint','vl_clicksegment'} ; oc_case('%s, options %s, events %s', nm{fn}, o, ev) ; oc_op(1 + used) ;
  switch fn
    case 1, Q = vl_click(o{:}) ; oc_check('points', isequal(Q, P) || (isempty(Q) && isempty(P)), 'points %s, expected %s', mat2str(Q), mat2str(P)) ;
    case 2, Q = vl_clickpoint(V, o{:}) ; S = [] ; for i=1:m, [x, S(i)] = min(sum((V - P(:,i)).^2, 1)) ; end, oc_check('selected', isequal(Q, S) || (isempty(Q) && isempty(S)), 'points %s, expected %s', mat2str(Q), mat2str(S)) ;
    case 3, [p, q] = vl_clicksegment() ; if m == 2, oc_check('segment', isequal([p q], P), 'segment %s', mat2str([p q])) ; else oc_check('segment', isempty(p) && isempty(q), 'a segment after an abort') ; end
  end
  oc_check('events', numel(EVENTS) == len - used, '%d events are left', numel(EVENTS)) ;
  oc_check('hold', HOLD == hd, 'the state of hold changes') ; oc_check('figure', strcmp(PROPS.windowbuttondownfcn, 'before') && strcmp(PROPS.keypressfcn, 'other') && strcmp(PROPS.pointer, 'arrow'), 'the handlers of the figure are not restored') ;
  oc_check('deleted', ~any(MARKS(3,:)), 'markers are left behind') ; e = 0 ; if mk == 1, e = m ; elseif fn == 3, e = m > 0 ; end, oc_check('marked', size(MARKS,2) == e, '%d markers', size(MARKS,2)) ;
  oc_state(fn, P) ;
end, end, end, end, end, end
oc_case('wrong arguments') ; oc_check('args', oc_err(@() vl_click(1, 'nix', 2)) && oc_err(@() vl_clickpoint(V, 1, 'nix', 2)) && oc_err(@() vl_clickpoint(V')), 'a wrong argument is accepted') ;
