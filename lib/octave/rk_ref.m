function r = rk_ref(labels, scores, np, nn, incl)
% counts of a ranking, one retrieved sample at a time
r.order = zeros(1,0) ; left = true(1,numel(scores)) ;
r.tp = 0 ; r.fp = 0 ;
while any(left)
  best = 0 ;
  for i=1:numel(scores)
    if left(i) && (best == 0 || scores(i) > scores(best)), best = i ; end
  end
  if scores(best) == -inf && ~incl, break ; end
  left(best) = false ; r.order(end+1) = best ;
  r.tp(end+1) = r.tp(end) + (labels(best) > 0) ;
  r.fp(end+1) = r.fp(end) + (labels(best) < 0) ;
end
r.p = 0 ; r.n = 0 ;
for i=1:numel(labels), if labels(i) > 0, r.p = r.p + 1 ; elseif labels(i) < 0, r.n = r.n + 1 ; end, end
if ~isempty(np), r.p = np ; end
if ~isempty(nn), r.n = nn ; end
