function s_linespec(thorough)
col = {'','b','g','r','c','m','y','k','w'} ; mk = {'','.','o','x','+','*','s','d','v','^','<','>','p','h'} ; ln = {'','-',':','-.','--'} ;
for a=1:numel(col), for b=1:numel(mk), for c=1:numel(ln)
  s = [col{a} mk{b} ln{c}] ; if isempty(s), continue ; end
  oc_case('vl_linespec2prop(''%s'')', s) ; oc_op(1) ;
  p = vl_linespec2prop(s) ; e = {} ;
  if a > 1, e(end+1:end+2) = {'Color', col{a}} ; end, if b > 1, e(end+1:end+2) = {'Marker', mk{b}} ; end, if c > 1, e(end+1:end+2) = {'LineStyle', ln{c}} ; end
  ok = mod(numel(p),2) == 0 ;
  if ok, ok = isequal(sortp(p), sortp(e)) ; end
  oc_check('spec', ok, 'result %s', disp(p)) ; oc_state(double(s)) ;
end, end, end
for s = {'z', 'linewidth', 'rz', 'ro!', 'Color', 'bb', 'marker'}
  oc_case('vl_linespec2prop(''%s'')', s{1}) ; oc_op(1) ;
  oc_check('other', isequal(vl_linespec2prop(s{1}), s), 'a string that is no line specification is changed') ;
end
oc_check('arg', oc_err(@() vl_linespec2prop(3)), 'a number is accepted') ;
function q = sortp(p)
[~, k] = sort(p(1:2:end)) ; q = [p(2*k-1) ; p(2*k)] ;
