function s_tpfp(thorough)
% vl_tpfp on every small ranking
for n=0:4, L = oc_all(3, n) - 1 ; X = oc_all(4, n) ; V = [-inf 1 2 inf] ; for a=1:size(L,1), for b=1:size(X,1)
  if n == 4 && ~thorough && mod(a + b, 3), continue ; end
  l = L(a,:) ; x = V(X(b,:)+1) ; for o=1:4
    if n >= 3 && mod(a + b + o, 3), continue ; end
    opt = {} ; inc = o == 2 ; if inc, opt = {'IncludeInf', true} ; elseif o == 3, opt = {'NumPositives', 7, 'NumNegatives', 9} ; elseif o == 4, opt = {'Other', 5, 'numNegatives', 6} ; end
    oc_case('vl_tpfp(%s, %s, %s)', l, x, opt) ; oc_op(1) ; if mod(a,2), [tp, fp, p, m, perm, rest] = vl_tpfp(l, x, opt{:}) ; else [tp, fp, p, m, perm, rest] = vl_tpfp(l', x', opt{:}) ; end
    k = n ; if ~inc, k = sum(x > -inf) ; end, e = [sum(l > 0) sum(l < 0)] ; if o == 3, e = [7 9] ; elseif o == 4, e(2) = 6 ; end
    oc_check('counts', isequal([p m], e), '%d positives and %d negatives', p, m) ; oc_check('perm', numel(perm) == k && isequal(numel(unique(perm)), k) && all(diff(x(perm)) <= 0 | isnan(diff(x(perm)))) && (inc || all(x(perm) > -inf)), 'permutation %s', mat2str(perm)) ;
    if numel(perm) == k, lp = l(perm) ; oc_check('tp', isequal(tp(:)', [0 cumsum(lp(:)' > 0)]) && isequal(fp(:)', [0 cumsum(lp(:)' < 0)]), 'counts %s and %s', mat2str(tp), mat2str(fp)) ; end
    oc_check('rest', (o == 4 && isequal(rest, {'Other', 5})) || (o ~= 4 && isempty(rest)), 'options left over') ; oc_state(tp, fp, p, m) ;
  end
end, end, end
