function s_ties(thorough)
V = [-inf 1 2 3] ;
for n=1:4+thorough
  C = oc_all(4,n) + 1 ; L = oc_all(2,n)*2 - 1 ;
  for a=1:size(C,1)
    s = V(C(a,:)) ;
    for b=1:size(L,1)
      l = L(b,:) ; if n == 5 && mod(a+b,4), continue ; end
      oc_case('vl_roc / vl_pr(%s, %s)', l, s) ; oc_op(3) ;
      [T,N] = vl_roc(l, s) ; [R,P] = vl_pr(l, s) ; [Ts,Ns] = vl_roc(l, s, 'stable', true) ;
      p = sum(l > 0) ; q = sum(l < 0) ; u = sort(unique(s(s > -inf)), 'descend') ;
      ok = numel(T) == 1 + sum(s > -inf) && numel(N) == numel(T) && numel(R) == numel(T) && numel(P) == numel(T) ;
      oc_check('size', ok, '%d values', numel(T)) ; if ~ok, continue ; end
      oc_check('monotone', all(diff(T) >= 0) && all(diff(N) <= 0) && T(1) == 0 && N(1) == 1, 'tpr %s tnr %s', mat2str(T), mat2str(N)) ;
      tp = T * p ; fp = (1 - N) * q ;
      if p > 0 && q > 0, oc_check('step', all(abs(diff(tp + fp) - 1) < 1e-9), 'tp %s fp %s', mat2str(tp), mat2str(fp)) ; end
      for x = u
        k = 1 + sum(s >= x) ;
        t = sum(l > 0 & s >= x) ; f = sum(l < 0 & s >= x) ;
        oc_check('block', abs(T(k) - t/max(p,1)) < 1e-9 && abs(N(k) - (1 - f/max(q,1))) < 1e-9 && abs(R(k) - T(k)) < 1e-9 && abs(P(k) - t/(t+f)) < 1e-7, 'after the scores >= %g: tpr %g tnr %g precision %g', x, T(k), N(k), P(k)) ;
      end
      oc_check('stable', isequal(size(Ts), size(s)) && isequal(isnan(Ts), s == -inf) && isequal(sort(Ts(~isnan(Ts)))(:), sort(T(2:end))(:)), 'stable tpr %s', mat2str(Ts)) ;
      oc_state(T, N, P) ;
    end
  end
end
