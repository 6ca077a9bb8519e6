function pr_one(l, s, shape, args, np, nn, incl, interp, stable, prior)
oc_case('vl_pr(%s, %s, %s)', l, s, args) ; oc_op(1) ;
r = rk_ref(l, s, np, nn, incl) ;
la = l ; sc = s ; if mod(shape,2), la = la' ; end, if shape >= 2, sc = sc' ; end
[rec, prec, info] = vl_pr(la, sc, args{:}) ;
m = numel(r.tp) ; R = zeros(1,m) ; P = zeros(1,m) ;
for k=1:m
  if r.p > 0, R(k) = r.tp(k) / r.p ; end
  t = r.tp(k) ; f = r.fp(k) ;
  if ~isempty(prior)
    if r.p > 0, t = t * prior / r.p ; else t = 0 ; end
    if r.n > 0, f = f * (1-prior) / r.n ; else f = 0 ; end
  end
  if t + f > 0, P(k) = t / (t + f) ; else P(k) = 1 ; end
end
if interp, for k=m-1:-1:1, P(k) = max(P(k), P(k+1)) ; end, end
ap = 0 ; auc = 0 ;
for k=2:m
  if r.tp(k) > r.tp(k-1), ap = ap + P(k) / r.p ; end
  auc = auc + (R(k) - R(k-1)) * (P(k) + P(k-1)) / 2 ;
end
if interp, auc = ap ; end
lo = 0 ; hi = 0 ;
for t=0:10
  x = P(R >= t/10 + 1e-9) ; y = P(R >= t/10 - 1e-9) ;
  if t == 0, x = y ; end
  if t/10 == round(t/10*10)/10 && any(abs([0 .2 .4 .5 .6 .8 1] - t/10) < 1e-12), x = y ; end  % these levels are met exactly
  lo = lo + max([0 x]) / 11 ; hi = hi + max([0 y]) / 11 ;
end
if stable
  RR = NaN(1, numel(l)) ; PP = RR ;
  for k=2:m, RR(r.order(k-1)) = R(k) ; PP(r.order(k-1)) = P(k) ; end
  key = 'stable' ;
else
  RR = R ; PP = P ; key = 'curve' ;
end
oc_check(key, oc_near(rec, RR, 1e-7) && oc_near(prec, PP, 1e-7), 'recall %s precision %s, expected %s and %s', mat2str(rec,6), mat2str(prec,6), mat2str(RR,6), mat2str(PP,6)) ;
if r.p > 0
  oc_check('ap', abs(info.ap - ap) < 1e-7, 'ap %g, expected %g', info.ap, ap) ;
  oc_check('auc', abs(info.auc - auc) < 1e-7, 'auc %g, expected %g', info.auc, auc) ;
end
oc_check('ap11', info.ap_interp_11 > lo - 1e-7 && info.ap_interp_11 < hi + 1e-7 && isequal(info.auc_pa08, info.ap_interp_11), 'ap_interp_11 %g, expected %g to %g', info.ap_interp_11, lo, hi) ;
oc_state(rec, prec, info.auc) ;
