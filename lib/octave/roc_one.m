function roc_one(l, s, shape, args, np, nn, incl, stable)
oc_case('vl_roc(%s, %s, %s)', l, s, args) ; oc_op(2) ;
r = rk_ref(l, s, np, nn, incl) ;
la = l ; sc = s ; if mod(shape,2), la = la' ; end, if shape >= 2, sc = sc' ; end
[tpr, tnr, info] = vl_roc(la, sc, args{:}) ;
[miss, fa] = vl_det(la, sc, args{:}) ;
m = numel(r.tp) ; T = zeros(1,m) ; F = zeros(1,m) ;
for k=1:m
  if r.p > 0, T(k) = r.tp(k) / r.p ; end
  if r.n > 0, F(k) = r.fp(k) / r.n ; end
end
auc = 0 ; eer = NaN ;
for k=2:m
  auc = auc + T(k) * (F(k) - F(k-1)) ;
  if F(k) == F(k-1)
    if T(k-1) <= 1-F(k) && T(k) >= 1-F(k), eer = F(k) ; end
  else
    if F(k-1) <= 1-T(k) && F(k) >= 1-T(k), eer = 1 - T(k) ; end
  end
end
if stable
  TT = NaN(1, numel(l)) ; NN = TT ;
  for k=2:m, TT(r.order(k-1)) = T(k) ; NN(r.order(k-1)) = 1 - F(k) ; end
  key = 'stable' ;
else
  TT = T ; NN = 1 - F ; key = 'curve' ;
end
oc_check(key, oc_near(tpr, TT) && oc_near(tnr, NN), 'tpr %s tnr %s, expected %s and %s', mat2str(tpr,6), mat2str(tnr,6), mat2str(TT,6), mat2str(NN,6)) ;
oc_check('det', oc_near(miss, 1 - TT) && oc_near(fa, 1 - NN), 'vl_det: miss %s false alarm %s', mat2str(miss,6), mat2str(fa,6)) ;
oc_check('auc', abs(info.auc - auc) < 1e-9, 'auc %g, expected %g', info.auc, auc) ;
oc_check('eer', oc_near(info.eer, eer), 'eer %g, expected %g', info.eer, eer) ;
if ~isnan(eer) && r.p > 0 && r.n > 0
  f = sum(l < 0 & s >= info.eerThreshold) / r.n ; t = sum(l > 0 & s >= info.eerThreshold) / r.p ;
  oc_check('threshold', abs(f - eer) < 1e-9 || abs(1-t - eer) < 1e-9, 'threshold %g gives error rates %g and %g, eer %g', info.eerThreshold, f, 1-t, eer) ;
end
oc_state(tpr, tnr, info.auc, info.eer) ;
