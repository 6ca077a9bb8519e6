function s_roc(thorough)
for n=0:4+thorough
  C = rk_cases(n) ; L = oc_all(3,n) - 1 ;
  if n == 5, L = oc_all(2,n)*2 - 1 ; end
  for a=1:size(C,1)
    for b=1:size(L,1)
      s = C(a,:) ; l = L(b,:) ;
      if mod(a,3) == 0, s(s == n) = inf ; end
      roc_one(l, s, mod(a+b,4), {}, [], [], false, false) ;
    end
  end
end
