function s_pr(thorough)
for n=0:4
  C = rk_cases(n) ; L = oc_all(3,n) - 1 ;
  for a=1:size(C,1)
    for b=1:size(L,1)
      s = C(a,:) ; l = L(b,:) ;
      if mod(a,3) == 0, s(s == n) = inf ; end
      pr_one(l, s, mod(a+b,4), {}, [], [], false, false, false, []) ;
    end
  end
end
