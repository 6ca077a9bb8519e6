function s_roc_opts(thorough)
for n=0:3+thorough
  C = rk_cases(n) ; L = oc_all(3,n) - 1 ;
  for a=1:size(C,1)
    for b=1:size(L,1)
      s = C(a,:) ; l = L(b,:) ; p = sum(l > 0) ; q = sum(l < 0) ;
      for o = 1:4*3*2*2-1
        if n >= 3 && mod(o, 5) ~= mod(a+b, 5), continue ; end
        d = o ; kp = mod(d,4) ; d = floor(d/4) ; kn = mod(d,3) ; d = floor(d/3) ; ii = mod(d,2) ; d = floor(d/2) ; st = mod(d,2) ;
        if ii && sum(s == -inf) > 1, continue ; end   % the order of samples not retrieved is not specified
        np = [] ; nn = [] ; args = {} ;
        if kp, np = [p p+1 7](kp) ; args(end+1:end+2) = {'NumPositives', np} ; end
        if kn, nn = [q q+2](kn) ; args(end+1:end+2) = {'numnegatives', nn} ; end
        if ii, args(end+1:end+2) = {'IncludeInf', true} ; end
        if st, args = [{'stable', true}, args] ; end
        roc_one(l, s, 0, args, np, nn, ii, st) ;
      end
    end
  end
end
