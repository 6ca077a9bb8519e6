function s_pr_opts(thorough)
for n=0:3+thorough
  C = rk_cases(n) ; L = oc_all(3,n) - 1 ;
  for a=1:size(C,1)
    for b=1:size(L,1)
      s = C(a,:) ; l = L(b,:) ; p = sum(l > 0) ; q = sum(l < 0) ;
      for o = 0:2*4*2*2*2*3-1
        if n >= 3 && mod(o, 13) ~= mod(a+b, 13), continue ; end   % every option set occurs with every thirteenth case
        d = o ; in = mod(d,2) ; d = floor(d/2) ; kp = mod(d,4) ; d = floor(d/4) ; kn = mod(d,2) ; d = floor(d/2) ; ii = mod(d,2) ; d = floor(d/2) ; st = mod(d,2) ; d = floor(d/2) ; pri = mod(d,3) ;
        if ii && sum(s == -inf) > 1, continue ; end   % the order of samples not retrieved is not specified
        np = [] ; nn = [] ; prior = [] ; args = {} ;
        if kp, np = [p p+1 10](kp) ; args(end+1:end+2) = {'NumPositives', np} ; end
        if kn, nn = q+2 ; args(end+1:end+2) = {'NumNegatives', nn} ; end
        if ii, args(end+1:end+2) = {'IncludeInf', true} ; end
        if in, args(end+1:end+2) = {'Interpolate', true} ; end
        if st, args = [{'Stable', true}, args] ; end
        if pri, prior = [.1 .5](pri) ; args(end+1:end+2) = {'NormalizePrior', prior} ; end
        pr_one(l, s, 0, args, np, nn, ii, in, st, prior) ;
      end
    end
  end
end
