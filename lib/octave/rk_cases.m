function c = rk_cases(n)
% every ranking of n samples with every number of samples not retrieved (rows of scores)
c = zeros(0,n) ;
if n == 0, c = zeros(1,0) ; return ; end
p = perms(1:n) ;
for k=1:size(p,1)
  for m=0:n
    s = p(k,:) ; s(s <= m) = -inf ;
    c(end+1,:) = s ;
  end
end
c = unique(c, 'rows') ;
