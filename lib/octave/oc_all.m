function a = oc_all(base, n)
% all n-digit numbers in the base, one per row
a = zeros(base^n, n) ; c = (0:base^n-1)' ;
for k=n:-1:1, a(:,k) = mod(c, base) ; c = floor(c/base) ; end
