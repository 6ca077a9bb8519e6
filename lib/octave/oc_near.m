function r = oc_near(a, b, tol)
% same size, NaN where the other has NaN, close elsewhere
if nargin < 3, tol = 1e-9 ; end
a = double(a) ; b = double(b) ;
r = isequal(size(a), size(b)) && isequal(isnan(a), isnan(b)) && all(a(:)==b(:) | isnan(a(:)) | abs(a(:)-b(:)) <= tol*(1+abs(b(:)))) ;
