function J = imresize(I, s)
% stands in for the function of the image package: nearest neighbour
n = max(1, round(size(I(:,:,1)) * s)) ; J = I(min(size(I,1), ceil((1:n(1))/s)), min(size(I,2), ceil((1:n(2))/s)), :) ;
if s == 1, J = I ; end
