function J = im2single(I)
% stands in for the function of the image package
J = single(im2double(I)) ;
