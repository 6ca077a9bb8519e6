function I = imread(file, varargin)
% stands in for the reader of images
global IMAGE FORMAT
if ~strcmp(file, 'a file'), error('another file is read') ; end
I = IMAGE ; FORMAT = varargin ;
