function m = colormap(varargin)
% stands in for the graphics function
m = repmat((0:63)'/63, 1, 3) ;
