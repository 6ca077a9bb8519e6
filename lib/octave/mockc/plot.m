function h = plot(x, y, varargin)
% stands in for the graphics function: a marker that is there until deleted
global MARKS
MARKS(:,end+1) = [x;y;1] ; h = size(MARKS,2) ;
