function h = line(x, y, varargin)
% stands in for the graphics function and records what is drawn
global DRAWN
DRAWN{end+1} = {'line', x, y, varargin{:}} ; h = numel(DRAWN) ;
