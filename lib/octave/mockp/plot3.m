function h = plot3(varargin)
% stands in for the graphics function and records what is drawn
global DRAWN
DRAWN{end+1} = {'plot3', varargin{:}} ; h = numel(DRAWN) ;
