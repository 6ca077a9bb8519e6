function h = title(varargin)
% stands in for the graphics function and records what is drawn
global DRAWN
DRAWN{end+1} = {'title', varargin{:}} ; h = numel(DRAWN)*100 ;
