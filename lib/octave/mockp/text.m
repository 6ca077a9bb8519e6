function h = text(varargin)
% stands in for the graphics function and records what is drawn
global DRAWN
DRAWN{end+1} = {'text', varargin{:}} ; h = numel(DRAWN)*100 ;
