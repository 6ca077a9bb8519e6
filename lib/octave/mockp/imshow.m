function h = imshow(varargin)
% stands in for the graphics function and records what is drawn
global DRAWN
DRAWN{end+1} = {'imshow', varargin{:}} ; h = numel(DRAWN)*100 ;
