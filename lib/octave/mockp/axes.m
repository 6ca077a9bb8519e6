function H = axes(varargin)
global AXES CURRENT
if isnumeric(varargin{1}), CURRENT = varargin{1} ; return ; end
AXES{end+1} = varargin(end-1:end) ; H = numel(AXES) ; CURRENT = H ;
