function H = findobj(f, varargin)
global AXES
H = [] ; p = varargin(3:4) ;
for i=1:numel(AXES), if isequal(AXES{i}, p), H(end+1) = i ; end, end
