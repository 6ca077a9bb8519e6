function set(h, varargin)
global PROPS
for i=1:2:numel(varargin), PROPS.(lower(varargin{i})) = varargin{i+1} ; end
