function set(h, varargin)
global PROPS
for i=1:2:numel(varargin), p = lower(varargin{i}) ; PROPS.(sprintf('%s%d', p, h)) = varargin{i+1} ;
  if strcmp(p, 'papertype'), switch varargin{i+1}, case 'usletter', s = [8.5 11] ; case 'a4', s = [8 12] ; case 'square', s = [5 5] ; end, PROPS.(sprintf('papersize%d', h)) = s ; end
end
