function v = get(h, p)
% the properties of objects that are not there
global PROPS DRAWN
k = sprintf('%s%d', lower(p), h) ; if isfield(PROPS, k), v = PROPS.(k) ; else v = {'color of', h} ; end
