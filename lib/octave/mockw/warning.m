function warning(varargin)
% counts the warnings in place of the builtin
global WARNED
WARNED = WARNED + 1 ;
