function h = ishold(varargin)
global HOLD
h = isequal(HOLD, true) ;
