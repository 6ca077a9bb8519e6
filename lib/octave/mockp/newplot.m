function h = newplot(varargin)
h = 1 ;
