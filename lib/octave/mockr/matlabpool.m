function n = matlabpool(varargin)
n = 0 ;
