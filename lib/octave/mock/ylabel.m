function varargout = ylabel(varargin)
varargout = cell(1, nargout) ;
