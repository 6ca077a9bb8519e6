function varargout = xlim(varargin)
varargout = cell(1, nargout) ;
