function varargout = legend(varargin)
varargout = cell(1, nargout) ;
