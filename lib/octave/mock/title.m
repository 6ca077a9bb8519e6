function varargout = title(varargin)
varargout = cell(1, nargout) ;
