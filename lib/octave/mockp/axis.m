function varargout = axis(varargin)
varargout = cell(1, nargout) ;
