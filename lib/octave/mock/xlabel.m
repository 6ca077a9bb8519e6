function varargout = xlabel(varargin)
varargout = cell(1, nargout) ;
