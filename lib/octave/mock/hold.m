function varargout = hold(varargin)
varargout = cell(1, nargout) ;
