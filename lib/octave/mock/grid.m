function varargout = grid(varargin)
varargout = cell(1, nargout) ;
