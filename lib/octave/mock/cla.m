function varargout = cla(varargin)
varargout = cell(1, nargout) ;
