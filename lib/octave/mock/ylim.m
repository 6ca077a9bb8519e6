function varargout = ylim(varargin)
varargout = cell(1, nargout) ;
