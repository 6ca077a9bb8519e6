function clf(varargin)
