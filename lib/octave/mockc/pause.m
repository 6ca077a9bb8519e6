function pause(varargin)
