function [failed, msg] = oc_err(fn, varargin)
% whether the call ends in an error raised by the function
failed = false ; msg = '' ;
try
  fn(varargin{:}) ;
catch e
  failed = true ; msg = e.message ;
end
