function oc_case(fmt, varargin)
% begins one execution, described by the format and values
global OC
OC.exec = OC.exec + 1 ;
OC.desc = {fmt, varargin} ;
if numel(OC.samples) < 2 && (OC.exec == 1 || OC.exec == 50), OC.samples{end+1} = oc_desc() ; end
