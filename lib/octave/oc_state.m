function oc_state(varargin)
% records a fingerprint of what was observed
global OC
h = 0 ;
for k=1:numel(varargin)
  v = double(varargin{k}(:)') ; v(isnan(v)) = 1234.5 ; v(isinf(v)) = 4321.25 ;
  h = h*1.7 + k + numel(v)*0.37 + sum(v .* cos(1:numel(v))) ;
end
OC.nfp = OC.nfp + 1 ;
if OC.nfp > numel(OC.fp), OC.fp(2*end) = 0 ; end
OC.fp(OC.nfp) = round(h*1e6)/1e6 ;
