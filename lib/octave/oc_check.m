function oc_check(key, cond, fmt, varargin)
% one comparison; with false, records a failure under the key
global OC
OC.inner = OC.inner + 1 ;
if isempty(cond) || ~all(cond(:))
  k = find(strcmp(key, OC.keys)) ;
  if isempty(k)
    k = numel(OC.keys) + 1 ; OC.keys{k} = key ; OC.counts(k) = 0 ;
    OC.msgs{k} = [sprintf(fmt, varargin{:}) ' [' oc_desc() ']'] ;
  end
  OC.counts(k) = OC.counts(k) + 1 ;
end
