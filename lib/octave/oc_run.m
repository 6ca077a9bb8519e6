function oc_run(name, fn, thorough)
% runs one suite and prints its statistics
global OC
OC = struct('exec',0,'inner',0,'ops',0,'fp',zeros(1,0),'nfp',0,'keys',{{}},'counts',[],'msgs',{{}},'samples',{{}},'desc','') ;
OC.fp = zeros(1,4096) ;
warning('off','all') ; more off ;
try
  feval(fn, thorough) ;
catch e
  w = '' ; for k=1:min(4,numel(e.stack)), w = [w sprintf(' %s:%d', e.stack(k).name, e.stack(k).line)] ; end
  oc_check('error', false, '%s at%s', e.message, w) ;
end
for k=1:numel(OC.keys)
  printf('OCFAIL %s %d %s\n', OC.keys{k}, OC.counts(k), strrep(OC.msgs{k}, "\n", ' ')) ;
end
for k=1:numel(OC.samples), printf('OCSAMPLE %s\n', strrep(OC.samples{k}, "\n", ' ')) ; end
printf('OCSTAT %d %d %d %d\n', OC.exec, OC.inner, numel(unique(OC.fp(1:OC.nfp))), OC.ops) ;
