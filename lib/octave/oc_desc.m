function s = oc_desc()
global OC
if isempty(OC.desc), s = '' ; return ; end
v = OC.desc{2} ;
for k=1:numel(v)
  if iscell(v{k}) || isstruct(v{k}), v{k} = strtrim(regexprep(disp(v{k}), '\s+', ' ')) ;
  elseif ~ischar(v{k}), if numel(v{k}) > 60, v{k} = ['[' num2str(size(v{k})) ' array]'] ; else v{k} = mat2str(v{k}(:,:), 8) ; end ; end
end
s = sprintf(strrep(strrep(OC.desc{1}, '%d', '%s'), '%g', '%s'), v{:}) ;
