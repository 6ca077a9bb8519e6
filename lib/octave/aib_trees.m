function T = aib_trees(M, z)
% every merge tree over M values of which those in the mask z are null, as vl_aib returns them
act = find(~z) ; T = {} ;
T = grow(zeros(1,2*M-1), act, M+1, T) ;
function T = grow(p, act, next, T)
if numel(act) == 0, T{end+1} = p ; return ; end
if numel(act) == 1, p(act) = 1 ; T{end+1} = p ; return ; end
for i=1:numel(act)
  for j=i+1:numel(act)
    q = p ; q(act([i j])) = next ;
    T = grow(q, [act([1:i-1 i+1:j-1 j+1:end]) next], next+1, T) ;
  end
end
