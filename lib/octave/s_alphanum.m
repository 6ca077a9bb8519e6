function s_alphanum(thorough)
S = {''} ; al = 'aB102' ;
for n=1:2
  A = oc_all(5,n) + 1 ;
  for k=1:size(A,1), S{end+1} = al(A(k,:)) ; end
end
S = [S {'a1B', 'a10B', 'a2B', 'B12', 'a100', 'a020', 'a99999999999', 'a100000000000', 'a9007199254740991', '4294967296', '4294967295'}] ;
N = numel(S) ; L = zeros(N,N) ;
for i=1:N, for j=1:N, L(i,j) = cmp(S{i}, S{j}) ; end, end
for i=1:N
  for j=1:N
    for k=[0 1:N]
      if k && ~thorough && mod(i+j+k,5), continue ; end
      ix = [i j] ; if k, ix = [i j k] ; end
      c = S(ix) ; if mod(i,2), c = c' ; end
      oc_case('vl_alphanum %s', c) ; oc_op(1) ;
      [t, perm] = vl_alphanum(c) ;
      ok = isequal(size(t), size(c)) && isequal(sort(perm(:))', 1:numel(ix)) && isequal(t, c(perm)) ;
      oc_check('perm', ok, 'the result is not a permutation of the strings') ; if ~ok, continue ; end
      q = ix(perm) ;
      for m=1:numel(q)-1
        oc_check('order', L(q(m), q(m+1)) <= 0, '''%s'' is placed before ''%s''', S{q(m)}, S{q(m+1)}) ;
      end
      oc_state(perm, ix) ;
    end
  end
end
oc_case('one string, none') ;
oc_check('perm', isequal(vl_alphanum({'a1'}), {'a1'}), 'one string') ;
function r = cmp(a, b)
% chunk by chunk: numbers by value, text by character, digits before letters
r = 0 ;
while ~isempty(a) && ~isempty(b)
  if isdigit(a(1)) && isdigit(b(1))
    i = find([~isdigit(a) true], 1) - 1 ; j = find([~isdigit(b) true], 1) - 1 ;
    x = str2double(a(1:i)) ; y = str2double(b(1:j)) ;
    if x ~= y, r = sign(x - y) ; return ; end
    a = a(i+1:end) ; b = b(j+1:end) ;
  else
    if a(1) ~= b(1), r = sign(a(1) - b(1)) ; return ; end
    a = a(2:end) ; b = b(2:end) ;
  end
end
r = ~isempty(a) - ~isempty(b) ;
