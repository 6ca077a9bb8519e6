function s_argparse(thorough)
opts.a = 1 ; opts.b = [] ; opts.s = struct('p', 1, 't', struct('u', 1)) ; opts.e = struct() ;
A = {{'a', 7}, {'A', 8}, {'B', {9}}, {'b', 'x'}, {'s', struct('p', 2)}, {'S.p', 3}, {'s.t.U', 4}, {'s.t', struct('u', 5)}, {'s', struct('zz', 6)}, {'s.t.zz', 6}, ...
     {'s', struct('p', 11, 'zz', {{1 2}})}, {'z', 1}, {'z.w', 2}, {'z', struct('w', 1, 'y', {{}})}, {struct('a', 3)}, {struct('a', 3, 'z', {{4}})}, ...
     {struct('s', struct('p', 5, 'zz', 6))}, {struct('s', struct('t', struct('u', 12)), 'y', 13)}, {struct()}, {'e', struct('k', 1)}, {'s', 3}, {5, 1}, {'a'}} ;
N = numel(A) ;
for n=0:2+thorough
  Q = oc_all(N, n) + 1 ;
  for k=1:size(Q,1)
    at = A(Q(k,:)) ; args = cell(1,0) ; for i=1:n, args = [args at{i}] ; end
    if sum(Q(k,:) == 20) > 1, continue ; end       % a second value of a struct that is empty by default: not specified
    for md=0:3
      flags = {} ; if mod(md,2), flags{end+1} = 'merge' ; end, if md >= 2, flags{end+1} = 'NonRecursive' ; end
      for two=0:1
        if n == 3 && mod(k, 8) ~= md + 4*two, continue ; end
        oc_case('vl_argparse(opts, %s, %s) %d outputs', args, flags, 1+two) ; oc_op(1) ;
        [e, eo, er] = ref(opts, args, md < 2, mod(md,2), two) ;
        got = false ; o = [] ; r = {} ; m = '' ;
        try
          if two, [o, r] = vl_argparse(opts, args, flags{:}) ; else o = vl_argparse(opts, args, flags{:}) ; end
        catch x
          got = true ; m = x.message ;
        end
        oc_check('error', got == e, 'error %d (%s), expected %d', got, m, e) ;
        if got || e, continue ; end
        oc_check('opts', isequal(o, eo), 'options %s, expected %s', disp(o), disp(eo)) ;
        if two
          ok = iscell(r) && mod(numel(r), 2) == 0 && (isempty(r) || iscellstr(r(1:2:end))) ;
          oc_check('rest-form', ok, 'what is left is not a list of pairs') ;
          if ok, oc_check('rest', isequal(flat(r), flat(er)), 'left %s, expected %s', disp(flat(r)), disp(flat(er))) ; end
        end
        oc_state(k, md, two) ;
      end
    end
  end
end
function [e, o, rest] = ref(o, args, rec, merge, two)
e = false ; rest = cell(1,0) ; start = o ; i = 1 ;
while i <= numel(args)
  if rec && isstruct(args{i})
    f = fieldnames(args{i})' ; l = cell(1,0) ; for j=1:numel(f), l = [l {f{j}, args{i}.(f{j})}] ; end
    [e, o, r] = ref(o, l, rec, merge, two) ; if e, return ; end
    rest = [rest r] ; i = i + 1 ; continue ;
  end
  if ~ischar(args{i}) || i == numel(args), e = true ; return ; end
  name = args{i} ; v = args{i+1} ; i = i + 2 ;
  d = find(name == '.', 1) ; path = name ;
  if ~isempty(d)
    q = name(d+1:end) ; name = name(1:d-1) ;
    p = strsplit(q, '.') ; for j=numel(p):-1:1, v = struct(p{j}, {v}) ; end
  end
  f = fieldnames(o) ; fs = fieldnames(start) ; h = find(strcmpi(name, fs)) ;
  if isempty(h)
    if merge
      if isfield(o, name) && isstruct(o.(name)) && isstruct(v) && rec, [~, o.(name)] = ref(o.(name), {v}, true, true, false) ;
      elseif rec && isfield(o, name) && ~isstruct(o.(name)) && isstruct(v), e = true ; return ;
      else o.(name) = v ; end
    elseif two, rest = [rest {name, v}] ;
    else e = true ; return ; end
    continue ;
  end
  n = fs{h} ;
  if rec && isstruct(start.(n)) && ~isempty(fieldnames(start.(n)))
    if ~isstruct(v), e = true ; return ; end
    [e, o.(n), r] = ref(o.(n), {v}, rec, merge, two) ; if e, return ; end
    if ~isempty(r)
      s = struct() ; for j=1:2:numel(r), s.(r{j}) = r{j+1} ; end
      rest = [rest {n, s}] ;
    end
  elseif rec && isstruct(v) && ~isstruct(start.(n))
    e = true ; return ;
  else
    o.(n) = v ;
  end
end
function l = flat(r)
% the pairs as a list of lower-case paths of leaves and values
l = cell(1,0) ;
for i=1:2:numel(r)
  if isstruct(r{i+1})
    f = fieldnames(r{i+1}) ;
    for j=1:numel(f), l = [l flat({[lower(r{i}) '.' f{j}], r{i+1}.(f{j})})] ; end
  else
    l = [l {lower(r{i}), r{i+1}}] ;
  end
end
