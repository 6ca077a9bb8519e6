function s_override(thorough)
global WARNED
addpath(fullfile(fileparts(mfilename('fullpath')), 'mockw')) ;
s2 = struct('c', {1, 2}) ;
C = {[], 1, struct('c', 1), struct('c', 1, 'd', 2), struct('c', struct('e', 1)), s2} ;
U = {[], 9, struct('c', 9), struct('C', 9), struct('d', 9), struct('c', struct('f', 9)), struct('c', struct('E', 8)), struct('c', {7, 8}), struct('n', {7, 8})} ;
for a=1:numel(C)
  for b=1:2+2*thorough
    cfg = struct() ; if a > 1, cfg.a = C{a} ; end, if b > 1, cfg.b = C{b} ; end
    for nm=0:1
      for u=1:numel(U)
        for w=1:3
          upd = struct() ; if u > 1, if nm, upd.A = U{u} ; else upd.a = U{u} ; end, end, if w > 1, upd.b = U{w} ; end
          for o=0:15
            opt = {} ; if mod(o,2), opt{end+1} = 'Warn' ; end, if mod(floor(o/2),2), opt{end+1} = 'skip' ; end
            if mod(floor(o/4),2), opt{end+1} = 'CaseI' ; end, if o >= 8, opt{end+1} = 'err' ; end
            oc_case('vl_override(%s, %s, %s)', cfg, upd, opt) ; oc_op(1) ;
            [e, r, wn] = ref(cfg, upd, mod(floor(o/2),2), mod(floor(o/4),2), o >= 8) ;
            WARNED = 0 ; got = false ; g = [] ;
            try
              g = vl_override(cfg, upd, opt{:}) ;
            catch x
              got = true ;
            end
            oc_check('error', got == e, 'error %d, expected %d', got, e) ;
            if ~got && ~e
              oc_check('result', isequal(g, r), 'result %s, expected %s', disp(g), disp(r)) ;
              oc_check('warn', WARNED == wn * mod(o,2), '%d warnings, expected %d', WARNED, wn * mod(o,2)) ;
            end
            oc_state(a,b,nm,u,w,o) ;
          end
        end
      end
    end
  end
end
oc_case('bad option') ; oc_check('badopt', oc_err(@() vl_override(struct(), struct(), 'sideways')), 'no error') ;
oc_check('plain', isequal(vl_override(1, 2), 2) && isequal(vl_override(struct('a',1), 3), 3) && isequal(vl_override(3, struct('a',1)), struct('a',1)), 'a value that is no structure is replaced') ;
rmpath(fullfile(fileparts(mfilename('fullpath')), 'mockw')) ;
function [e, c, w] = ref(c, u, skip, casei, err)
e = false ; w = 0 ;
if ~isstruct(c), c = u ; return ; end
if ~isstruct(u) || numel(u) ~= numel(c), c = u ; w = 1 ; return ; end   % a structure is overwritten
f = fieldnames(u) ; known = fieldnames(c) ;
for i=1:numel(u)
  for j=1:numel(f)
    if casei, h = find(strcmpi(f{j}, fieldnames(c))) ; else h = find(strcmp(f{j}, fieldnames(c))) ; end
    if isempty(h) || (i > 1 && ~any(strcmpi(f{j}, known)))
      if isempty(h) || i == 1, w = w + 1 ; end
      if err && isempty(h), e = true ; return ; end
      if ~skip, c(i).(f{j}) = u(i).(f{j}) ; end
    else
      n = fieldnames(c){h(end)} ;
      [e, c(i).(n), x] = ref(c(i).(n), u(i).(f{j}), skip, casei, err) ; w = w + x ; if e, return ; end
    end
  end
end
