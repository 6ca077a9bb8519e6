function s_ubcread(thorough)
% vl_ubcread on files of every small size, cut before every number
for ox=0:1, for n=0:3, for len=[128 0 1 3 8 2]
  if ~ox && len ~= 128, continue ; end % the file format of Lowe has descriptors of 128 numbers
  if ox && len == 128 && n > 1, continue ; end
  if ox, fl = 5 ; else fl = 4 ; end
  for val=1:3
    P = zeros(fl, n) ; for k=1:n, for i=1:fl, P(i,k) = mod(i*7 + k*13*val, 31) + val/4 ; end, end
    if ~ox && n, P(4,:) = (P(4,:) - 15)/5 ; end
    if ox && n, P(3,:) = P(3,:) + 40 ; P(5,:) = P(5,:) + 50 ; end
    L = zeros(len, n) ; for k=1:n, L(:,k) = mod((1:len)'*(2*val+1) + 17*k, 256) ; end
    t = {} ; if ox, t = {len, n} ; else t = {n, len} ; end
    for k=1:n, t = [t num2cell(P(:,k)') num2cell(L(:,k)')] ; end
    seps = {' ', "\n", "\r\n\t "} ; cuts = [0:min(12,numel(t)) max(0,numel(t)-12):numel(t)] ;
    for c=unique(cuts)
      oc_case('format %d, %d frames, descriptors of %d, values %d, the first %d of %d numbers', ox, n, len, val, c, numel(t)) ; oc_op(1) ;
      g = fopen('k', 'w') ; for i=1:c, fprintf(g, '%.10g%s', t{i}, seps{1 + mod(i + val, 3)}) ; end, fclose(g) ;
      a = {} ; if ox, a = {'format', 'oxford'} ; elseif val == 2, a = {'Format', 'ubc'} ; end
      nf = numel(fopen('all')) ; failed = false ;
      try, [f, d] = vl_ubcread('k', a{:}) ; catch, failed = true ; end
      oc_check('open', numel(fopen('all')) == nf, 'the file is left open') ; fclose('all') ;
      if c < numel(t), oc_check('cut', failed, 'a cut file is accepted') ; continue ; end
      oc_check('reads', ~failed, 'the file is refused') ; if failed, continue ; end
      if ox
        e = zeros(5, n) ; for k=1:n, S = inv([P(3,k) P(4,k) ; P(4,k) P(5,k)]) ; e(:,k) = [P(1,k)+1 ; P(2,k)+1 ; S(1,1) ; S(1,2) ; S(2,2)] ; end, h = uint8(L) ;
      else
        e = zeros(4, n) ; h = uint8(L) ;
        for k=1:n, e(:,k) = [P(2,k)+1 ; P(1,k)+1 ; P(3,k) ; -P(4,k)] ; for q=0:15, for b=0:7, h(8*q + mod(8-b,8) + 1, k) = L(8*q + b + 1, k) ; end, end, end
      end
      oc_check('frames', oc_near(f, e), 'frames %s, expected %s', mat2str(f,5), mat2str(e,5)) ;
      oc_check('descriptors', isa(d,'uint8') && isequal(size(d), size(h)) && isequal(d, h), 'descriptors') ;
      oc_state(f, double(d)) ;
    end
  end
end, end, end
bad = {'', 'x', '1', '1 y', '-1 128', 'a b', '1 128 q'} ;
for k=1:numel(bad)
  g = fopen('k', 'w') ; fputs(g, bad{k}) ; fclose(g) ; oc_case('file "%s"', bad{k}) ; oc_op(1) ;
  if k ~= 5, oc_check('bad', oc_err(@() vl_ubcread('k')), 'the file is accepted') ; end
  fclose('all') ;
end
oc_check('missing', oc_err(@() vl_ubcread('none')), 'a missing file is accepted') ;
oc_check('format', oc_err(@() vl_ubcread('k', 'format', 'other')), 'an unknown format is accepted') ; fclose('all') ;
