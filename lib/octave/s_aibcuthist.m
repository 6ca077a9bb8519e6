function s_aibcuthist(thorough)
% every map of up to 4 nodes into 0..3, every sequence of up to 3 data
modes = {{}, {'Nulls','drop'}, {'nulls','append'}, {'Nulls','First'}} ;
for N=1:3+thorough
  A = oc_all(4,N) ;
  for a=1:size(A,1)
    map = A(a,:) ; if max(map) == 0, continue ; end
    for L=0:3
      X = oc_all(N,L) + 1 ;
      for b=1:size(X,1)
        x = X(b,:) ; y = vl_aibcutpush(map, x) ;
        for md=1:4
          oc_case('vl_aibcuthist(%s, %s, mode %d)', map, x, md) ; oc_op(1) ;
          h = vl_aibcuthist(map, x, modes{md}{:}) ; h = double(h(:)') ;
          e = zeros(1,max(map)) ; nl = 0 ; ok = numel(y) == L ;
          for k=1:L
            if map(x(k)) > 0, e(map(x(k))) += 1 ; else nl += 1 ; end
            ok = ok && y(k) == map(x(k)) ;
          end
          oc_check('push', ok, 'vl_aibcutpush returns %s', mat2str(y)) ;
          if md == 3, if nl || numel(h) > numel(e), e(end+1) = nl ; end, end
          if md == 4, e(1) += nl ; end
          oc_check('hist', isequal(h, e), '%s, expected %s', mat2str(h), mat2str(e)) ;
          oc_state(h, md) ;
        end
      end
    end
  end
end
oc_case('bad options') ;
oc_check('badopt', oc_err(@() vl_aibcuthist([1 1], 1, 'nulls', 'other')), 'no error') ;
oc_check('badopt', oc_err(@() vl_aibcuthist([1 1], 1, 'other', 1)), 'no error') ;
