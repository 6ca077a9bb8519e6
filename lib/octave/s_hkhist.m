function s_hkhist(thorough)
for K=1:3
  for D=1:2+(K==2)
    tree.K = K ; tree.depth = D ;
    Pt = oc_all(K,D) + 1 ; n = size(Pt,1) ;
    % every multiset of up to 3 paths as a sequence
    for L=0:2+(n<=4)+thorough*(n<=9)
      Q = oc_all(n,L) + 1 ;
      for b=1:size(Q,1)
        path = Pt(Q(b,:),:)' ; path = reshape(path, D, L) ;
        if mod(b,2), path = uint32(path) ; end
        oc_case('vl_hikmeanshist K=%d depth=%d paths %s', K, D, path) ; oc_op(1) ;
        h = vl_hikmeanshist(tree, path) ;
        e = L ; 
        for d=1:D                % nodes of one level in the order of their subscripts
          lev = oc_all(K,d) + 1 ;
          for i=1:size(lev,1)
            c = 0 ; for l=1:L, c = c + isequal(double(path(1:d,l))', lev(i,:)) ; end
            e(end+1) = c ;
          end
        end
        oc_check('hist', isequal(h(:)', e) && size(h,2) == 1, '%s, expected %s', mat2str(h'), mat2str(e)) ;
        oc_state(h) ;
      end
    end
  end
  for L=0:4
    A = oc_all(K,L) + 1 ;
    for b=1:size(A,1)
      as = A(b,:) ; if mod(b,2), as = uint32(as) ; end
      oc_case('vl_ikmeanshist(%d, %s)', K, as) ; oc_op(1) ;
      h = vl_ikmeanshist(K, as) ; e = zeros(K,1) ; for k=1:L, e(as(k)) += 1 ; end
      oc_check('ikhist', isequal(h, e), '%s, expected %s', mat2str(h), mat2str(e)) ;
      oc_state(h) ;
    end
  end
end
