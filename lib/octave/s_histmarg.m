function s_histmarg(thorough)
for d=2:3+thorough
  S = oc_all(3,d) + 1 ;
  for a=1:size(S,1)
    sz = S(a,:) ; if d > 2 && sz(d) == 1, continue ; end
    H = reshape(mod((1:prod(sz))*7919, 101), sz) ;
    for m=0:2^d-1
      base = find(bitand(m, 2.^(0:d-1))) ;
      if isempty(base), continue ; end
      pp = perms(base) ;
      for b=1:size(pp,1)
        dims = pp(b,:) ;
        oc_case('vl_histmarg(%s array, %s)', sz, dims) ; oc_op(1) ;
        G = vl_histmarg(H, dims) ;
        k = numel(dims) ; n = prod(sz(dims)) ; e = zeros(1, n) ;
        for i=1:prod(sz)
          c = cell(1,d) ; [c{:}] = ind2sub(sz, i) ; c = [c{:}] ;
          l = 0 ; st = 1 ; for q=1:k, l = l + (c(dims(q))-1)*st ; st = st*sz(dims(q)) ; end
          e(l+1) += H(i) ;
        end
        es = sz(dims) ; if k == 1, es = [es 1] ; end
        e = reshape(e, es) ;
        key = 'marg' ; if ~issorted(dims), key = 'marg-order' ; end
        oc_check(key, isequal(size(G), size(e)) && isequal(G, e), 'result %s, expected %s', mat2str(G(:)'), mat2str(e(:)')) ;
        oc_state(G) ;
      end
    end
  end
end
