function s_aibcut(thorough)
for M=2:4+thorough
  Z = oc_all(2,M) ;
  for a=1:size(Z,1)
    z = logical(Z(a,:)) ; if sum(~z) < 2, continue ; end   % vl_aib gives no tree for fewer than two values
    T = aib_trees(M, z) ; m = sum(~z) ;
    for t=1:numel(T)
      p = T{t} ;
      for n=1:M
        for cls = 0:1
          P = p ; if cls, P = uint32(p) ; end
          oc_case('vl_aibcut(%s, %d) %s', p, n, class(P)) ; oc_op(1) ;
          [cut, map, short] = vl_aibcut(P, n) ;
          cut = double(cut) ; map = double(map) ; short = double(short) ;
          ok = numel(cut) == n && numel(unique(cut)) == n && all(cut >= 1 & cut <= 2*M-1) ;
          oc_check('cut', ok, 'cut %s', mat2str(cut)) ; if ~ok, continue ; end
          % the path of each node to the root
          last = find(p, 1, 'last') ; good = true ; nul = find(z) ;
          for i=1:M
            path = i ; while ~z(i) && path(end) ~= last, path(end+1) = p(path(end)) ; end
            hit = intersect(path, cut) ;
            if ~z(i), good = good && numel(hit) == 1 ; end
          end
          k = sum(ismember(cut, nul)) ;
          oc_check('cut', good && all(ismember(cut, [find(p) nul])) && k == max(0, n-m), 'cut %s: each leaf below exactly one node, with %d null nodes', mat2str(cut), max(0,n-m)) ;
          oc_check('map-size', isequal(size(map), size(p)) && isequal(size(short), size(p)), 'sizes of map and short') ;
          if isequal(size(map), size(p))
          for i=1:2*M-1
            e = 0 ; sh = NaN ;
            if any(cut == i), e = find(sort(cut) == i) ; e = find(cut == i) ; sh = i ;
            elseif p(i) == 0, e = 0 ; sh = 0 ;
            else
              x = i ; while x ~= last && ~any(cut == x), x = p(x) ; end
              if any(cut == x), e = find(cut == x) ; sh = x ; end
            end
            oc_check('map', map(i) == e, 'cut %s map %s, node %d expected %d', mat2str(cut), mat2str(map), i, e) ;
            if ~isnan(sh), oc_check('short', short(i) == sh, 'cut %s short %s, node %d expected %d', mat2str(cut), mat2str(short), i, sh) ; end
          end
          end
          oc_state(cut, map, short) ;
        end
      end
    end
  end
end
