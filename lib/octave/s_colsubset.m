function s_colsubset(thorough)
O = {'Beginning','ending','Random','uniform','Largest','SMALLEST',''} ;
N = [0 1 2 3 4 5 6 inf .01 .25 .3 .5 .6 .75 .99] ;
for d=1:2
  for m=1:4-(d==2)*(1-thorough)
    X0 = oc_all(3,m*d) ;
    for a=1:size(X0,1)
      X = reshape(X0(a,:), d, m) ;
      for k=1:numel(N)
        for o=1:7
          if mod(a+k+o, 3) && size(X0,1) > 30, continue ; end
          n = N(k) ; c = n ; if n > 0 && n < 1, c = round(n*m) ; end, c = min(c, m) ;
          oc_case('vl_colsubset(%s, %g, %s)', X, n, O{o}) ; oc_op(1) ;
          if o == 7, [Y, sel] = vl_colsubset(X, n) ; else [Y, sel] = vl_colsubset(X, n, O{o}) ; end
          sel = sel(:)' ;
          ok = numel(sel) == c && all(diff(sel) > 0) && all(sel >= 1 & sel <= m) && all(sel == round(sel)) && isequal(size(Y), [d c]) && isequal(Y, X(:,sel)) ;
          oc_check('subset', ok, 'selects %s, expected %d columns in order', mat2str(sel), c) ; if ~ok, continue ; end
          rest = setdiff(1:m, sel) ;
          switch o
            case 1, oc_check('beginning', isequal(sel(:), (1:c)'), 'selects %s', mat2str(sel)) ;
            case 2, oc_check('ending', isequal(sel(:), (m-c+1:m)'), 'selects %s', mat2str(sel)) ;
            case 4, if c > 1, oc_check('uniform', sel(1) == 1 && sel(end) == m && max(diff(sel)) - min(diff(sel)) <= 1, 'selects %s', mat2str(sel)) ; end
            case {5, 6}
              v = 10.^(d-1:-1:0) * X ; if o == 6, v = -v ; end
              oc_check('extreme', isempty(sel) || isempty(rest) || min(v(sel)) >= max(v(rest)), 'selects %s', mat2str(sel)) ;
          end
          oc_state(Y, sel, o) ;
        end
      end
    end
  end
end
oc_case('bad arguments') ;
oc_check('bad', oc_err(@() vl_colsubset([1 2 3], -1)), 'negative N accepted') ;
oc_check('bad', oc_err(@() vl_colsubset([1 2 3], 1.5)), 'fraction above 1 accepted') ;
oc_check('bad', oc_err(@() vl_colsubset([1 2 3], 1, 'sideways')), 'unknown option accepted') ;
oc_check('bad', isequal(size(vl_colsubset([1 2 3])), [1 1]), 'N is one when not given') ;
