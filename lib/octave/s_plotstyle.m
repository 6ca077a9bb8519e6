function s_plotstyle(thorough)
% without axes the defaults of the root object apply
for nc=1:3, for nl=1:3
  col = [1 0 0 ; 0 1 0 ; 0 0 1](1:nc,:) ; ln = {'-', '--', ':'}(1:nl) ;
  for form=0:1
    set(0, 'DefaultAxesColorOrder', col) ; if form, set(0, 'DefaultAxesLineStyleOrder', char(ln)) ; else set(0, 'DefaultAxesLineStyleOrder', ln) ; end
    for k=1:12
      oc_case('vl_plotstyle(%d), %d colours, %d line styles', k, nc, nl) ; oc_op(1) ;
      c = mod(k-1, nc) + 1 ; l = mod(floor((k-1)/nc), nl) + 1 ; e = {'Color', col(c,:), 'LineStyle', ln{l}} ;
      oc_check('style', isequal(vl_plotstyle(k), e), 'style %s', disp(vl_plotstyle(k))) ;
      g = vl_plotstyle([k ; 1 ; k+1]) ;
      oc_check('several', isequal(size(g), [3 1]) && isequal(g{1}, e) && isequal(g{2}, {'Color', col(1,:), 'LineStyle', ln{1}}), 'several styles') ;
      oc_state(k, nc, nl) ;
    end
  end
end, end
