function s_hat(thorough)
A = oc_all(5+2*thorough,3) - 2 - thorough ;
for a=1:size(A,1)
  om = A(a,:)' ; if mod(a,2), om = om' ; end
  H = vl_hat(om) ;
  oc_case('vl_hat(%s)', om) ; oc_op(2) ;
  oc_check('skew', isequal(size(H), [3 3]) && isequal(H, -H'), 'vl_hat returns %s', mat2str(H)) ;
  for b=1:size(A,1)
    v = A(b,:)' ; c = [om(2)*v(3)-om(3)*v(2) ; om(3)*v(1)-om(1)*v(3) ; om(1)*v(2)-om(2)*v(1)] ;
    oc_check('cross', isequal(H*v, c), 'vl_hat(om)*v with v=%s is %s', mat2str(v), mat2str(H*v)) ;
  end
  oc_check('ihat', isequal(vl_ihat(H), om(:)), 'vl_ihat(vl_hat(om)) is %s', mat2str(vl_ihat(H))) ;
  oc_state(H) ;
end
