function s_whistc(thorough)
V = [-inf 0 1 1.5 2 3 inf NaN] ; E = {[1], [1 2], [0 1.5 2], [-inf 1 inf], [1 inf], [0 1 2 3]} ; W = [1 .5 NaN] ;
for n=0:2+thorough
  X = oc_all(8,n) + 1 ; Q = oc_all(3,n) + 1 ;
  for k=1:numel(E)
    e = E{k} ;
    for a=1:size(X,1)
      for b=1:size(Q,1)
        x = V(X(a,:)) ; w = W(Q(b,:)) ; x = reshape(x,1,n) ; w = reshape(w,1,n) ;
        if n == 3 && mod(a+b,5), continue ; end
        col = mod(a+b+k, 2) ; if col, x = x' ; w = w' ; end
        oc_case('vl_whistc(%s, %s, %s)', x, w, e) ; oc_op(1) ;
        if n == 0, continue ; end
        h = vl_whistc(x, w, e) ;
        r = ref(x, w, e) ; if n > 1 && col, r = r' ; end
        oc_check('hist', oc_near(h, r), '%s, expected %s', mat2str(h), mat2str(r)) ;
        if ~any(isnan(w)) && all(w == 1) && n > 1
          g = histc(x, e) ; oc_check('histc', isequal(h, g), '%s, histc gives %s', mat2str(h), mat2str(g)) ;
        end
        oc_state(h, k) ;
      end
    end
  end
end
% along a dimension of a matrix
for k=2:4
  e = E{k} ; X = oc_all(4,4) + 3 ;
  for a=1:size(X,1)
    x = reshape(V(X(a,:)), 2, 2) ; w = [1 .5 ; 2 .25] ;
    for dim=0:2
      oc_case('vl_whistc(%s, %s, %s) along %d', x, w, e, dim) ; oc_op(1) ;
      if dim == 0, h = vl_whistc(x, w, e) ; else h = vl_whistc(x, w, e, dim) ; end
      r = [] ;
      if dim == 2, for i=1:2, r(i,:) = ref(x(i,:), w(i,:), e) ; end, else for i=1:2, r(:,i) = ref(x(:,i), w(:,i), e)' ; end, end
      oc_check('dim', oc_near(h, r), '%s, expected %s', mat2str(h), mat2str(r)) ;
      oc_state(h, dim) ;
    end
  end
end
function h = ref(x, w, e)
n = numel(e) ; h = zeros(1,n) ;
for i=1:numel(x)
  for j=1:n
    if isnan(w(i)), continue ; end
    if (j < n && x(i) >= e(j) && x(i) < e(j+1)) || (j == n && x(i) == e(j)), h(j) = h(j) + w(i) ; end
  end
end
