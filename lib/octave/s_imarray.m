function s_imarray(thorough)
for h=1:2, for w=1:3, for K=1:5, for form=0:3
  ch = 1 + 2*(form >= 2) ; if form == 1 && K == 1, continue ; end, if form >= 2 && K == 1, continue ; end
  if form == 2 && K == 3, continue ; end     % four dimensions of which the third and fourth are three: taken as channels, images
  for sp=0:2, for fill=0:1, for lay=0:3, for rev=0:1, for cls=0:1
    P = reshape(mod((1:h*w*ch*K)*7, 251), h, w, ch, K) ;
    switch form
      case 0, A = reshape(P, h, w, K) ; case 1, A = P ; case 2, A = permute(P, [1 2 4 3]) ; case 3, A = P ;
    end
    if cls, A = uint8(A) ; P = double(uint8(P)) ; end
    args = {'Spacing', sp, 'reverse', logical(rev)} ; f = 0 ; if fill, f = 9 ; args(end+1:end+2) = {'FillValue', f} ; end
    L = {[], [2 2], [1 K], [3 2]}{lay+1} ; if ~isempty(L), args(end+1:end+2) = {'layout', L} ; end
    oc_case('vl_imarray of %s array, form %d, spacing %d, fill %d, layout %s, reverse %d, class %d', size(A), form, sp, f, L, rev, cls) ; oc_op(1) ;
    J = vl_imarray(A, args{:}) ;
    if isempty(L), N = ceil(sqrt(K)) ; M = ceil(K/N) ; else M = L(1) ; N = L(2) ; end
    E = f * ones(h*M + sp*(M-1), w*N + sp*(N-1), ch) ;
    for k=1:min(K,M*N)
      i = floor((k-1)/N) ; j = k-1-i*N ; if rev, i = M-1-i ; end
      for y=1:h, for x=1:w, E(i*(h+sp)+y, j*(w+sp)+x, :) = P(y,x,:,k) ; end, end
    end
    oc_check('mosaic', isequal(size(J), size(E)) && isequal(double(J), E) && strcmp(class(J), class(A)), 'result %s (%s), expected %s', mat2str(double(J(:,:,1))), class(J), mat2str(E(:,:,1))) ;
    oc_state(J) ;
  end, end, end, end, end
end, end, end, end
for n=1:4
  A = oc_all(4,n) ;
  for k=1:size(A,1)
    I = A(k,:) ; oc_case('vl_imsc(%s)', I) ; oc_op(1) ; J = vl_imsc(I) ;
    if max(I) > min(I), e = (I - min(I)) / (max(I) - min(I)) ; oc_check('imsc', oc_near(J, e), 'result %s', mat2str(J)) ; else oc_check('imsc', all(J >= 0 & J <= 1), 'result %s', mat2str(J)) ; end
  end
end
