function s_imscale(thorough)
% vl_imup, vl_imdown, vl_grad, vl_imgrad on every small image
for M=1:3, for N=1:3
  b = 2 + (M*N <= 6) + (M*N <= 4)*2 ; if M*N == 9, b = 2 + thorough*0 ; end
  A = oc_all(b, M*N) ; V = [0 1 4 9 .5] ; VU = uint8([0 200 255 101 3]) ;
  for a=1:size(A,1)
    I = reshape(V(A(a,:)+1), M, N) ; U = reshape(VU(A(a,:)+1), M, N) ;
    one_up(I, a) ; one_up(U, a) ; one_down(I, a) ; one_down(U, a) ;
    if M > 1 && N > 1, one_grad(I, a) ; end
  end
end, end
A = oc_all(2, 10) ;
for a=1:size(A,1), one_down(reshape(A(a,:),2,5), a) ; one_down(reshape(A(a,:),5,2), a) ; one_grad(reshape(A(a,:),2,5), a) ; end
I = cat(3, [1 2;3 5;7 1], [4 4;1 0;2 9], [0 1;8 2;2 2]) ; one_up(I, 0) ; one_down(I, 0) ;
oc_check('bad', oc_err(@() vl_imdown(1, 'method', 'other')) && oc_err(@() vl_grad([1 2;3 4], 'type', 'other')) && oc_err(@() vl_imgrad([1 2;3 4], 'Type', 'other')), 'an unknown method is accepted') ;
function one_up(I, a)
[M,N,K] = size(I) ; oc_case('vl_imup(%s)', I) ; oc_op(1) ;
D = double(I) ; e = zeros(2*M, 2*N, K) ;
for i=1:2*M, for j=1:2*N
  y = (i+1)/2 ; x = (j+1)/2 ; y0 = floor(y) ; x0 = floor(x) ; y1 = min(ceil(y), M) ; x1 = min(ceil(x), N) ;
  e(i,j,:) = (D(y0,x0,:) + D(y1,x0,:) + D(y0,x1,:) + D(y1,x1,:)) / 4 ;
end, end
J = vl_imup(I) ; tol = 1e-12 ; if isinteger(J), tol = .51/256 ; end
oc_check('up', isequal(size(J), size(e)) && all(abs(double(J(:)) - e(:)) <= tol*256), 'result %s, expected %s', mat2str(double(J(:,:,1)),6), mat2str(e(:,:,1),6)) ;
oc_state(J, a) ;
function one_down(I, a)
[M,N,K] = size(I) ; m = floor(M/2) ; n = floor(N/2) ;
for md=0:2
  oc_case('vl_imdown(%s) method %d', I, md) ; oc_op(1) ;
  switch md
    case 0, J = vl_imdown(I) ; case 1, J = vl_imdown(I, 'Method', 'Sample') ; case 2, J = vl_imdown(I, 'method', 'average') ;
  end
  e = zeros(m, n, K) ; D = double(I) ;
  for i=1:m, for j=1:n
    if md < 2, e(i,j,:) = D(2*i-1,2*j-1,:) ; else e(i,j,:) = (D(2*i-1,2*j-1,:)+D(2*i,2*j-1,:)+D(2*i-1,2*j,:)+D(2*i,2*j,:))/4 ; end
  end, end
  if isinteger(I), e = round(e) ; end
  oc_check('down', strcmp(class(J), class(I)) && numel(J) == numel(e) && (isempty(e) || (isequal(size(J), size(e)) && all(abs(double(J(:)) - e(:)) < 1e-12))), 'result %s, expected %s', mat2str(double(J(:,:,1)),6), mat2str(e(:,:,1),6)) ;
  oc_state(J, md, a) ;
end
function one_grad(I, a)
[M,N] = size(I) ; T = {'central','forward','backward'} ;
for t=0:3
  oc_case('gradient %d of %s', t, I) ; oc_op(2) ;
  ex = zeros(M,N) ; ey = ex ;
  for i=1:M, for j=1:N
    l = j-1 ; r = j+1 ; u = i-1 ; d = i+1 ;
    if t == 2, l = j ; u = i ; elseif t == 3, r = j ; d = i ; end
    if l < 1, l = 1 ; r = 2 ; end, if r > N, r = N ; l = N-1 ; end
    if u < 1, u = 1 ; d = 2 ; end, if d > M, d = M ; u = M-1 ; end
    ex(i,j) = (I(i,r) - I(i,l)) / (r-l) ; ey(i,j) = (I(d,j) - I(u,j)) / (d-u) ;
  end, end
  if t == 0, [gx, gy] = vl_grad(I) ; [hx, hy] = vl_imgrad(I) ;
  else [gx, gy] = vl_grad(I, 'Type', T{t}) ; [hx, hy] = vl_imgrad(I, 'Type', T{t}) ; end
  oc_check('grad', oc_near(gx, ex) && oc_near(gy, ey), 'vl_grad gives %s and %s', mat2str(gx,4), mat2str(gy,4)) ;
  oc_check('imgrad', oc_near(hx, ex) && oc_near(hy, ey), 'vl_imgrad gives %s and %s', mat2str(hx,4), mat2str(hy,4)) ;
  if t > 1
    oc_check('imgrad-short', isequal(nthargout(1:2, @vl_imgrad, I, T{t}), {hx, hy}), 'the short form of the option') ;
  end
  oc_state(gx, gy, t, a) ;
end
