function s_colour(thorough)
% conversions of every colour of a grid
n = 6 + 5*thorough ; [r,g,b] = ndgrid((0:n)/n) ; W = {'CIE', 'Adobe'} ;
A{1} = [0.488718 0.310680 0.200602 ; 0.176204 0.812985 0.0108109 ; 0 0.0102048 0.989795] ;
A{2} = [0.5767 0.185556 0.188212 ; 0.297361 0.627355 0.0752847 ; 0.0270328 0.0706879 0.99124] ;
wp = {'E' 1/3 1/3 ; 'A' .4476 .4074 ; 'B' .3484 .3516 ; 'C' .3101 .3162 ; 'D50' .3457 .3585 ; 'd55' .3324 .3474 ; 'D65' .3127 .3290 ; 'D75' .2990 .3149 ; 'd93' .2848 .2932} ;
C = [r(:) g(:) b(:)] ;
for k=1:size(C,1)
  c = reshape(C(k,:), 1, 1, 3) ;
  for w=1:2
    oc_case('vl_rgb2xyz(%s, %s)', C(k,:), W{w}) ; oc_op(2) ;
    J = vl_rgb2xyz(c, W{w}) ; e = A{w} * (C(k,:)'.^2.2) ;
    oc_check('xyz', isequal(size(J), [1 1 3]) && all(abs(J(:) - e) < 1e-6), 'XYZ %s, expected %s', mat2str(J(:)',6), mat2str(e',6)) ;
    if w == 1, oc_check('xyz', isequal(J, vl_rgb2xyz(c)), 'the default workspace is CIE') ; end
    R = vl_xyz2rgb(J, W{w}) ;
    oc_check('back', isequal(size(R), [1 1 3]) && all(abs(R(:)' - C(k,:)) < 1e-4), 'RGB of XYZ %s', mat2str(R(:)',6)) ;
    oc_state(J, w) ;
  end
  u = reshape(uint8(255*C(k,:)), 1, 1, 3) ;
  oc_check('uint8', oc_near(vl_rgb2xyz(u), vl_rgb2xyz(double(u)/255)), 'integer image') ;
end
% XYZ on a grid to Lab and Luv under each illuminant, from the definitions
m = 4 + 3*thorough ; [x,y,z] = ndgrid([0 .001 .004 (1:m)/m]) ; X = [x(:) y(:) z(:)] ;
for k=1:size(X,1)
  for i=1:size(wp,1)
    oc_case('XYZ %s, illuminant %s', X(k,:), wp{i,1}) ; oc_op(2) ;
    I = reshape(X(k,:), 1, 1, 3) ; xw = wp{i,2} ; yw = wp{i,3} ; wh = [xw/yw 1 (1-xw-yw)/yw] ;
    f = X(k,:) ./ wh ; t = f > .008856 ; q = zeros(1,3) ; q(t) = f(t).^(1/3) ; q(~t) = (903.3*f(~t) + 16)/116 ;
    lab = [116*q(2)-16, 500*(q(1)-q(2)), 200*(q(2)-q(3))] ;
    d = X(k,:) * [1;15;3] ; dw = wh * [1;15;3] ; luv = [lab(1) 0 0] ;
    if d > 0, luv(2:3) = 13*lab(1)*[4*X(k,1)/d - 4*wh(1)/dw, 9*X(k,2)/d - 9/dw] ; end
    G = vl_xyz2lab(I, wp{i,1}) ; H = vl_xyz2luv(I, wp{i,1}) ;
    oc_check('lab', isequal(size(G), [1 1 3]) && all(abs(G(:)' - lab) < .1 + .002*abs(lab)), 'Lab %s, expected %s', mat2str(G(:)',6), mat2str(lab,6)) ;
    oc_check('luv', isequal(size(H), [1 1 3]) && all(abs(H(:)' - luv) < .1 + .002*abs(luv)), 'Luv %s, expected %s', mat2str(H(:)',6), mat2str(luv,6)) ;
    if i == 1, oc_check('default', isequal(G, vl_xyz2lab(I)) && isequal(isnan(H), isnan(vl_xyz2luv(I))) && all(abs(H(:) - vl_xyz2luv(I)(:)) < 1e-12), 'the default illuminant is E') ; end
    oc_state(G, H, i) ;
  end
end
% pixels of an image are converted one by one
for M=1:3, for N=1:3
  I = reshape(mod((1:M*N*3)*7, 11)/10, M, N, 3) ;
  F = {@vl_rgb2xyz, @vl_xyz2rgb, @vl_xyz2lab, @vl_xyz2luv} ;
  for f=1:4
    J = F{f}(I) ; oc_case('%s of a %dx%d image', func2str(F{f}), M, N) ; oc_op(1) ;
    for a=1:M, for b=1:N, oc_check('pixels', oc_near(J(a,b,:), F{f}(I(a,b,:))), 'pixel %d,%d', a, b) ; end, end
  end
end, end
