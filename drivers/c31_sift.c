/* C31: SIFT detector: every octave's levels, extrema and refinement, coordinates, scales, keypoint mapping, reuse. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/sift.h>
#define MAXP (96*96)
static VlSiftFilt *f; static long sure, unsure;
static float *D(int s) { return vl_sift_get_octave(f, s); }
/* ---- reference detector: from the levels of the current octave ---- */
typedef struct { int ix, iy, is; double x, y, s, sigma; int maybe, used; } K;
static K ks[20000]; static int nk;
static float dog_[16][MAXP]; static int W_, H_;
static double dg(int x, int y, int s) { return dog_[s+1][y*W_+x]; }
static int near_(double a, double b, double t) { return fabs(a-b) <= t*(1+fabs(b)); }
static void refine(int x, int y, int s, double tp, double te) { int it, dx = 0, dy = 0, sing, maybe = 0; double b[3], g[3], A[3][3], det, val, num, den, sn, xn, yn, scale; K k;
  for (it = 0;; ++it) { double c[3][3]; int i, j; x += dx; y += dy;
    g[0] = .5*(dg(x+1,y,s)-dg(x-1,y,s)); g[1] = .5*(dg(x,y+1,s)-dg(x,y-1,s)); g[2] = .5*(dg(x,y,s+1)-dg(x,y,s-1));
    A[0][0] = dg(x+1,y,s)+dg(x-1,y,s)-2*dg(x,y,s); A[1][1] = dg(x,y+1,s)+dg(x,y-1,s)-2*dg(x,y,s); A[2][2] = dg(x,y,s+1)+dg(x,y,s-1)-2*dg(x,y,s);
    A[0][1] = A[1][0] = .25*(dg(x+1,y+1,s)+dg(x-1,y-1,s)-dg(x-1,y+1,s)-dg(x+1,y-1,s)); A[0][2] = A[2][0] = .25*(dg(x+1,y,s+1)+dg(x-1,y,s-1)-dg(x-1,y,s+1)-dg(x+1,y,s-1)); A[1][2] = A[2][1] = .25*(dg(x,y+1,s+1)+dg(x,y-1,s-1)-dg(x,y-1,s+1)-dg(x,y+1,s-1));
    for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) { int a1 = (i+1)%3, a2 = (i+2)%3, b1 = (j+1)%3, b2 = (j+2)%3; c[i][j] = A[a1][b1]*A[a2][b2] - A[a1][b2]*A[a2][b1]; }
    det = A[0][0]*c[0][0] + A[0][1]*c[0][1] + A[0][2]*c[0][2]; scale = 0; for (i = 0; i < 9; ++i) if (fabs((&A[0][0])[i]) > scale) scale = fabs((&A[0][0])[i]);
    sing = fabs(det) <= 1e-13*scale*scale*scale; if (!sing && fabs(det) < 1e-7*scale*scale*scale) maybe = 1; if (sing && det != 0) maybe = 1; if (scale < 1e-5) maybe = 1;
    for (i = 0; i < 3; ++i) b[i] = sing ? 0 : -(c[0][i]*g[0] + c[1][i]*g[1] + c[2][i]*g[2])/det;
    if (near_(fabs(b[0]), .6, 1e-6) || near_(fabs(b[1]), .6, 1e-6)) maybe = 1;
    dx = b[0] > .6 && x < W_-2 ? 1 : b[0] < -.6 && x > 1 ? -1 : 0; dy = b[1] > .6 && y < H_-2 ? 1 : b[1] < -.6 && y > 1 ? -1 : 0;
    if ((!dx && !dy) || it == 4) break; }
  val = fabs(dg(x,y,s) + .5*(g[0]*b[0]+g[1]*b[1]+g[2]*b[2])); num = (A[0][0]+A[1][1])*(A[0][0]+A[1][1]); den = A[0][0]*A[1][1]-A[0][1]*A[0][1]; xn = x+b[0]; yn = y+b[1]; sn = s+b[2];
  if (near_(val, tp, 1e-6) || near_(num*te, (te+1)*(te+1)*den, 1e-6) || (den != 0 && fabs(den) < 1e-9*num)) maybe = 1; if (num < 1e-12*fabs(den)) maybe = 1; /* zero trace: the score is zero and the determinant negative */
  { double q[3] = {1.5,1.5,1.5}; int i; for (i = 0; i < 3; ++i) if (near_(fabs(b[i]), q[i], 1e-6)) maybe = 1; } if (near_(xn,0,1e-6) || near_(xn,W_-1,1e-6) || near_(yn,0,1e-6) || near_(yn,H_-1,1e-6) || near_(sn,-1,1e-6) || near_(sn,f->S+1,1e-6)) maybe = 1;
  if (!maybe && !(val > tp && den > 0 && num*te < (te+1)*(te+1)*den && fabs(b[0]) < 1.5 && fabs(b[1]) < 1.5 && fabs(b[2]) < 1.5 && xn >= 0 && xn <= W_-1 && yn >= 0 && yn <= H_-1 && sn >= -1 && sn <= f->S+1)) return;
  k.ix = x; k.iy = y; k.is = s; k.x = xn; k.y = yn; k.s = sn; k.sigma = 1.6*pow(2,1./f->S)*pow(2, sn/f->S); k.maybe = maybe; k.used = 0; if (nk < MC_LEN(ks)) ks[nk++] = k; if (maybe) ++unsure; else ++sure; }
static void expected(void) { int x, y, s, i, e, a, b, c; double tp = vl_sift_get_peak_thresh(f), te = vl_sift_get_edge_thresh(f); nk = 0; W_ = vl_sift_get_octave_width(f); H_ = vl_sift_get_octave_height(f);
  for (s = -1; s <= f->S; ++s) for (i = 0; i < W_*H_; ++i) dog_[s+1][i] = D(s+1)[i] - D(s)[i];
  for (s = 0; s <= f->S-1; ++s) for (y = 1; y < H_-1; ++y) for (x = 1; x < W_-1; ++x) for (e = -1; e <= 1; e += 2) { double v = e*dg(x,y,s); int ok = v >= .8*tp; for (a = -1; a <= 1 && ok; ++a) for (b = -1; b <= 1 && ok; ++b) for (c = -1; c <= 1 && ok; ++c) if ((a || b || c) && e*dg(x+a,y+b,s+c) >= v) ok = 0; if (ok) refine(x, y, s, tp, te); } }
static uint64_t detect(char const *key) { int i, j, n; double st = pow(2, vl_sift_get_octave_index(f)); VlSiftKeypoint const *r; uint64_t hsh = 0; expected(); vl_sift_detect(f); mc_op(); mc_case(1); n = vl_sift_get_nkeypoints(f); r = vl_sift_get_keypoints(f);
  for (i = 0; i < n; ++i) { K *best = 0; for (j = 0; j < nk; ++j) if (!ks[j].used && ks[j].ix == r[i].ix && ks[j].iy == r[i].iy && ks[j].is == r[i].is) { best = ks+j; if (!best->maybe) break; }
    MC_CHECK("octave", r[i].o == vl_sift_get_octave_index(f), "keypoint of the octave %d labelled %d", vl_sift_get_octave_index(f), r[i].o); MC_CHECK("size", r[i].sigma > 0 && r[i].x >= 0 && r[i].y >= 0 && r[i].x <= (W_-1)*st*(1+1e-6) && r[i].y <= (H_-1)*st*(1+1e-6), "keypoint (%g,%g) outside of the octave", r[i].x, r[i].y);
    if (!best) { for (j = 0; j < nk; ++j) if (ks[j].maybe) break; if (j < nk) continue; }
    MC_CHECK(key, !!best, "keypoint at (%d,%d,%d) of octave %d should not be there (thresholds %g, %g)", r[i].ix, r[i].iy, r[i].is, r[i].o, vl_sift_get_peak_thresh(f), vl_sift_get_edge_thresh(f)); best->used = 1; hsh = mc_mix(mc_mix(hsh, (r[i].is*100+r[i].iy)*100+r[i].ix), (int)(r[i].s*16));
    if (!best->maybe) MC_CHECK("refined", mc_close(r[i].x, best->x*st, 2e-4*st, 1e-5) && mc_close(r[i].y, best->y*st, 2e-4*st, 1e-5) && mc_close(r[i].s, best->s, 2e-4, 1e-5) && mc_close(r[i].sigma, best->sigma*st, 1e-5*st, 2e-4), "keypoint at (%d,%d,%d) is refined to (%g,%g,%g;%g), expected (%g,%g,%g;%g)", r[i].ix, r[i].iy, r[i].is, r[i].x, r[i].y, r[i].s, r[i].sigma, best->x*st, best->y*st, best->s, best->sigma*st); }
  for (j = 0; j < nk; ++j) MC_CHECK(key, ks[j].used || ks[j].maybe, "extremum refined to (%d,%d,%d) at (%g,%g,%g) in octave %d is not found (%d found; thresholds %g, %g)", ks[j].ix, ks[j].iy, ks[j].is, ks[j].x, ks[j].y, ks[j].s, vl_sift_get_octave_index(f), n, vl_sift_get_peak_thresh(f), vl_sift_get_edge_thresh(f)); mc_state(mc_mix(hsh, n)); return mc_hash(n, r, n*sizeof(*r)); }
/* ---- stacks written directly ---- */
static void start(int w, int h, int S, int o) { float *im = calloc(w*h, 4); f = vl_sift_new(w, h, o > 0 ? o+1 : 1, S, o < 0 ? o : 0); vl_sift_process_first_octave(f, im); free(im); while (vl_sift_get_octave_index(f) < o) MC_CHECK("next", vl_sift_process_next_octave(f) == VL_ERR_OK, "no octave"); }
static void stop(void) { vl_sift_delete(f); f = NULL; }
static float *stack; static int sw, sh, sS; /* (S+2) DoG levels */
static void put(float base) { int s, i, n = sw*sh; for (i = 0; i < n; ++i) D(-1)[i] = base; for (s = -1; s <= sS; ++s) for (i = 0; i < n; ++i) D(s+1)[i] = D(s)[i] + stack[(s+1)*n+i]; }
static float buf_[8*MAXP];
static void sstack(int w, int h, int S, int o) { stack = buf_; sw = w; sh = h; sS = S; memset(stack, 0, 4*w*h*(S+2)); start(o < 0 ? w >> -o : w << o, o < 0 ? h >> -o : h << o, S, o); MC_CHECK("osize", vl_sift_get_octave_width(f) == w && vl_sift_get_octave_height(f) == h, "octave %d is %d x %d instead of %d x %d", o, vl_sift_get_octave_width(f), vl_sift_get_octave_height(f), w, h); }
static void thresholds(int i) { static double const tp[] = {0, 1, 4, 5, 6.25, 7}, te[] = {10, 1, 2, 5, 10, 3}; vl_sift_set_peak_thresh(f, tp[i]); vl_sift_set_edge_thresh(f, te[(i*5) % 6]); MC_CHECK("get", vl_sift_get_peak_thresh(f) == tp[i] && vl_sift_get_edge_thresh(f) == te[(i*5)%6], "thresholds"); }
static void pairs(void) { /* one peak anywhere and another value anywhere */
  static int const sz[][3] = {{5,5,3},{4,4,1},{3,3,1},{3,4,2},{6,5,2},{7,4,1},{2,5,1},{5,2,1}}; int z = mc_choose(MC_BOUND(5,8,8)), n, p, q, k, t, sg; static float const v2[] = {4, 5, -5, -4.5, 6, 2}; sstack(sz[z][0], sz[z][1], sz[z][2], 0); n = sw*sh*(sS+2); p = mc_choose(n); sg = mc_choose(2) ? -1 : 1; mc_note("%dx%d, %d levels, peak %d", sw, sh, sS, p);
  for (q = 0; q < n; ++q) { if (mc_asan && (q+p) % 5) continue; for (k = 0; k < MC_BOUND(3,4,6); ++k) { stack[p] = 5*sg; stack[q] = v2[k]*sg; put(0); for (t = 0; t < MC_BOUND(2,3,6); ++t) { thresholds((t*2+k) % 6); detect("extrema"); } stack[q] = 0; stack[p] = 0; } } stop(); }
static void neighbours(void) { /* all departures from an isolated peak */
  int px = 1 + mc_choose(3), py = 1 + mc_choose(3), i, j, c, o = mc_choose(3) - 1; static float const v[] = {7, -8, 4, 8, 7.9375, -20}; sstack(6 - (px&1)*2 + 0, 6, 1, o); if (px > sw-2) { stop(); mc_skip(); } c = sw*sh + py*sw + px; stack[c] = 8; for (i = 0; i < 27; ++i) { int d; if (i == 13) continue; d = mc_dev(MC_TIER(5,7)); if (d) { j = c + (i/9-1)*sw*sh + (i/3%3-1)*sw + i%3-1; stack[j] = v[d-1]; } } put(o*3); for (i = 0; i < 6; i += MC_BOUND(5,2,1)) { thresholds(i); detect("extrema"); } stop(); }
static void planes(void) { /* all values of the eight neighbours in a plane through the peak */
  int pl = mc_choose(3), base = mc_choose(2)*6, i, j, c, m, k, lv = mc_choose(2); static float const v[] = {7.9375, 7, 4, 0}; sstack(5, 5, 2, 0); c = (1+lv)*25 + 12; m = mc_choose(256); for (k = 0; k < 256; ++k) { for (i = 0; i < 100; ++i) stack[i] = base; stack[c] = 8; for (i = j = 0; i < 9; ++i) { int a = i%3-1, b = i/3-1, q = j < 4 ? m >> 2*j & 3 : k >> 2*(j-4) & 3; if (i == 4) continue; ++j; stack[c + (pl == 0 ? a + 5*b : pl == 1 ? a + 25*b : 5*a + 25*b)] = v[q]; } put(0); thresholds(4*(k&1)); detect("extrema"); } stop(); }
static void far(void) { /* the refinement walks: second derivatives at some distance */
  int px = 1 + mc_choose(4), i, py = 1 + mc_choose(2), k; static float const v[] = {7.9375, 6, -3, 20}; sstack(8, 6, 1, 0); stack[sw*sh + py*sw + px] = 8; for (i = 0; i < 20; ++i) { int d = mc_dev(MC_TIER(4,5)), x = px - 2 + i % 5, y = py - 1 + i / 5 ; if (d && x >= 0 && x < sw && y >= 0 && y < sh && (x != px || y != py)) stack[sw*sh + y*sw + x] = v[d-1]; } put(0); for (k = 0; k < 6; k += 2) { thresholds(k); detect("extrema"); } stop(); }
static void surfaces(void) { /* an exact quadratic: the refined point is its top */
  static double const off[] = {0, .25, -.25, .5, -.5, .125}; int ix, iy, is, a, t, i, x, y, s, found; double A, B, C, E, x0, y0, s0; static double const cv[][4] = {{1,1,1,0},{1,2,.5,.5},{.25,2,1,0},{1,.0625,1,0},{1,1,1,.9},{1,1,1,-1.5},{.5,.5,2,.25}}; int o = mc_choose(4) - 1; sstack(8, 6, 3, o); x0 = 1 + mc_choose(6); y0 = 1 + mc_choose(4); a = mc_choose(7); s0 = mc_choose(3); A = cv[a][0]; B = cv[a][1]; C = cv[a][2]; E = cv[a][3]; 
  for (ix = 0; ix < 6; ++ix) for (iy = 0; iy < 6; ++iy) for (is = 0; is < MC_BOUND(1,3,6); ++is) for (t = 0; t < 2; ++t) { double X = x0+off[ix], Y = y0+off[iy], Z = s0+off[is], sg = t ? -1 : 1, te = t ? 10 : 3, ratio; for (s = -1; s <= 3; ++s) for (y = 0; y < sh; ++y) for (x = 0; x < sw; ++x) stack[((s+1)*sh+y)*sw+x] = sg*(20 - A*(x-X)*(x-X) - B*(y-Y)*(y-Y) - C*(s-Z)*(s-Z) - E*(x-X)*(y-Y)); put(0); vl_sift_set_peak_thresh(f, 5); vl_sift_set_edge_thresh(f, te); detect("extrema");
    ratio = 4*(A+B)*(A+B)/(4*A*B-E*E); if (X < 1 || Y < 1 || X > sw-2 || Y > sh-2 || fabs(off[ix]) == .5 || fabs(off[iy]) == .5 || fabs(off[is]) == .5 || near_(ratio, (te+1)*(te+1)/te, 1e-4)) continue; /* between samples there may be no strict extremum */
    for (i = found = 0; i < vl_sift_get_nkeypoints(f); ++i) { VlSiftKeypoint const *k = vl_sift_get_keypoints(f) + i; double st = pow(2,o); if (fabs(k->x - X*st) < 1e-3*st && fabs(k->y - Y*st) < 1e-3*st && fabs(k->s - Z) < 1e-3) ++found; }
    if (fabs(E) < .6*VL_MIN(A,B)) MC_CHECK("top", found == (ratio < (te+1)*(te+1)/te), "a quadratic with its top at (%g,%g,%g) and principal ratio score %g (threshold %g) is found %d times", X, Y, Z, ratio, (te+1)*(te+1)/te, found); } stop(); }
static void many(void) { /* more keypoints than the buffer's increments; repeated detection */
  int w = 8 + 30*mc_choose(3), k, x, y; uint64_t a, b; sstack(w, w, 2, 0); k = 2 + mc_choose(2); for (y = 1; y < w-1; y += k) for (x = 1; x < w-1; x += k) stack[w*w + y*w + x] = 5 + (x+y)%3, stack[2*w*w + y*w + x] = -6; put(0); a = detect("extrema"); b = detect("extrema"); MC_CHECK("again", a == b, "detecting again gives other keypoints"); memset(stack, 0, 4*w*w*4); stack[w*w + w*2 + 2] = 7; put(0); detect("fewer"); stop(); }
/* ---- the octaves themselves ---- */
static double lev[16][MAXP], ta[MAXP], tb[MAXP];
static int smooth(double *a, int w, int h, double sg) { static double k[512]; int R = (int)ceil(4*sg), i, x, y, ok = fabs(4*sg - floor(4*sg+.5)) > 1e-5; double m = 0; if (R < 1) R = 1; for (i = -R; i <= R; ++i) m += k[i+R] = exp(-.5*i*i/(sg*sg)); for (i = 0; i <= 2*R; ++i) k[i] /= m;
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double s = 0; for (i = -R; i <= R; ++i) { int q = x+i; s += k[i+R]*a[y*w + (q < 0 ? 0 : q >= w ? w-1 : q)]; } tb[y*w+x] = s; } for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double s = 0; for (i = -R; i <= R; ++i) { int q = y+i; s += k[i+R]*tb[(q < 0 ? 0 : q >= h ? h-1 : q)*w+x]; } a[y*w+x] = s; } return ok; }
static int iw, ih, O_, S_, om; static float *im;
static uint64_t octaves(char const *key) { /* processes the image and compares all the levels */
  int o, s, i, x, y, w, h, ok = 1, err; double sc = 1, s0 = 1.6*pow(2,1./S_); uint64_t hs = 0; for (i = 0; i < iw*ih; ++i) if (fabs(im[i]) > sc) sc = fabs(im[i]);
  for (o = om; o < om + O_; ++o) { err = o == om ? vl_sift_process_first_octave(f, im) : vl_sift_process_next_octave(f); mc_op(); MC_CHECK("ok", err == VL_ERR_OK, "octave %d of %d..%d: error %d", o, om, om+O_-1, err); w = o < 0 ? iw << -o : iw >> o; h = o < 0 ? ih << -o : ih >> o; MC_CHECK("osize", vl_sift_get_octave_index(f) == o && vl_sift_get_octave_width(f) == w && vl_sift_get_octave_height(f) == h && vl_sift_get_nkeypoints(f) == 0, "octave %d of a %d x %d image is number %d, %d x %d with %d keypoints", o, iw, ih, vl_sift_get_octave_index(f), vl_sift_get_octave_width(f), vl_sift_get_octave_height(f), vl_sift_get_nkeypoints(f));
    if (o == om) { double sb = .5*pow(2,-om); int cw = iw, ch = ih; for (i = 0; i < iw*ih; ++i) ta[i] = im[i]; if (om > 0) { for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) ta[y*w+x] = im[(y << om)*iw + (x << om)]; } for (i = 0; i > om; --i) { for (y = 0; y < 2*ch; ++y) for (x = 0; x < 2*cw; ++x) { int x0 = x/2, y0 = y/2, x1 = x%2 && x0 < cw-1 ? x0+1 : x0, y1 = y%2 && y0 < ch-1 ? y0+1 : y0; tb[y*2*cw+x] = (ta[y0*cw+x0]+ta[y0*cw+x1]+ta[y1*cw+x0]+ta[y1*cw+x1])/4; } cw *= 2; ch *= 2; memcpy(ta, tb, 8*cw*ch); } if (1.6 > sb) ok &= smooth(ta, w, h, sqrt(1.6*1.6-sb*sb)); }
    else { int pw = o-1 < 0 ? iw << -(o-1) : iw >> (o-1); for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) ta[y*w+x] = lev[S_][2*y*pw+2*x]; }
    for (s = -1; s <= S_+1; ++s) { if (s >= 0) ok &= smooth(ta, w, h, s0*sqrt(1-pow(2,-2./S_))*pow(2,(double)s/S_)); memcpy(lev[s+1], ta, 8*w*h); hs = mc_hash(hs, D(s), 4*w*h); if (ok) for (i = 0; i < w*h; ++i) MC_CHECK(key, fabs(D(s)[i]-ta[i]) < 1e-4*sc, "%d x %d: pixel (%d,%d) of level %d of octave %d is %g, expected %g", iw, ih, i%w, i/w, s, o, D(s)[i], ta[i]); } if (ok) ++sure; else ++unsure; mc_state(hs); mc_case(1); 
    vl_sift_set_peak_thresh(f, 0); detect("detect"); }
  if (O_) { err = vl_sift_process_next_octave(f); MC_CHECK("eof", err == VL_ERR_EOF && vl_sift_get_octave_index(f) == om+O_-1, "after the last octave: error %d, octave %d", err, vl_sift_get_octave_index(f)); } return hs; }
static void fill(int mode, uint32_t s) { int i, n = iw*ih; for (i = 0; i < n; ++i) im[i] = mode == 0 ? (mc_lcg(&s) % 1000)/10.f - 20 : mode == 1 ? (i == (int)(s % n) ? 100 : 0) : mode == 2 ? (i % iw)*3.f - (i / iw)*1.7f : mode == 3 ? ((i % iw) > iw/2 ? 50 : 0) : 7; }
static void scales(void) { int m, k; long live; uint64_t a, b; iw = 1 + mc_choose(MC_BOUND(8,10,14)); ih = 1 + mc_choose(MC_BOUND(8,10,14)); om = mc_choose(5) - 2; O_ = 1 + mc_choose(3); S_ = 1 + mc_choose(MC_BOUND(2,3,5)); for (k = om+O_-1; k > 0;) { if (!(iw >> k) || !(ih >> k)) mc_skip(); break; } m = (iw+ih+om+S_+3) % 5; mc_note("%dx%d, octaves from %d: %d, levels %d", iw, ih, om, O_, S_); live = mc_live; im = mc_galloc(4*iw*ih); f = vl_sift_new(iw, ih, O_, S_, om);
  MC_CHECK("get", vl_sift_get_octave_first(f) == om && vl_sift_get_noctaves(f) == O_ && vl_sift_get_nlevels(f) == S_, "accessors"); fill(m, 5); octaves("level"); fill(m+1, 11); a = octaves("second"); vl_sift_delete(f); f = vl_sift_new(iw, ih, O_, S_, om); b = octaves("level"); MC_CHECK("history", a == b, "the second image has other levels than with a fresh filter"); /* restart in the middle of an image */ fill(m, 5); vl_sift_process_first_octave(f, im); vl_sift_detect(f); if (O_ > 1) vl_sift_process_next_octave(f); fill(m+1, 11); MC_CHECK("history", octaves("level") == b, "restarting gives other levels"); vl_sift_delete(f); mc_gcheck(im); mc_gfree(im); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live-live); }
static void sizes(void) { int e, k; iw = 1 + mc_choose(MC_TIER(80,300)); ih = 1 + mc_choose(MC_TIER(80,300)); om = mc_choose(4) - 1; for (k = iw < ih ? iw : ih, e = 0; k > 1; k >>= 1) ++e; e = e - om - 3; if (e < 1) e = 1; f = vl_sift_new(iw, ih, -1, 3, om); mc_case(1); mc_op(); MC_CHECK("auto", vl_sift_get_noctaves(f) == e, "%d x %d from octave %d: %d octaves, expected %d", iw, ih, om, vl_sift_get_noctaves(f), e); vl_sift_delete(f); }
/* ---- from coordinates and scale to octave and level ---- */
static void init(void) { int S = 1 + mc_choose(MC_TIER(5,8)), om2 = mc_choose(5) - 2, O = 1 + mc_choose(4), i, j; double s0 = 1.6*pow(2,1./S); f = vl_sift_new(16, 16, O, S, om2);
  for (i = -60; i < 110; ++i) for (j = 0; j < 9; ++j) { static double const px[][2] = {{0,0},{3.4,7.6},{1.5,2.5},{8,12},{15,15},{.49,.51},{5.75,6.25},{14.2,1.1},{2,3}}; double sg = s0*pow(2, (i+.37)/20.), ph, t, x = px[j][0], y = px[j][1], st; int o, is; VlSiftKeypoint k; memset(&k, 7, sizeof(k)); vl_sift_keypoint_init(f, &k, x, y, sg); mc_op(); mc_case(1); ph = log2(sg/s0); t = ph + .5/S; o = (int)floor(t); if (fabs(t - floor(t+.5)) < 1e-6) continue; if (o > om2+O-1) o = om2+O-1; if (o < om2) o = om2; t = S*(ph-o); is = (int)floor(t+.5); if (fabs(t+.5 - floor(t+1)) < 1e-6 && 0) continue; if (is > S-1) is = S-1; if (is < 0) is = 0; st = pow(2,o);
    MC_CHECK("map", k.o == o && k.is == is, "sigma %g (octaves %d..%d, %d levels) is mapped to octave %d, level %d, expected %d, %d", sg, om2, om2+O-1, S, k.o, k.is, o, is); MC_CHECK("at", k.x == (float)x && k.y == (float)y && k.sigma == (float)sg && mc_close(k.s, t, 1e-4, 1e-4), "(%g,%g,%g) became (%g,%g,%g,%g)", x, y, sg, k.x, k.y, k.s, k.sigma); MC_CHECK("pixel", fabs(k.ix - x/st) <= .5+1e-6 && fabs(k.iy - y/st) <= .5+1e-6, "(%g,%g) in octave %d is the pixel (%d,%d)", x, y, o, k.ix, k.iy); mc_state(mc_mix(k.o*100+k.is, k.ix*100+k.iy)); }
  stop(); }
static void blobs(void) { /* a Gaussian blob is found at its place with its size, whatever the first octave */
  int x, y, i, n = 0, cx, cy, err; double best = 1e9, sb, X, Y, bx = 0, by = 0, bs = 0; iw = 64; ih = 56; om = mc_choose(4) - 2; sb = 3 + 2*mc_choose(3); S_ = 3 + 2*mc_choose(2); cx = mc_choose(4); cy = mc_choose(4); if (om == 1 && sb < 5) mc_skip(); X = 26 + cx*3.37; Y = 24 + cy*2.61; im = mc_galloc(4*iw*ih); for (y = 0; y < ih; ++y) for (x = 0; x < iw; ++x) im[y*iw+x] = 100*exp(-.5*((x-X)*(x-X)+(y-Y)*(y-Y))/(sb*sb)); f = vl_sift_new(iw, ih, 5-om-1, S_, om); vl_sift_set_peak_thresh(f, 1);
  for (err = vl_sift_process_first_octave(f, im); !err; err = vl_sift_process_next_octave(f)) { vl_sift_detect(f); mc_op(); for (i = 0; i < vl_sift_get_nkeypoints(f); ++i) { VlSiftKeypoint const *k = vl_sift_get_keypoints(f)+i; double d = hypot(k->x-X, k->y-Y) + fabs(k->sigma-sb); ++n; if (d < best) best = d, bx = k->x, by = k->y, bs = k->sigma; } }
  mc_case(1); /* the DoG of a blob of scale t is extremal about t; the scale of a keypoint is the finer of the two levels */ MC_CHECK("blob", n && fabs(bx-X) < .15+.05*pow(2,om) && fabs(by-Y) < .15+.05*pow(2,om) && bs > sb*.75 && bs < sb*1.15, "a blob at (%g,%g) of scale %g is found at (%g,%g) with scale %g (%d keypoints; first octave %d, %d levels)", X, Y, sb, bx, by, bs, n, om, S_); mc_state(mc_hash(om, &bs, 8)); vl_sift_delete(f); mc_gfree(im); }
static void oom(void) { int k, w = 4 + 4*mc_choose(3); long live = mc_live; f = vl_sift_new(w, w, 1 + mc_choose(3), 3, mc_choose(2) - 1); vl_sift_delete(f); vl_sift_delete(NULL); MC_CHECK("leak", mc_live == live, "leak"); k = mc_choose(2); f = vl_sift_new(w, w, 0, 3, 0); { float z[400] = {0}; MC_CHECK("none", vl_sift_process_first_octave(f, z) == VL_ERR_EOF, "an octave where none was asked"); } vl_sift_delete(f); mc_case(1); mc_op(); (void)k; MC_CHECK("leak", mc_live == live, "leak"); }
mc_suite mc_suites[] = {
 {"pairs", pairs, "stacks of 5/8 sizes, one peak of either sign at every sample x a second value at every sample x 4 (6) values x 3 (6) thresholds"},
 {"neighbours", neighbours, "an isolated peak at 9 places x 3 octaves with up to 2 (3 thorough) of its 26 neighbours changed to 4 (6) values", 0, 2, 3},
 {"planes", planes, "all values over 4 levels of the 8 neighbours in each plane through a peak x 2 backgrounds x 2 levels"},
 {"far", far, "a peak with up to 3 of 20 samples around changed", 0, 3, 4},
 {"surfaces", surfaces, "quadratics of 7 shapes with their top anywhere: 6 x 4 x 3 samples x 6 x 6 x 3 (6) offsets x 4 octaves x sign"},
 {"many", many, "up to 1089 peaks; repeated detection"},
 {"scales", scales, "all sizes 1..10 x 1..10 (14) x first octave -2..2 x 1..3 octaves x 1..3 (5) levels x image kinds: all levels of all octaves, second image, restart, memory"},
 {"sizes", sizes, "number of octaves of all sizes to 80 x 80 (300) x first octave -1..2"},
 {"init", init, "keypoints from 170 scales x 9 places x 5 (8) levels x first octave -2..2 x 1..4 octaves"},
 {"blobs", blobs, "Gaussian blobs: 16 places x 3 sizes x first octave -2..1 x 2 resolutions"},
 {"memory", oom, "creation and deletion"},
 {0}};
