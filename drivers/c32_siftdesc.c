/* C32: SIFT orientations and descriptors against their definition, at every position; independence of history. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/sift.h>
#include <vl/mathop.h>
#define MAXP 4096
#define TPI (2*3.14159265358979323846)
static VlSiftFilt *f; static int w, h, S; static long sure, unsure;
static double gm[MAXP], ga[MAXP]; static float graw[2*MAXP];
static double mod2(double a) { a = fmod(a, TPI); return a < 0 ? a + TPI : a; }
static void gradient(float const *l) { int x, y; for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { float gx = x == 0 ? l[y*w+1]-l[y*w] : x == w-1 ? l[y*w+x]-l[y*w+x-1] : .5*(l[y*w+x+1]-l[y*w+x-1]), gy = y == 0 ? l[w+x]-l[x] : y == h-1 ? l[y*w+x]-l[(y-1)*w+x] : .5*(l[(y+1)*w+x]-l[(y-1)*w+x]); gm[y*w+x] = vl_fast_sqrt_f(gx*gx+gy*gy); ga[y*w+x] = mod2(vl_fast_atan2_f(gy, gx)); } }
static int rnd(double x) { return (int)floor(x+.5); }
/* the 4x4x8 histogram of the pixels x0..x1, y0..y1; returns its norm before normalisation */
static double desc(double *d, double x, double y, double sg, double th, int m) { double B = f->magnif*sg, n = 0, c = cos(th), s = sin(th), q; int X, Y, i, j, k; memset(d, 0, 128*8);
  for (Y = m; Y < h-m; ++Y) for (X = m; X < w-m; ++X) { double dx = X-x, dy = Y-y, u = (c*dx+s*dy)/B, v = (-s*dx+c*dy)/B, t = 8*mod2(ga[Y*w+X]-th)/TPI, wt = gm[Y*w+X]*exp(-(u*u+v*v)/(2*f->windowSize*f->windowSize)); if (!(wt > 0)) continue; for (i = 0; i < 4; ++i) for (j = 0; j < 4; ++j) for (k = 0; k < 8; ++k) { double a = 1-fabs(u-(i-1.5)), b = 1-fabs(v-(j-1.5)), e = fabs(t-k); if (e > 4) e = 8-e; e = 1-e; if (a > 0 && b > 0 && e > 0) d[j*32+i*8+k] += wt*a*b*e; } }
  for (i = 0; i < 128; ++i) n += d[i]*d[i]; q = n = sqrt(n); for (i = 0; i < 128; ++i) { d[i] /= n + 1.19e-7; if (d[i] > .2) d[i] = .2; } for (n = i = 0; i < 128; ++i) n += d[i]*d[i]; n = sqrt(n) + 1.19e-7; for (i = 0; i < 128; ++i) d[i] /= n; return q; }
static uint64_t compare(char const *key, float const *got, double *e, double norm, double lim, char const *what) { int i, maybe; double tol = 4e-3; uint64_t hs = 0; mc_case(1); maybe = lim && fabs(norm-lim) < 5e-3*lim + 1e-6; if (lim && norm < lim && !maybe) memset(e, 0, 128*8); if (maybe || (norm < 2e-4 && norm > 0)) { ++unsure; return 0; } ++sure; for (i = 0; i < 128; ++i) { MC_CHECK(key, fabs(got[i]-e[i]) < tol, "%s: entry %d (row %d, column %d, orientation %d) is %g, expected %g", what, i, i/32, i/8%4, i%8, got[i], e[i]); hs = mc_mix(hs, (int)(got[i]*50)); } mc_state(hs); return hs; }
static char what_[200];
static uint64_t keypoint(char const *key, VlSiftKeypoint *k, double th) { /* descriptor and orientations of one keypoint of the current octave */
  float d[130]; double e[128], st = pow(2, vl_sift_get_octave_index(f)), x = k->x/st, y = k->y/st, sg = k->sigma/st, an[5], n; int i, j, in, na; uint64_t hs; sprintf(what_, "%dx%d keypoint (%g,%g) scale %g level %d angle %g", w, h, x, y, sg, k->is, th);
  in = rnd(x) >= 0 && rnd(x) < w && rnd(y) >= 0 && rnd(y) < h && k->is >= 0 && k->is < S && k->o == vl_sift_get_octave_index(f);
  for (i = 0; i < 130; ++i) d[i] = -7; for (i = 0; i < 5; ++i) an[i] = -7; vl_sift_calc_keypoint_descriptor(f, d, k, th); mc_op(); MC_CHECK("overflow", d[128] == -7 && d[129] == -7, "written beyond the descriptor"); na = vl_sift_calc_keypoint_orientations(f, an, k); mc_op(); MC_CHECK("number", na >= 0 && na <= 4 && an[4] == -7, "%s: %d orientations", what_, na);
  if (!in) { for (i = 0; i < 128; ++i) MC_CHECK("outside", d[i] == -7, "%s: descriptor computed for a keypoint which is not of this octave", what_); MC_CHECK("outside", na == 0, "%s: %d orientations for a keypoint which is not of this octave", what_, na); return 1; }
  gradient(vl_sift_get_octave(f, k->is)); n = desc(e, x, y, sg, th, 1); hs = compare(key, d, e, n, f->norm_thresh, what_);
  { /* orientations */ double H[36] = {0}, H2[36], sw = 1.5*sg, mx = 0, r = 1.004, tiny; int W = floor(3*sw), X, Y, it, sure_[36], may[36], used[36] = {0}, ns = 0, near_edge = fabs(3*sw-floor(3*sw+.5)) < 1e-5; if (W < 1) W = 1;
    for (Y = 0; Y < h; ++Y) for (X = 0; X < w; ++X) { double dx = X-x, dy = Y-y, r2 = dx*dx+dy*dy, b = 36*ga[Y*w+X]/TPI - .5, c; int B = floor(b); if (abs(X-rnd(x)) > W || abs(Y-rnd(y)) > W) continue; if (fabs(r2-W*W-.6) < 1e-5) near_edge = 1; if (r2 >= W*W+.6) continue; c = gm[Y*w+X]*exp(-r2/(2*sw*sw)); H[(B+36)%36] += c*(1-(b-B)); H[(B+37)%36] += c*(b-B); }
    for (it = 0; it < 6; ++it) { for (i = 0; i < 36; ++i) H2[i] = (H[(i+35)%36]+H[i]+H[(i+1)%36])/3; memcpy(H, H2, sizeof(H)); } for (i = 0; i < 36; ++i) mx = VL_MAX(mx, H[i]); tiny = 1e-6*mx + 1e-12;
    for (i = 0; i < 36; ++i) { double a = H[(i+35)%36], b = H[(i+1)%36], c = H[i]; sure_[i] = c > .8*mx*r && c > a*1.0025+tiny && c > b*1.0025+tiny; may[i] = c*r >= .8*mx && c*1.0025+tiny >= a && c*1.0025+tiny >= b; ns += sure_[i]; }
    if (near_edge) { ++unsure; return hs; } ++sure; mc_case(1);
    for (j = 0; j < na; ++j) { int ok = 0; for (i = 0; i < 36 && !ok; ++i) if (may[i] && !used[i]) { double a = H[(i+35)%36], b = H[(i+1)%36], c = H[i], den = a+b-2*c, di = -.5*(b-a)/den, t = TPI*(i+di+.5)/36, tol = TPI/36*VL_MIN(1., .0026*(a+b+2*c)/fabs(den)) + 1e-4, dd = sure_[i] ? fabs(mod2(an[j]-t+3.14159265)-3.14159265) : fabs(mod2(an[j]-TPI*(i+.5)/36+3.14159265)-3.14159265); if (dd <= (sure_[i] ? tol : TPI/72+.02)) ok = used[i] = 1; } MC_CHECK("orientation", ok, "%s: orientation %g (%d of %d) is not a dominant peak of the histogram", what_, an[j], j, na); hs = mc_mix(hs, (int)(an[j]*10)); }
    if (ns <= 4 && na < 4) for (i = 0; i < 36; ++i) MC_CHECK("orientation", !sure_[i] || used[i], "%s: the peak of the histogram at bin %d (%g, maximum %g) is missed (%d found)", what_, i, H[i], mx, na); MC_CHECK("four", !(ns >= 4) || na == 4, "%s: %d orientations of %d", what_, na, ns); mc_state(mc_mix(hs, na)); }
  return hs; }
static void content(float *l, int mode, uint32_t s) { int i, x, y; for (i = 0; i < w*h; ++i) { x = i%w; y = i/w; l[i] = mode == 0 ? (mc_lcg(&s)%1000)/20.f : mode == 1 ? (i == (int)(s%(w*h)) ? 40 : 0) : mode == 2 ? 3.f*x-1.7f*y : mode == 3 ? (x > w/2 ? 30 : 0) : mode == 4 ? (y > h/2 ? 3 : 30) : mode == 5 ? (x+y)%2*9.f : mode == 6 ? 10*sin(.9*x+.4*y+s) : 4; } }
static void start(int levels, int mode, uint32_t seed, int o) { float *im = calloc((w << (o > 0 ? o : 0))*(h << (o > 0 ? o : 0))+1, 4); int s; S = levels; f = vl_sift_new(o < 0 ? w >> -o : w << o, o < 0 ? h >> -o : h << o, o > 0 ? o+1 : 1, S, o < 0 ? o : 0); vl_sift_process_first_octave(f, im); free(im); while (vl_sift_get_octave_index(f) < o) vl_sift_process_next_octave(f); MC_CHECK("osize", vl_sift_get_octave_width(f) == w && vl_sift_get_octave_height(f) == h, "octave size"); for (s = -1; s <= S+1; ++s) content(vl_sift_get_octave(f, s), mode, seed+s); }
static double const angs[] = {0, .3, 1.5707963267948966, 2.2, 3.14159265358979, 4, 5.6, -1, 7};
static double const sgs[] = {1, .35, 1.6, 2.5, .8, 5, 0.05};
static void positions(void) { /* every position in and around */
  static int const sz[][2] = {{7,6},{4,5},{2,2},{3,2},{9,4},{6,9},{12,12}}; int z = mc_choose(MC_BOUND(5,6,7)), mode, a, si, ox, oy; VlSiftKeypoint k; w = sz[z][0]; h = sz[z][1]; mode = mc_choose(8); ox = mc_choose(2*(w+3)); oy = mc_choose(2*(h+3)); start(2, mode, 5, 0); memset(&k, 0, sizeof(k)); k.o = 0; { double fr[] = {0, .3}; int m = ox % 2; k.x = ox/2-2 + fr[m] + (ox/2-2 < 0 ? .4*m : 0); m = oy % 2; k.y = oy/2-2 + .2*m + (oy/2-2 < 0 ? .5*m : 0); } if ((k.x < -.5 && k.x > -1.5) || (k.y < -.5 && k.y > -1.5)) mc_skip();
  for (si = 0; si < MC_BOUND(2,4,7); ++si) for (a = 0; a < MC_BOUND(3,5,9); ++a) { k.sigma = sgs[si]; k.is = (a + si) % 2; keypoint("descriptor", &k, angs[a]); } vl_sift_delete(f); }
static void impulses(void) { /* single bright pixel anywhere: where its gradients go */
  int p, a, si; VlSiftKeypoint k; w = 9; h = 8; p = mc_choose(w*h); start(1, 1, 1+p, 0); memset(&k, 0, sizeof(k)); k.x = 4 + .25*mc_choose(4); k.y = 3.5 + .25*mc_choose(3); for (si = 0; si < MC_BOUND(2,3,6); ++si) for (a = 0; a < MC_BOUND(3,5,9); ++a) { k.sigma = sgs[si]; keypoint("descriptor", &k, angs[a]); } vl_sift_delete(f); }
static void settings(void) { /* magnification, window, norm threshold, octaves, levels */
  int m = mc_choose(3), ws = mc_choose(3), nt = mc_choose(5), o = mc_choose(4)-1, is, mode = mc_choose(7), a; static double const mg[] = {3, 1.3, 6}, wn[] = {2, 1, 5}, th[] = {0, 1, 10, 40, 200}; VlSiftKeypoint k; w = 8; h = 10; start(3, mode, 9, o); vl_sift_set_magnif(f, mg[m]); vl_sift_set_window_size(f, wn[ws]); vl_sift_set_norm_thresh(f, th[nt]); MC_CHECK("get", vl_sift_get_magnif(f) == mg[m] && vl_sift_get_window_size(f) == wn[ws] && vl_sift_get_norm_thresh(f) == th[nt], "settings"); for (is = -2; is < 6; ++is) for (a = 0; a < 4; ++a) { double st = pow(2,o); memset(&k, 0, sizeof(k)); k.o = o + (is == 1 && a == 2); k.is = is; k.x = (3.25+.5*a)*st; k.y = (8.5-2.25*a)*st; k.sigma = (.7+.6*a)*st; keypoint("descriptor", &k, angs[a*2]); } vl_sift_delete(f); }
static void raw(void) { /* gradients given directly */
  int z = mc_choose(4), i, a, si, mode = mc_choose(7), ox, oy, nt; static int const sz[][2] = {{6,5},{3,7},{2,2},{8,8}}; float d[130]; uint32_t s = 7; float *g; w = sz[z][0]; h = sz[z][1]; f = vl_sift_new(4, 4, 1, 1, 0); S = 1; g = mc_galloc(8*w*h); for (i = 0; i < w*h; ++i) { double v = mode < 2 ? (mc_lcg(&s)%1000)/50. : mode == 2 ? i == 7%(w*h) : mode == 3 ? 5 : mode == 4 ? i : mode == 5 ? (i%w == 0 || i/w == h-1)*8 : 0; double t = mode % 2 ? (mc_lcg(&s)%1000)*TPI/1000 : (i%5)*TPI/5; g[2*i] = v; g[2*i+1] = t; gm[i] = g[2*i]; ga[i] = g[2*i+1]; }
  for (ox = -4; ox < 2*w+4; ++ox) for (oy = -4; oy < 2*h+4; ++oy) for (si = 0; si < MC_BOUND(1,2,4); ++si) { double x = ox*.5+(ox&1 ? .2 : 0), y = oy*.5+(oy&1 ? .15 : 0), sg = sgs[(si*2+ox+oy+16)%6], e[128], n; int in, B; if ((x < -.5 && x > -1.5) || (y < -.5 && y > -1.5)) continue; a = (ox+oy+8)%9; nt = (ox+2*oy+20)%3; vl_sift_set_norm_thresh(f, nt == 2 ? .05 : 0); for (i = 0; i < 130; ++i) d[i] = -7; vl_sift_calc_raw_descriptor(f, g, d, w, h, x, y, sg, angs[a]); mc_op(); MC_CHECK("overflow", d[128] == -7, "overflow"); in = rnd(x) >= 0 && rnd(x) < w && rnd(y) >= 0 && rnd(y) < h; sprintf(what_, "raw %dx%d (%g,%g) scale %g angle %g", w, h, x, y, sg, angs[a]);
    if (!in) { for (i = 0; i < 128; ++i) MC_CHECK("outside", d[i] == -7, "%s: written", what_); mc_case(1); continue; } n = desc(e, x, y, sg, angs[a], 0); B = floor(sqrt(2.)*f->magnif*sg*2.5+.5); i = (VL_MIN(B,w-rnd(x)-1)-VL_MAX(-B,-rnd(x))+1)*(VL_MIN(B,h-rnd(y)-1)-VL_MAX(-B,-rnd(y))+1); compare("raw", d, e, n, f->norm_thresh*i, what_); } mc_gcheck(g); mc_gfree(g); vl_sift_delete(f); }
static void rotate(void) { /* turning the image by a right angle turns the orientations and keeps the descriptor */
  int n = 7 + 2*mc_choose(2), mode = mc_choose(7), x, y, i, r, j; static float l[200], l2[200]; double sg = sgs[mc_choose(5)], an[4], an2[4]; float d[128], d2[128]; VlSiftKeypoint k; w = h = n; memset(&k, 0, sizeof(k)); k.x = 1 + mc_choose(2*n-3)*.5; k.y = 1 + mc_choose(2*n-3)*.5; if (fabs(k.x-floor(k.x)-.5) < 1e-6 || fabs(k.y-floor(k.y)-.5) < 1e-6) k.x += .125, k.y += .125; if (k.x > n-1 || k.y > n-1) mc_skip(); k.sigma = sg; if (fabs(4.5*sg-floor(4.5*sg+.5)) < 1e-4) k.sigma += .03; start(1, mode, 3, 0); content(l, mode, 3); memcpy(vl_sift_get_octave(f,0), l, 4*n*n); r = vl_sift_calc_keypoint_orientations(f, an, &k); vl_sift_calc_keypoint_descriptor(f, d, &k, .4); vl_sift_delete(f);
  start(1, mode, 3, 0); for (y = 0; y < n; ++y) for (x = 0; x < n; ++x) l2[x*n + (n-1-y)] = l[y*n+x]; memcpy(vl_sift_get_octave(f,0), l2, 4*n*n); { VlSiftKeypoint q = k; q.x = n-1-k.y; q.y = k.x; i = vl_sift_calc_keypoint_orientations(f, an2, &q); vl_sift_calc_keypoint_descriptor(f, d2, &q, .4+TPI/4); } vl_sift_delete(f); mc_op(); mc_case(1); for (j = 0; j < 128; ++j) MC_CHECK("turn", fabs(d[j]-d2[j]) < .03, "entry %d of the descriptor at (%g,%g) is %g, and %g with the image turned", j, k.x, k.y, d[j], d2[j]); if (r == 1 && i == 1) MC_CHECK("turn", fabs(mod2(an2[0]-an[0]-TPI/4+3.14159265)-3.14159265) < .05, "orientation %g becomes %g with the image turned", an[0], an2[0]); mc_state(mc_mix(r, i)); }
static float *im1; static int iw, ih;
static void history(void) { /* two images, any sequence of calls; a fresh filter for reference */
  int om = mc_choose(3)-1, O = 1 + mc_choose(3), c, i, j, p, s, m2, ow; VlSiftFilt *g; float *im[2]; VlSiftKeypoint k; float d[128], d2[128]; double an[4], an2[4]; int seq; iw = 20; ih = 17; S = 2; w = iw; h = ih; im[0] = mc_galloc(4*iw*ih); im[1] = mc_galloc(4*iw*ih); m2 = mc_choose(8); content(im[0], 6, 3); content(im[1], m2, 4); seq = mc_choose(27); f = vl_sift_new(iw, ih, O, S, om);
  vl_sift_process_first_octave(f, im[0]); p = 0; memset(&k, 0, sizeof(k));
  for (c = seq, i = 0; i < 3; ++i, c /= 3) { int o = vl_sift_get_octave_index(f); k.o = o; k.is = i % 2; k.x = 6; k.y = 7; k.sigma = 2*pow(2,o); if (c % 3 == 0) { vl_sift_calc_keypoint_descriptor(f, d, &k, .5); vl_sift_calc_keypoint_orientations(f, an, &k); } else if (c % 3 == 1) vl_sift_process_next_octave(f); else { vl_sift_process_first_octave(f, im[1-p]); p = 1-p; } mc_op(); }
  vl_sift_process_first_octave(f, im[1]); g = vl_sift_new(iw, ih, O, S, om); vl_sift_process_first_octave(g, im[1]); for (ow = 0;; ++ow) { int o = vl_sift_get_octave_index(f); MC_CHECK("octave", o == vl_sift_get_octave_index(g), "octave %d", o); vl_sift_detect(f); vl_sift_detect(g); MC_CHECK("history", vl_sift_get_nkeypoints(f) == vl_sift_get_nkeypoints(g), "%d keypoints in octave %d, a fresh filter finds %d", vl_sift_get_nkeypoints(f), o, vl_sift_get_nkeypoints(g)); for (s = 0; s < S; ++s) for (i = 0; i < 4; ++i) { int na, nb; k.o = o; k.is = s; k.x = 3+4*i; k.y = 15-4*i; k.sigma = (1+s)*pow(2,o); for (j = 0; j < 128; ++j) d[j] = d2[j] = -7; na = vl_sift_calc_keypoint_orientations(f, an, &k); nb = vl_sift_calc_keypoint_orientations(g, an2, &k); vl_sift_calc_keypoint_descriptor(f, d, &k, 1); vl_sift_calc_keypoint_descriptor(g, d2, &k, 1); mc_op(); mc_case(1); MC_CHECK("history", !memcmp(d, d2, sizeof(d)), "descriptor in octave %d after calls %d differs from that of a fresh filter", o, seq); MC_CHECK("history", na == nb && !memcmp(an, an2, 8*na), "%d orientations in octave %d after calls %d differ from the %d of a fresh filter", na, o, seq, nb); mc_state(mc_hash(na, d, sizeof(d))); w = vl_sift_get_octave_width(f); h = vl_sift_get_octave_height(f); keypoint("octaves", &k, .7); }
    i = vl_sift_process_next_octave(f); j = vl_sift_process_next_octave(g); MC_CHECK("eof", i == j && (i != 0) == (ow == O-1), "next octave"); if (i) break; } vl_sift_delete(f); vl_sift_delete(g); for (i = 0; i < 2; ++i) mc_gcheck(im[i]), mc_gfree(im[i]); (void)im1; }
mc_suite mc_suites[] = {
 {"positions", positions, "6 (7) image sizes x 8 contents x all positions on a half-pixel grid in and around x 4 (7) scales x 5 (9) angles"},
 {"impulses", impulses, "a bright pixel anywhere in 9 x 8 x 12 centres x 3 (6) scales x 5 (9) angles"},
 {"settings", settings, "3 magnifications x 3 windows x 5 norm thresholds x octaves -1..2 x 7 contents x levels -2..5 x 4 positions"},
 {"raw", raw, "given gradients: 4 sizes x 7 contents x all positions on a half-pixel grid x scales and angles"},
 {"rotate", rotate, "right-angle turns: 2 sizes x 7 contents x 5 scales x all positions"},
 {"history", history, "first octave -1..1 x 1..3 octaves x 8 contents x all sequences of 3 calls before the second image"},
 {0}};
