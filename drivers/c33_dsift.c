/* C33: dense SIFT: the grid, the frames, the descriptors and their norms against the definition; changes of parameters. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/dsift.h>
#include <vl/mathop.h>
#define TPI (2*3.14159265358979323846)
#define MAXP 4096
typedef struct { int w, h, sx, sy, x1, y1, x2, y2, T, X, Y, bx, by, flat; double ws; } P;
static double chan[16][MAXP]; static float *im; static long sure, unsure;
static double mod2(double a) { a = fmod(a, TPI); return a < 0 ? a + TPI : a; }
static void channels(P p) { int x, y, t; memset(chan, 0, sizeof(chan)); for (y = 0; y < p.h; ++y) for (x = 0; x < p.w; ++x) { int xl = x ? x-1 : 0, xr = x < p.w-1 ? x+1 : x, yl = y ? y-1 : 0, yr = y < p.h-1 ? y+1 : y; float gx = xr == xl ? 0 : (im[y*p.w+xr]-im[y*p.w+xl])/(xr-xl), gy = yr == yl ? 0 : (im[yr*p.w+x]-im[yl*p.w+x])/(yr-yl); double m = vl_fast_sqrt_f(gx*gx+gy*gy), a = mod2(vl_fast_atan2_f(gy,gx))*p.T/TPI; t = floor(a); chan[t % p.T][y*p.w+x] += m*(1-(a-t)); chan[(t+1) % p.T][y*p.w+x] += m*(a-t); } }
static double gauss(double z) { return exp(-.5*z*z); }
static double wmean(int B, int N, int i, double ws) { double a = 0, d = B*(i-.5*(N-1)); int x; for (x = -B+1; x <= B-1; ++x) a += gauss((x-d)/(B*ws)); return a/(2*B-1); }
static double reference(P p, int fx, int fy, double *d, double *mass) { int i, j, t, u, v, n = p.T*p.X*p.Y, k; double s = 0, q, c0; for (k = 0; k < n; ++k) d[k] = 0; for (j = 0; j < p.Y; ++j) for (i = 0; i < p.X; ++i) { double wm = p.flat ? wmean(p.bx, p.X, i, p.ws)*wmean(p.by, p.Y, j, p.ws) : 1; for (v = -p.by+1; v < p.by; ++v) for (u = -p.bx+1; u < p.bx; ++u) { int x = fx+i*p.bx+u, y = fy+j*p.by+v; double dx = (i-.5*(p.X-1))*p.bx+u, dy = (j-.5*(p.Y-1))*p.by+v, c = (1-fabs(u)/p.bx)*(1-fabs(v)/p.by)*(p.flat ? wm : gauss(dx/(p.bx*p.ws))*gauss(dy/(p.by*p.ws))); x = x < 0 ? 0 : x >= p.w ? p.w-1 : x; y = y < 0 ? 0 : y >= p.h ? p.h-1 : y; for (t = 0; t < p.T; ++t) d[(j*p.X+i)*p.T+t] += c*chan[t][y*p.w+x]; } }
  for (*mass = k = 0; k < n; ++k) *mass += d[k]; c0 = *mass; *mass /= (p.bx*(p.X-1)+1)*(double)(p.by*(p.Y-1)+1); for (k = 0; k < n; ++k) s += d[k]*d[k]; q = sqrt(s); for (k = 0; k < n; ++k) { d[k] /= q+1.19e-7; if (d[k] > .2) d[k] = .2; } for (s = k = 0; k < n; ++k) s += d[k]*d[k]; s = sqrt(s)+1.19e-7; for (k = 0; k < n; ++k) d[k] /= s; (void)c0; return q; }
static void apply(VlDsiftFilter *f, P p) { VlDsiftDescriptorGeometry g; g.numBinT = p.T; g.numBinX = p.X; g.numBinY = p.Y; g.binSizeX = p.bx; g.binSizeY = p.by; vl_dsift_set_geometry(f, &g); vl_dsift_set_steps(f, p.sx, p.sy); vl_dsift_set_bounds(f, p.x1, p.y1, p.x2, p.y2); vl_dsift_set_flat_window(f, p.flat); vl_dsift_set_window_size(f, p.ws); }
static uint64_t verify(VlDsiftFilter *f, P p, char const *key) { int n = 0, fx, fy, k, ds = p.T*p.X*p.Y, fsx = p.bx*(p.X-1), fsy = p.by*(p.Y-1), num, a, b, c, d; static double e[4096]; float const *D; VlDsiftKeypoint const *K; double sc = 0; uint64_t hs = 0; int ex = 0, ey = 0;
  for (fx = p.x1; fx + fsx <= p.x2; fx += p.sx) ++ex; for (fy = p.y1; fy + fsy <= p.y2; fy += p.sy) ++ey; mc_note("%dx%d step %d,%d bounds %d,%d-%d,%d bins %dx%dx%d of %dx%d flat %d window %g", p.w, p.h, p.sx, p.sy, p.x1, p.y1, p.x2, p.y2, p.T, p.X, p.Y, p.bx, p.by, p.flat, p.ws);
  num = vl_dsift_get_keypoint_num(f); MC_CHECK("number", num == ex*ey, "%d keypoints, expected %d x %d", num, ex, ey); MC_CHECK("dsize", vl_dsift_get_descriptor_size(f) == ds, "descriptor size %d, expected %d", vl_dsift_get_descriptor_size(f), ds); vl_dsift_get_bounds(f, &a, &b, &c, &d); MC_CHECK("get", a == p.x1 && b == p.y1 && c == p.x2 && d == p.y2, "bounds"); vl_dsift_get_steps(f, &a, &b); MC_CHECK("get", a == p.sx && b == p.sy && !vl_dsift_get_flat_window(f) == !p.flat && vl_dsift_get_window_size(f) == p.ws, "parameters");
  vl_dsift_process(f, im); mc_op(); MC_CHECK("number", num == vl_dsift_get_keypoint_num(f), "the number of keypoints changes on processing"); channels(p); for (k = 0; k < p.w*p.h; ++k) if (fabs(im[k]) > sc) sc = fabs(im[k]); D = vl_dsift_get_descriptors(f); K = vl_dsift_get_keypoints(f);
  for (fy = p.y1; fy + fsy <= p.y2; fy += p.sy) for (fx = p.x1; fx + fsx <= p.x2; fx += p.sx, ++n) { double m, q = reference(p, fx, fy, e, &m); float const *dd = D + (size_t)n*ds; mc_case(1); MC_CHECK("frame", fabs(K[n].x - (fx + .5*fsx)) < 1e-9 && fabs(K[n].y - (fy + .5*fsy)) < 1e-9, "keypoint %d is at (%g,%g), expected (%g,%g)", n, K[n].x, K[n].y, fx+.5*fsx, fy+.5*fsy); MC_CHECK("norm", fabs(K[n].norm - m) <= 1e-3*m + 2e-5*sc, "keypoint %d has norm %g, expected %g", n, K[n].norm, m);
    hs = mc_hash(hs, &K[n].norm, 8); hs = mc_hash(hs, dd, 4*ds); if (q < .01*sc && q > 0) { ++unsure; for (k = 0; k < ds; ++k) MC_CHECK("range", fabs(dd[k]) <= 1.001, "keypoint %d: entry %d is %g", n, k, dd[k]); continue; } ++sure; for (k = 0; k < ds; ++k) MC_CHECK(key, fabs(dd[k]-e[k]) < 3e-3, "keypoint %d (first bin at (%d,%d)): entry %d (orientation %d, column %d, row %d) is %g, expected %g", n, fx, fy, k, k%p.T, k/p.T%p.X, k/p.T/p.X, dd[k], e[k]); }
  mc_state(hs); return hs; }
static void fill(P p, int mode, uint32_t s) { int i, x, y; for (i = 0; i < p.w*p.h; ++i) { x = i%p.w; y = i/p.w; im[i] = mode == 0 ? (mc_lcg(&s)%1000)/10.f : mode == 1 ? (i == (int)(s%(p.w*p.h)) ? 50 : 0) : mode == 2 ? 2.f*x-1.3f*y : mode == 3 ? (x > p.w/2 ? 30 : 0) : mode == 4 ? (y > p.h/2 ? 0 : 20) : mode == 5 ? 8*sin(.7*x+.5*y) : 9; } }
static P def(int w, int h) { P p = {w, h, 5, 5, 0, 0, w-1, h-1, 8, 4, 4, 5, 5, 0, 2.0}; return p; }
static void once(P p, int mode) { long live = mc_live; VlDsiftFilter *f; im = mc_galloc(4*p.w*p.h); fill(p, mode, 5); f = vl_dsift_new(p.w, p.h); apply(f, p); verify(f, p, "descriptor"); vl_dsift_delete(f); mc_gfree(im); MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live-live); }
static void geometry(void) { P p = def(0,0); int k; p.w = 1 + mc_choose(MC_BOUND(6,8,11)); p.h = 1 + mc_choose(MC_BOUND(6,8,11)); p.X = 1 + mc_choose(4); p.Y = 1 + mc_choose(3); p.bx = 1 + mc_choose(3); p.by = 1 + mc_choose(3); p.flat = mc_choose(2); for (k = 0; k < 4; ++k) { static int const T[] = {4, 8, 1, 3}; p.T = T[k]; p.sx = 1 + (k+p.w)%3; p.sy = 1 + (k+p.h+p.X)%3; p.x1 = p.w > 3 ? k%2 : 0; p.y1 = p.h > 3 ? k/2 : 0; p.x2 = p.w-1-(k == 3 && p.w > 2); p.y2 = p.h-1-(k == 2 && p.h > 2); p.ws = k == 1 ? .8 : k == 2 ? 10 : 2; once(p, (k+p.w+p.h+p.bx)%7); } }
static void bounds(void) { /* every rectangle and step */
  P p = def(7,6); p.X = 1 + mc_choose(2); p.Y = 1 + mc_choose(2); p.bx = 1 + mc_choose(2); p.by = 2; p.T = 4; p.x1 = mc_choose(7); p.x2 = mc_choose(7); p.y1 = mc_choose(6); p.y2 = mc_choose(6); for (p.sx = 1; p.sx < MC_BOUND(3,4,8); ++p.sx) for (p.sy = 1; p.sy < MC_BOUND(3,4,7); ++p.sy) { p.flat = (p.sx+p.sy)%2; once(p, p.sx%3); } }
static void standard(void) { /* the usual layout, impulses anywhere */
  int w = 16 + mc_choose(6), h = 16 + mc_choose(6), b = 1 + mc_choose(5), mode = mc_choose(7), s = 1 + mc_choose(3); P p = def(w,h); VlDsiftFilter *f; long live = mc_live; p.sx = p.sy = s; p.bx = p.by = b; im = mc_galloc(4*w*h); fill(p, mode, 77+b*31+w); f = vl_dsift_new_basic(w, h, s, b); p.flat = 0; verify(f, p, "descriptor"); p.flat = 1; vl_dsift_set_flat_window(f, 1); verify(f, p, "flat"); vl_dsift_delete(f); mc_gfree(im); MC_CHECK("leak", live == mc_live, "leak"); }
static void change(P *p, int c) { switch (c) { case 0: p->sx = p->sx == 2 ? 3 : 2; break; case 1: p->sy = p->sy == 1 ? 4 : 1; break; case 2: p->x1 = p->x1 ? 0 : 2; p->y2 = p->y2 == p->h-1 ? p->h-3 : p->h-1; break; case 3: p->T = p->T == 8 ? 4 : 8; break; case 4: p->X = p->X == 4 ? 2 : 4; p->Y = p->Y == 4 ? 2 : 4; break; case 5: p->bx = p->bx == 2 ? 3 : 2; break; case 6: p->flat = !p->flat; break; case 7: p->ws = p->ws == 2 ? .7 : 2; break; case 8: p->X = p->X == 4 ? 2 : 4; p->T = p->T == 8 ? 4 : 8; break; case 9: p->x1 = p->x2 = 0; break; case 11: p->X = p->X == 4 ? 8 : 4; p->bx = p->X == 8 ? 1 : 2; break; /* as many keypoints, another size */ default: p->T = p->T == 8 ? 4 : 8; p->X = p->T == 4 ? 8 : 4; p->bx = p->X == 8 ? 1 : 2; /* as many keypoints of as many numbers */ } }
static void histories(void) { /* all sequences of parameter changes with an image processed after each */
  int n = 2 + mc_choose(MC_BOUND(1,2,3)), i, c; P p = def(16,13); VlDsiftFilter *f, *g; long live = mc_live; uint64_t a, b; p.bx = p.by = 2; p.sx = p.sy = 2; if (mc_choose(2)) p.T = 4, p.X = 8, p.bx = 1; im = mc_galloc(4*p.w*p.h); f = vl_dsift_new(p.w, p.h); apply(f, p); for (i = 0; i < n; ++i) { fill(p, (i*3)%7, 9+i); a = verify(f, p, i ? "changed" : "descriptor"); if (i) { g = vl_dsift_new(p.w, p.h); apply(g, p); b = verify(g, p, "descriptor"); vl_dsift_delete(g); MC_CHECK("history", a == b, "after a change of parameters the result differs from that of a fresh filter"); } if (i == n-1) break; c = mc_choose(12); change(&p, c); if (c == 0 || c == 1) vl_dsift_set_steps(f, p.sx, p.sy); else if (c == 2 || c == 9) vl_dsift_set_bounds(f, p.x1, p.y1, p.x2, p.y2); else if (c == 6) vl_dsift_set_flat_window(f, p.flat); else if (c == 7) vl_dsift_set_window_size(f, p.ws); else { VlDsiftDescriptorGeometry q = *vl_dsift_get_geometry(f); q.numBinT = p.T; q.numBinX = p.X; q.numBinY = p.Y; q.binSizeX = p.bx; q.binSizeY = p.by; vl_dsift_set_geometry(f, &q); } }
  vl_dsift_delete(f); mc_gfree(im); MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live-live); }
static void transpose(void) { /* transposing the image transposes the descriptors */
  int X = 1 + mc_choose(4), Y = 1 + mc_choose(4), T = 4*(1+mc_choose(3)), mode = mc_choose(7), n, i, x, y, ds = T*X*Y; P p = def(14,11), q; VlDsiftFilter *f, *g; float t[16*12], *im2, *keep, d[4096]; p.X = X; p.Y = Y; p.T = T; p.bx = 2; p.by = 3; p.sx = 2; p.sy = 1; q = p; q.w = p.h; q.h = p.w; q.X = Y; q.Y = X; q.bx = 3; q.by = 2; q.sx = 1; q.sy = 2; q.x2 = p.y2; q.y2 = p.x2; im = t; fill(p, mode, 4); keep = im; im2 = mc_galloc(4*14*11); for (y = 0; y < p.h; ++y) for (x = 0; x < p.w; ++x) im2[x*p.h+y] = im[y*p.w+x]; f = vl_dsift_new(p.w, p.h); apply(f, p); verify(f, p, "descriptor"); g = vl_dsift_new(q.w, q.h); apply(g, q); im = im2; verify(g, q, "descriptor"); im = keep; n = vl_dsift_get_keypoint_num(f); MC_CHECK("transpose", n == vl_dsift_get_keypoint_num(g), "number");
  for (i = 0; i < n; ++i) { VlDsiftKeypoint const *a = vl_dsift_get_keypoints(f)+i, *b = vl_dsift_get_keypoints(g); int j, k; for (j = 0; j < n; ++j) if (b[j].x == a->y && b[j].y == a->x) break; MC_CHECK("transpose", j < n, "no keypoint"); vl_dsift_transpose_descriptor(d, vl_dsift_get_descriptors(f) + (size_t)i*ds, T, X, Y); mc_op(); mc_case(1); if (a->norm < .5) continue; for (k = 0; k < ds; ++k) MC_CHECK("transpose", fabs(d[k] - vl_dsift_get_descriptors(g)[(size_t)j*ds+k]) < .03, "keypoint %d: entry %d of the transposed descriptor is %g, that of the transposed image %g", i, k, d[k], vl_dsift_get_descriptors(g)[(size_t)j*ds+k]); } vl_dsift_delete(f); vl_dsift_delete(g); mc_gfree(im2); }
mc_suite mc_suites[] = {
 {"geometry", geometry, "all image sizes 1..8 x 1..8 (11) x 1..4 x 1..3 bins of 1..3 x 1..3 pixels x both windows x 4 sets of orientations, steps, bounds, window sizes"},
 {"bounds", bounds, "all rectangles of a 7 x 6 image x steps 1..3 (7) x bins"},
 {"standard", standard, "4 x 4 x 8 layout on all sizes 16..21 x bin sizes 1..5 x steps 1..3 x 7 contents x both windows"},
 {"histories", histories, "all sequences of up to 2 (3) of 12 parameter changes from 2 starts with an image processed after each"},
 {"transpose", transpose, "1..4 x 1..4 bins x 3 numbers of orientations x 7 contents: images and their transposes"},
 {0}};
