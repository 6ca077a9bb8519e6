/* C35: frames of covariant detectors: patches, orientations, Laplacian scales, affine shape. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/covdet.h>
#include <vl/scalespace.h>
#include <vl/imopv.h>
#include <vl/mathop.h>
typedef VlFrameOrientedEllipse F;
static VlCovDetMethod const meth[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HESSIAN};
static float img[256*256]; static int W, H; static double top; /* top: largest value in modulus */
static VlCovDet *det;
static void start(int m, int first, int res) { int i; det = vl_covdet_new(meth[m]); vl_covdet_set_first_octave(det, first); vl_covdet_set_octave_resolution(det, res); MC_CHECK("put", vl_covdet_put_image(det, img, W, H) == 0, "vl_covdet_put_image failed"); top = 1e-6; for (i = 0; i < W*H; ++i) if (fabs(img[i]) > top) top = fabs(img[i]); }
static void noise(unsigned s) { int i; s = s*7919u+13; for (i = 0; i < W*H; ++i) img[i] = mc_lcg(&s)%1000/100.f; }
static F frame(double x, double y, double a11, double a12, double a21, double a22) { F f; f.x = x; f.y = y; f.a11 = a11; f.a12 = a12; f.a21 = a21; f.a22 = a22; return f; }
static double smin(F f) { double a = f.a11, b = f.a12, c = f.a21, d = f.a22, s = hypot(a+d, c-b), t = hypot(a-d, c+b); return .5*fabs(s-t); }
static double smax(F f) { double a = f.a11, b = f.a12, c = f.a21, d = f.a22; return .5*(hypot(a+d, c-b)+hypot(a-d, c+b)); }
/* affine maps: identity, dilations, rotations, anisotropies, shears, reflections */
static double const mats[][4] = {{1,0,0,1}, {.6,-.8,.8,.6}, {2.3,0,0,.7}, {1,0,0,-1}, {.05,0,0,.05}, {5,0,0,5}, {0,-1.3,1.3,0}, {1.1,.9,0,1.1}, {-.9,.2,.3,1.7}, {.3,1.4,-2,.4}, {0,1,1,0}, {-.7,0,0,-.7}, {.2,3,-.1,.2}, {12,3,-1,9}};
/* ---- the level a patch is taken from: the one with the largest smoothing not larger than the one asked for, in the frame's most magnified direction; the finest if there is none */
typedef struct { float const *v; int w, h; double step, sigma; } L;
static L ls[40]; static int nl;
static double best(VlScaleSpaceGeometry g, double t) { int o, s; double b = -1, lo = 1e300; for (o = g.firstOctave; o <= g.lastOctave; ++o) for (s = g.octaveFirstSubdivision; s <= g.octaveLastSubdivision; ++s) { double z = g.baseScale*pow(2, o+(double)s/g.octaveResolution); if (z <= t && z > b) b = z; if (z < lo) lo = z; } return b < 0 ? lo : b; }
static void levels(F f, double sigma) { VlScaleSpace *sp = vl_covdet_get_gss(det); VlScaleSpaceGeometry g = vl_scalespace_get_geometry(sp); double t = sigma*smin(f), a = best(g, t*(1-1e-9)), b = best(g, t*(1+1e-9)); int o, s; nl = 0; for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(sp, o); for (s = g.octaveFirstSubdivision; s <= g.octaveLastSubdivision; ++s) { double z = g.baseScale*pow(2, o+(double)s/g.octaveResolution); if ((mc_close(z, a, 0, 1e-9) || mc_close(z, b, 0, 1e-9)) && nl < MC_LEN(ls)) { L l; l.v = vl_scalespace_get_level(sp, o, s); l.w = og.width; l.h = og.height; l.step = og.step; l.sigma = z; ls[nl++] = l; } } } }
static double at(L const *l, double x, double y) { double fx = floor(x), fy = floor(y), wx = x-fx, wy = y-fy; int i, j; double r = 0; for (j = 0; j < 2; ++j) for (i = 0; i < 2; ++i) { double X = fx+i, Y = fy+j; X = X < 0 ? 0 : X > l->w-1 ? l->w-1 : X; Y = Y < 0 ? 0 : Y > l->h-1 ? l->h-1 : Y; r += (i ? wx : 1-wx)*(j ? wy : 1-wy)*l->v[(int)Y*l->w+(int)X]; } return r; }
static void resample(double *q, L const *l, F f, int n, double ext) { int i, j; for (j = -n; j <= n; ++j) for (i = -n; i <= n; ++i) { double u = ext*i/n, v = ext*j/n; *q++ = at(l, (f.a11*u+f.a12*v+f.x)/l->step, (f.a21*u+f.a22*v+f.y)/l->step); } }
static int leaves(L const *l, F f, double ext, double tol) { double ex = ext*(fabs(f.a11)+fabs(f.a12)), ey = ext*(fabs(f.a21)+fabs(f.a22)); return f.x-ex < -tol || f.y-ey < -tol || f.x+ex > (l->w-1)*l->step+tol || f.y+ey > (l->h-1)*l->step+tol; }
static double dist(double const *q, float const *p, int n) { int i; double m = 0; for (i = 0; i < n; ++i) { double d = fabs(q[i]-p[i]); if (!(d <= m)) m = d; } return m; }
static double qb[41*41+8]; static uint64_t hs;
static void note(F f, char const *what) { mc_note(" %s of frame (%g,%g) [%g %g; %g %g];", what, f.x, f.y, f.a11, f.a12, f.a21, f.a22); }
static int const dims[][2] = {{1,1}, {1,9}, {6,1}, {2,3}, {5,4}, {16,16}, {33,20}, {70,64}};
static double const ext[] = {1, 3, .4}; static int const reso[] = {1, 4, 2}; static double const sg[] = {.3, 1, 2.7};
static double pos(int k, int w) { static double const z[] = {.5, 0, 1, -.05, 1.02, .23, -1.5, 3.1, -40}; return z[k]*(w-1) + (k > 2 ? .31*k-1.9 : 0); }
static void patch1(F f, int e, double sigma, float *p) { int n = (2*reso[e]+1)*(2*reso[e]+1), i, err; double d = 1e30, padded; err = vl_covdet_extract_patch_for_frame(det, p, reso[e], ext[e], sigma, f); mc_op(); mc_case(1); note(f, "patch"); MC_CHECK("error", err == 0, "%dx%d image: patch of frame (%g,%g) [%g %g; %g %g] failed: %d", W, H, f.x, f.y, f.a11, f.a12, f.a21, f.a22, err); levels(f, sigma);
  for (i = 0; i < nl; ++i) { resample(qb, ls+i, f, reso[e], ext[e]); padded = dist(qb, p, n); if (padded < d) d = padded; }
  MC_CHECK("patch", d <= 1e-6*top, "%dx%d image: the patch of extent %g and smoothing %g of frame (%g,%g) [%g %g; %g %g] differs by %g from the image (of range %g) warped by the frame", W, H, ext[e], sigma, f.x, f.y, f.a11, f.a12, f.a21, f.a22, d, top); hs = mc_hash(hs, p, n*4); mc_gcheck(p); }
static void patches(void) { int m, x, y, e, s, k = mc_choose(MC_LEN(dims)), oc = mc_choose(2), meth = mc_choose(2), pt = mc_choose(MC_TIER(3,9)), res = mc_choose(3); static float *p[3]; W = dims[k][0]; H = dims[k][1]; if (pt == 0 || pt > 2) noise(k+10*pt); else { int i; for (i = 0; i < W*H; ++i) img[i] = pt == 1 ? i%W*1.5f - i/W*.7f + 3 : i == (k%2 ? 0 : W*H-1) ? 9 : 0; } hs = 1; mc_note("%dx%d image, pattern %d, first octave %d, octave resolution %d", W, H, pt, -oc, 1+res); for (e = 0; e < 3; ++e) p[e] = mc_galloc((2*reso[e]+1)*(2*reso[e]+1)*4); start(2*meth, -oc, 1+res);
  for (m = 0; m < MC_LEN(mats); ++m) for (x = 0; x < 9; ++x) for (y = 0; y < 9; ++y) for (s = 0; s < 3; ++s) for (e = 0; e < 3; ++e) { patch1(frame(pos(x,W), pos(y,H), mats[m][0], mats[m][1], mats[m][2], mats[m][3]), e, sg[s], p[e]); }
  vl_covdet_delete(det); for (e = 0; e < 3; ++e) mc_gfree(p[e]); mc_state(hs); }
/* the choice of the level, on a fine grid of smoothings */
static void choice(void) { int k = 5+mc_choose(3), oc = mc_choose(3), meth = mc_choose(3), res = 1+mc_choose(3), b = mc_choose(3), num = mc_choose(3), m, s; float *p = mc_galloc(49*4); double z; W = dims[k][0]; H = dims[k][1]; noise(k+70); hs = 21; { static VlCovDetMethod const ms[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HARRIS}; int i; det = vl_covdet_new(ms[meth]); vl_covdet_set_first_octave(det, 1-oc); vl_covdet_set_octave_resolution(det, res); if (b) vl_covdet_set_base_scale(det, b == 1 ? .9 : 2.3); if (num) vl_covdet_set_num_octaves(det, num); MC_CHECK("put", vl_covdet_put_image(det, img, W, H) == 0, "put_image failed"); top = 1e-6; for (i = 0; i < W*H; ++i) if (img[i] > top) top = img[i]; }
  mc_note("%dx%d image, first octave %d, at most %d octaves, octave resolution %d, base scale %g", W, H, 1-oc, num, res, vl_covdet_get_base_scale(det)); for (m = 0; m < 3; ++m) for (s = 0, z = .17; z < 60; z *= MC_BOUND(1.07, 1.045, 1.02), ++s) { F f = frame(.4*W+.21, .55*H-.13, mats[m][0]*1.3, mats[m][1]*1.3, mats[m][2]*1.3, mats[m][3]*1.3); int err = vl_covdet_extract_patch_for_frame(det, p, 3, 2, z, f), i; double d = 1e30, t; mc_op(); mc_case(1); MC_CHECK("error", err == 0, "patch failed: %d", err); levels(f, z); for (i = 0; i < nl; ++i) { resample(qb, ls+i, f, 3, 2); t = dist(qb, p, 49); if (t < d) d = t; } MC_CHECK("level", d <= 1e-6*top, "%dx%d image: the patch of frame (%g,%g) [%g %g; %g %g], smoothing %g, is not taken from the level of smoothing %g (difference %g)", W, H, f.x, f.y, f.a11, f.a12, f.a21, f.a22, z, ls[0].sigma, d); hs = mc_hash(hs, p, 49*4); }
  mc_gfree(p); vl_covdet_delete(det); mc_state(hs); }
/* without padding: an error exactly when the frame's box leaves the image */
static void nopad(void) { int m, x, y, e, s, n, k = mc_choose(MC_LEN(dims)), oc = mc_choose(2), meth = mc_choose(2); float p[81]; W = dims[k][0]; H = dims[k][1]; noise(k+50); hs = 2; mc_note("%dx%d image, first octave %d", W, H, -oc); start(2*meth, -oc, 3); MC_CHECK("default", vl_covdet_get_allow_padded_warping(det), "padded warping is not allowed by default"); vl_covdet_set_allow_padded_warping(det, 0); MC_CHECK("default", !vl_covdet_get_allow_padded_warping(det), "padded warping is still allowed");
  for (m = 0; m < MC_LEN(mats); ++m) for (x = 0; x < 9; ++x) for (y = 0; y < 9; ++y) for (s = 0; s < 3; ++s) for (e = 0; e < 3; ++e) { F f = frame(pos(x,W), pos(y,H), mats[m][0], mats[m][1], mats[m][2], mats[m][3]); int err, i, in = 0, out = 0; n = (2*reso[e]+1)*(2*reso[e]+1); err = vl_covdet_extract_patch_for_frame(det, p, reso[e], ext[e], sg[s], f); mc_op(); mc_case(1); levels(f, sg[s]); for (i = 0; i < nl; ++i) { if (!leaves(ls+i, f, ext[e], 1e-9)) in = 1; if (leaves(ls+i, f, ext[e], -1e-9)) out = 1; }
    MC_CHECK("nopad", err ? out : in, "%dx%d image: patch of extent %g, frame (%g,%g) [%g %g; %g %g], no padding: %s", W, H, ext[e], f.x, f.y, f.a11, f.a12, f.a21, f.a22, err ? "refused although it is inside" : "given although it is partly outside"); if (!err) { double d = 1e30, t; for (i = 0; i < nl; ++i) { resample(qb, ls+i, f, reso[e], ext[e]); t = dist(qb, p, n); if (t < d) d = t; } MC_CHECK("patch", d <= 1e-6*top, "%dx%d image: the patch of frame (%g,%g) [%g %g; %g %g] differs by %g", W, H, f.x, f.y, f.a11, f.a12, f.a21, f.a22, d); hs = mc_hash(hs, p, n*4); } else hs = mc_mix(hs, 1); }
  vl_covdet_delete(det); mc_state(hs); }
/* all sequences of patches: the buffer holding the padded image is reused */
static void sequences(void) { static struct { int m, x, y, e, s; } const op[] = {{0,5,5,0,1}, {5,3,4,1,0}, {13,7,6,1,2}, {2,6,0,2,1}, {0,8,8,0,1}, {3,0,0,1,1}}; int k = mc_choose(3), j, n = MC_TIER(4,6); float p[81]; long live; W = k ? 20 : 5; H = k == 1 ? 16 : 9; noise(k+9); live = mc_live; hs = 3; mc_note("%dx%d image", W, H); start(0, 0, 3); for (j = 0; j < n; ++j) { int o = mc_choose(MC_LEN(op)+1); if (o == MC_LEN(op)) { noise(j+100); W = 11+j; H = 8+3*j; MC_CHECK("put", vl_covdet_put_image(det, img, W, H) == 0, "put_image failed"); top = 10; } else { float *b = mc_galloc(81*4); memset(b, 0x55, 81*4); memcpy(p, b, sizeof p); mc_gfree(b); b = mc_galloc((2*reso[op[o].e]+1)*(2*reso[op[o].e]+1)*4); patch1(frame(pos(op[o].x,W), pos(op[o].y,H), mats[op[o].m][0], mats[op[o].m][1], mats[op[o].m][2], mats[op[o].m][3]), op[o].e, sg[op[o].s], b); mc_gfree(b); } } vl_covdet_delete(det); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live-live); mc_state(hs); }
/* memory runs out: an error, and the next extraction works */
static void oom(void) { int at = 1+mc_choose(3), big = mc_choose(3), err; long live, a0; float *p = mc_galloc(81*4); F f = frame(1, 2, 2, .3, -.2, 2.5), g = frame(2, 40, 3, 0, 0, 3); W = 12; H = 10; noise(5); vl_get_last_error(); live = mc_live; start(0, 0, 3); if (big) { err = vl_covdet_extract_patch_for_frame(det, p, 2, .3, 1, f); MC_CHECK("error", err == 0, "patch failed"); } if (big < 2) { a0 = mc_allocs; mc_fail_at = mc_allocs+at; err = vl_covdet_extract_patch_for_frame(det, p, 4, 3, 1, g); mc_fail_at = 0; MC_CHECK("oom", (mc_allocs >= a0+at) == (err != 0), "memory ran out %s but the function returned %d", mc_allocs >= a0+at ? "" : "later", err); } else { mc_alloc_max = 1<<20; g.a11 = 5000; g.a22 = 700; g.a12 = 13; err = vl_covdet_extract_patch_for_frame(det, p, 4, 3, 1, g); mc_alloc_max = 0; MC_CHECK("oom", err != 0, "a patch needing a copy of 10^9 pixels was made in a megabyte"); } mc_ops(2); hs = 4; patch1(f, 1, 1, p); patch1(frame(2,2,2,0,0,2), 1, 1, p); mc_gfree(p); vl_covdet_delete(det); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live-live); mc_state(mc_mix(at, err)); }
/* translations of image and frame */
static void translate(void) { int sx = 8*mc_choose(4), sy = 8*mc_choose(4), first = mc_choose(2), m, e, s; static float q[81*14*9*2]; int pass, n = 0; for (pass = 0; pass < 2; ++pass) { int i, j, k = 0; unsigned r = 3; W = H = 176; for (i = 0; i < W*H; ++i) img[i] = 1; for (j = 0; j < 7; ++j) for (i = 0; i < 7; ++i) img[(j+70+pass*sy)*W+i+71+pass*sx] = mc_lcg(&r)%100/10.f; start(0, -first, 3); for (m = 0; m < MC_LEN(mats)-1; ++m) for (e = 0; e < 2; ++e) for (s = 0; s < 3; ++s) { float p[81]; int t; F f = frame(74+pass*sx+.25*m, 73+pass*sy-.5*e, mats[m][0], mats[m][1], mats[m][2], mats[m][3]); MC_CHECK("error", vl_covdet_extract_patch_for_frame(det, p, reso[e], ext[e], sg[s], f) == 0, "patch failed"); mc_op(); for (t = 0; t < (2*reso[e]+1)*(2*reso[e]+1); ++t, ++k) { if (!pass) q[k] = p[t]; else MC_CHECK("translation", mc_close(q[k], p[t], 3e-4, 0), "image and frame moved by (%d,%d): the patch of [%g %g; %g %g] changes from %g to %g", sx, sy, f.a11, f.a12, f.a21, f.a22, q[k], p[t]); } n = k; } vl_covdet_delete(det); } mc_case(n); mc_state(mc_hash(sx*100+sy, q, n*4)); }
/* ---- orientations */
#define RES 20
#define EXT 9.
static int svd(F f, double *D, double *U, double *V) { double A[4]; A[0] = f.a11; A[1] = f.a21; A[2] = f.a12; A[3] = f.a22; vl_svd2(D, U, V, A); return 1; }
static double angdiff(double a, double b) { double d = fmod(a-b, 2*M_PI); return d > M_PI ? d-2*M_PI : d < -M_PI ? d+2*M_PI : d; }
static double wrap(double a) { return angdiff(a, 0); }
typedef struct { double th, score, tol; int sure, used; } PK; static PK pk[36]; static int npk;
static void histogram(L const *l, F f, double theta0, double d1, double d2) { static float p[41*41], gx[41*41], gy[41*41]; double h[36], g[36], max = 0, tot = 0; int i, j, it; resample(qb, l, f, RES, EXT); for (i = 0; i < 41*41; ++i) p[i] = qb[i]; { double a = l->sigma/d1, b = l->sigma/d2, st = EXT/RES; a = a < 1 ? sqrt(1-a*a) : 0; b = b < 1 ? sqrt(1-b*b) : 0; vl_imsmooth_f(p, 41, p, 41, 41, 41, a/st, b/st); } vl_imgradient_polar_f(gx, gy, 1, 41, p, 41, 41, 41); memset(h, 0, sizeof h);
  for (j = -RES; j <= RES; ++j) for (i = -RES; i <= RES; ++i) { int k = (j+RES)*41+i+RES; double s = 2*EXT/41/3, w = exp(-.5*(i*i+j*j)*s*s), x = gy[k]/(2*M_PI/36); int b = floor(x); double z = x-b; h[(b+36)%36] += (1-z)*gx[k]*w; h[(b+37)%36] += z*gx[k]*w; tot += gx[k]*w; }
  for (it = 0; it < 6; ++it) { for (i = 0; i < 36; ++i) g[i] = (h[(i+35)%36]+h[i]+h[(i+1)%36])/3; memcpy(h, g, sizeof h); } for (i = 0; i < 36; ++i) if (h[i] > max) max = h[i]; npk = 0; { double tol = 1e-5*tot + 3e-6*top; for (i = 0; i < 36; ++i) { double a = h[(i+35)%36], b = h[i], c = h[(i+1)%36]; PK q; if (b < .8*max-tol || b < a-tol || b < c-tol) continue; q.sure = b > .8*max+tol && b > a+tol && b > c+tol; q.th = 2*M_PI/36*(i-.5*(c-a)/(a+c-2*b)) + theta0; q.score = b; q.tol = q.sure ? 1e-6+2*tol/(2*b-a-c)*2*M_PI/36 : 7; q.used = 0; if (max > 3*tol || 1) pk[npk++] = q; } if (max < 4*tol) for (i = 0; i < npk; ++i) pk[i].sure = 0; } }
/* does the answer fit the peaks? the first n of m are wanted */
static char const *fits(VlCovDetFeatureOrientation const *o, int n, int m, int transposed) { int i, j, sure = 0; for (i = 0; i < npk; ++i) { sure += pk[i].sure; pk[i].used = 0; } if (n > npk) return "too many"; if (n < sure && n < m) return "too few"; for (i = 0; i < n; ++i) { int b = -1; double bd = 1e30; if (i && !(o[i].score <= o[i-1].score)) return "not in order of score"; for (j = 0; j < npk; ++j) if (!pk[j].used) { double d = fabs(angdiff(o[i].angle + (transposed ? M_PI/2 : 0), pk[j].th)); if (d <= pk[j].tol && d < bd) { bd = d; b = j; } } if (b < 0) return "an angle which is no peak of the histogram of gradients"; if (!mc_close(o[i].score, pk[b].score, 1e-5*top, 1e-4)) return "a score which is not the height of the peak"; pk[b].used = 1; } for (j = 0; j < npk; ++j) if (pk[j].sure && !pk[j].used && n && pk[j].score > o[n-1].score*(1+1e-4)+1e-5*top) return "a weaker peak instead of a stronger one"; return 0; }
static void check_or(F f, int m, int tr) { vl_size n = 99; VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(det, &n, f); double D[4], U[4], V[4]; int i; char const *w = "?"; F g = f; note(f, "orientations"); mc_op(); mc_case(1); MC_CHECK("null", o != NULL, "no answer"); MC_CHECK("max", n <= (vl_size)m, "%d orientations, at most %d were asked for", (int)n, m); svd(f, D, U, V); g.a11 = U[0]*D[0]; g.a21 = U[1]*D[0]; g.a12 = U[2]*D[3]; g.a22 = U[3]*D[3]; levels(f, 1); for (i = 0; i < nl && w; ++i) { histogram(ls+i, g, atan2(V[1], V[0]), fabs(D[0]), fabs(D[3])); w = fits(o, n, m, tr); }
  if (w) { char b[500]; int k = 0, j; for (j = 0; j < (int)n && k < 200; ++j) k += sprintf(b+k, " %.5g (%.6g)", o[j].angle, o[j].score); k += sprintf(b+k, "; expected"); for (j = 0; j < npk && k < 400; ++j) k += sprintf(b+k, " %.5g (%.6g%s)", wrap(pk[j].th)-(tr ? M_PI/2 : 0), pk[j].score, pk[j].sure ? "" : "?"); mc_fail("orientation", "%dx%d image, frame (%g,%g) [%g %g; %g %g], at most %d: %s;%s", W, H, f.x, f.y, f.a11, f.a12, f.a21, f.a22, m, w, b); } for (i = 0; i < (int)n; ++i) hs = mc_mix(hs, (int)(o[i].angle*1e4)); }
static void orient(void) { int k = mc_choose(4), pt = mc_choose(MC_TIER(4,20)), tr = mc_choose(2), max = mc_choose(4), oc = mc_choose(2), m, x, y; W = k == 0 ? 14 : k == 1 ? 40 : k == 2 ? 9 : 3; H = k == 2 ? 27 : k == 3 ? 1 : W; if (pt < 2 || pt > 3) noise(60+pt); else { int i; unsigned s = 99; for (i = 0; i < W*H; ++i) img[i] = pt == 2 ? (i%W/3+i/W/3)%2*8.f : 5 - .7f*(i%W) + 1.1f*(i/W) + mc_lcg(&s)%100/70.f; } max = max == 3 ? 9 : 1+max; hs = 7; mc_note("%dx%d image, pattern %d, transposed %d, at most %d", W, H, pt, tr, max); start(1, -oc, 3); MC_CHECK("default", vl_covdet_get_max_num_orientations(det) == 4, "default maximum %d", (int)vl_covdet_get_max_num_orientations(det)); vl_covdet_set_transposed(det, tr); vl_covdet_set_max_num_orientations(det, max); for (m = 0; m < MC_LEN(mats); ++m) for (x = 0; x < 3; ++x) for (y = 0; y < MC_BOUND(2,3,5); ++y) { F f = frame((x+1)*.27*(W-1)+.13, (y+1)*.24*(H-1)+.21, mats[m][0], mats[m][1], mats[m][2], mats[m][3]); if (W*H < 10) f.a11 += .1; check_or(f, max, tr); } vl_covdet_delete(det); mc_state(hs); }
/* ramps: the orientation is the direction of the gradient in the frame */
static void ramps(void) { int a = mc_choose(24), tr = mc_choose(2), q, m; double g[2]; int i; g[0] = cos(a*M_PI/12+.05); g[1] = sin(a*M_PI/12+.05); W = H = 72; for (i = 0; i < W*H; ++i) img[i] = 50 + g[0]*(i%W)+g[1]*(i/W); hs = 8; start(0, 0, 3); vl_covdet_set_transposed(det, tr); for (q = 0; q < 12; ++q) for (m = 0; m < 7; ++m) { static double const B[7][4] = {{1,0,0,1},{1.4,0,0,1.4},{1.5,0,0,.8},{1,.5,0,1},{1,0,0,-1},{.9,.3,.2,-1.2},{.5,0,0,.5}}; double c = cos(q*M_PI/6), s = sin(q*M_PI/6), want; F f = frame(35.2, 36.1, B[m][0]*c+B[m][1]*s, -B[m][0]*s+B[m][1]*c, B[m][2]*c+B[m][3]*s, -B[m][2]*s+B[m][3]*c); vl_size n; VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(det, &n, f); mc_op(); mc_case(1); want = atan2(f.a12*g[0]+f.a22*g[1], f.a11*g[0]+f.a21*g[1]) - (tr ? M_PI/2 : 0); MC_CHECK("ramp", n == 1, "%d orientations on a ramp", (int)n); MC_CHECK("ramp", fabs(angdiff(o[0].angle, want)) < .02, "ramp of direction %g, frame [%g %g; %g %g]%s: orientation %g, expected %g", a*M_PI/12+.05, f.a11, f.a12, f.a21, f.a22, tr ? ", transposed" : "", wrap(o[0].angle), wrap(want)); hs = mc_mix(hs, (int)(o[0].angle*100)); } vl_covdet_delete(det); mc_state(hs); }
/* rotations of the image by quarter turns and of the frame */
static void rotations(void) { int pt = mc_choose(MC_TIER(12,60)), m = mc_choose(8), turn; double ref[36]; int n0 = 0; for (turn = 0; turn < 4; ++turn) { int i, N = 25; static float src[25*25]; double x = 12+2.3, y = 12-1.7; vl_size n; VlCovDetFeatureOrientation *o; F f; double a[4]; int t; W = H = N; noise(pt+200); memcpy(src, img, sizeof src); for (i = 0; i < N*N; ++i) { int u = i%N, v = i/N, k; for (k = 0; k < turn; ++k) { int z = u; u = v; v = N-1-z; } /* inverse turns */ img[i] = src[v*N+u]; } x -= 12; y -= 12; memcpy(a, mats[m], sizeof a); for (t = 0; t < turn; ++t) { double z = x; x = -y; y = z; z = a[0]; a[0] = -a[2]; a[2] = z; z = a[1]; a[1] = -a[3]; a[3] = z; } f = frame(x+12, y+12, a[0], a[1], a[2], a[3]); start(0, 0, 3); vl_covdet_set_max_num_orientations(det, 3); o = vl_covdet_extract_orientations_for_frame(det, &n, f); mc_op(); mc_case(1); if (!turn) { n0 = n; for (i = 0; i < (int)n; ++i) { ref[2*i] = o[i].angle; ref[2*i+1] = o[i].score; } } else { int amb = 0, j; MC_CHECK("turn", (int)n == n0 || n0 == 0 || n == 0 || fabs(o[n-1].score/ref[1]-.8) < 1e-3 || fabs(ref[2*n0-1]/ref[1]-.8) < 1e-3, "%d orientations, %d after %d quarter turns", n0, (int)n, turn); for (j = 0; j < n0 && j < (int)n; ++j) { double e = fabs(angdiff(o[j].angle, ref[2*j])); if (j && ref[2*j-1] < ref[2*j+1]*1.001) amb = 1; if (j+1 < n0 && ref[2*j+3] > ref[2*j+1]*.999) amb = 1; if (!amb) MC_CHECK("turn", e < .01 && mc_close(o[j].score, ref[2*j+1], 1e-4, 1e-3), "after %d quarter turns of image and frame the orientation %g (%g) becomes %g (%g)", turn, ref[2*j], ref[2*j+1], o[j].angle, o[j].score); } } vl_covdet_delete(det); } mc_state(mc_hash(pt, ref, n0*8)); }
/* ---- Laplacian scales */
#define LR 16
static float bank[10][33*33];
static void filters(void) { static int done; int s; if (done) return; done = 1; for (s = 0; s < 10; ++s) { float *p = bank[s]; double z = pow(2, -.5+s/9.), d = z*z-.5, st = .5*sqrt(.5); memset(p, 0, sizeof bank[0]); p[16*33+16] = -4; p[16*33+15] = p[16*33+17] = p[15*33+16] = p[17*33+16] = 1; d = d > 0 ? sqrt(d)/st : 0; vl_imsmooth_f(p, 33, p, 33, 33, 33, d, d); } }
typedef struct { double scale, score, lo, hi; int sure; } SC; static SC sc[10]; static int nsc;
static void laplacian(L const *l, F f, double th) { double z[10], tol[10], act = l->sigma/sqrt(smin(f)*smax(f)); int k, q; filters(); resample(qb, l, f, LR, LR*.5*sqrt(.5)); for (k = 0; k < 10; ++k) { double s = pow(2, -.5+k/9.), a = 0, m = 0; s = s*s-.5+act*act; for (q = 0; q < 33*33; ++q) { a += bank[k][q]*(float)qb[q]; m += fabs(bank[k][q]*qb[q]); } z[k] = a*s; tol[k] = 3e-6*m*s + 1e-9; } nsc = 0; for (k = 1; k < 9; ++k) { double a = z[k-1], b = z[k], c = z[k+1], t = tol[k]+tol[k-1]+tol[k+1], d = fabs(b)+2*t >= th ? 1 : 0, up = b > a-t && b > c-t, dn = b < a+t && b < c+t; SC s; double dk, g; if (!d || !(up || dn)) continue; s.sure = ((b > a+t && b > c+t) || (b < a-t && b < c-t)) && fabs(b) > th+2*t; dk = -.5*(c-a)/(c+a-2*b); g = pow(2, -.5+(k+dk)/9); s.scale = sqrt(g*g-.5+act*act); s.score = b+.25*(c-a)*dk; { double e = 3*t/fabs(c+a-2*b); if (e > .01) s.sure = 0; s.lo = e; } s.hi = t; sc[nsc++] = s; } }
static char const *fits_lap(VlCovDetFeatureLaplacianScale const *r, int n) { int i, j = 0, sure = 0; for (i = 0; i < nsc; ++i) sure += sc[i].sure; if (n > nsc) return "too many"; if (n < (sure < 4 ? sure : 4)) return "too few"; for (i = 0; i < n; ++i) { for (;; ++j) { if (j == nsc) return "a scale which is no extremum"; if (!sc[j].sure || mc_close(r[i].scale, sc[j].scale, 0, 1e-5+sc[j].lo)) break; return "the wrong scale"; } if (sc[j].sure && !mc_close(r[i].score, sc[j].score, 4*sc[j].hi, 1e-5)) return "the wrong score"; ++j; } return 0; }
static void check_lap(F f, double th) { vl_size n = 99; VlCovDetFeatureLaplacianScale *r = vl_covdet_extract_laplacian_scales_for_frame(det, &n, f); int i; char const *w = "?"; note(f, "scales"); mc_op(); mc_case(1); MC_CHECK("null", r != NULL && n <= 4, "%d scales", (int)n); levels(f, sqrt(.5)); for (i = 0; i < nl && w; ++i) { laplacian(ls+i, f, th); w = fits_lap(r, n); } if (w) { char b[400]; int k = 0, j; for (j = 0; j < (int)n && k < 150; ++j) k += sprintf(b+k, " %.6g (%.6g)", r[j].scale, r[j].score); k += sprintf(b+k, "; expected"); for (j = 0; j < nsc && k < 300; ++j) k += sprintf(b+k, " %.6g (%.6g%s)", sc[j].scale, sc[j].score, sc[j].sure ? "" : "?"); mc_fail("scale", "%dx%d image, frame (%g,%g) [%g %g; %g %g]: %s;%s", W, H, f.x, f.y, f.a11, f.a12, f.a21, f.a22, w, b); } for (i = 0; i < (int)n; ++i) hs = mc_mix(hs, (int)(r[i].scale*1e4)); }
static void scales(void) { int k = mc_choose(3), pt = mc_choose(MC_TIER(3,20)), t = mc_choose(3), oc = mc_choose(2), m, x, y; double th = t == 0 ? .01 : t == 1 ? 0 : 1.5; W = k == 0 ? 15 : k == 1 ? 40 : 9; H = k == 2 ? 27 : W; noise(300+pt); hs = 9; mc_note("%dx%d image %d, threshold %g", W, H, pt, th); start(1, -oc, 3); MC_CHECK("default", vl_covdet_get_laplacian_peak_threshold(det) == .01, "default threshold %g", vl_covdet_get_laplacian_peak_threshold(det)); vl_covdet_set_laplacian_peak_threshold(det, th); MC_CHECK("default", vl_covdet_get_laplacian_peak_threshold(det) == th, "threshold %g", vl_covdet_get_laplacian_peak_threshold(det)); for (m = 0; m < MC_LEN(mats); ++m) for (x = 0; x < 4; ++x) for (y = 0; y < MC_BOUND(2,4,4); ++y) check_lap(frame((x+.7)*.21*(W-1)+.13, (y+.6)*.2*(H-1)+.21, mats[m][0], mats[m][1], mats[m][2], mats[m][3]), th); vl_covdet_delete(det); mc_state(hs); }
/* Gaussian blobs: the scale found is the blob's */
static void blob(double x, double y, double xx, double xy, double yy, double amp) { int i; double d = xx*yy-xy*xy; for (i = 0; i < W*H; ++i) { double u = i%W-x, v = i/W-y; img[i] = 5 + amp*exp(-.5*(yy*u*u-2*xy*u*v+xx*v*v)/d); } }
static void blobs(void) { int b = mc_choose(9), sgn = mc_choose(2), oc = mc_choose(2), m = mc_choose(4), k; double s = 3.3*pow(2, b/4.); W = H = 96; hs = 10; blob(47.3, 48.6, s*s, 0, s*s, sgn ? -4 : 4); mc_note("%s blob of standard deviation %g", sgn ? "dark" : "bright", s); start(1+m%2, -oc, 3); for (k = 1; k < 6; ++k) { double eff = sqrt(s*s-.25), r = eff*pow(2, (k-3)/8.), c = m > 1 ? .8 : 1, z = m > 1 ? .6 : 0; vl_size n; F f = frame(47.3, 48.6, r*c, -r*z, r*z, r*c); VlCovDetFeatureLaplacianScale *q = vl_covdet_extract_laplacian_scales_for_frame(det, &n, f); mc_op(); mc_case(1); MC_CHECK("blob", n >= 1, "%d scales for a blob of scale %g seen in a frame of scale %g", (int)n, eff, r); { vl_size z; for (z = 1; z < n; ++z) if (fabs(q[z].score) > fabs(q[0].score)) q[0] = q[z]; } MC_CHECK("blob", mc_close(q[0].scale*r, eff, 0, .08), "blob of scale %g seen in a frame of scale %g: scale %g", eff, r, q[0].scale*r); MC_CHECK("blob", sgn ? q[0].score > 0 : q[0].score < 0, "the score of a %s blob is %g", sgn ? "dark" : "bright", q[0].score); hs = mc_mix(hs, (int)(q[0].scale*100)); } vl_covdet_delete(det); mc_state(hs); }
/* ---- affine shape */
static void check_af(F f, int tr, F *out) { F a; int err = vl_covdet_extract_affine_shape_for_frame(det, &a, f); double r0 = smin(f), r1, c, s; note(f, "shape"); mc_op(); mc_case(1); MC_CHECK("error", err == 0, "affine adaptation of frame (%g,%g) [%g %g; %g %g] failed: %d", f.x, f.y, f.a11, f.a12, f.a21, f.a22, err); MC_CHECK("finite", isfinite(a.a11) && isfinite(a.a12) && isfinite(a.a21) && isfinite(a.a22), "frame (%g,%g) [%g %g; %g %g] is adapted to [%g %g; %g %g]", f.x, f.y, f.a11, f.a12, f.a21, f.a22, a.a11, a.a12, a.a21, a.a22); MC_CHECK("centre", a.x == f.x && a.y == f.y, "the centre has moved");
  c = tr ? a.a11 : a.a22; s = tr ? a.a21 : a.a12; MC_CHECK("upright", c > 0 && fabs(s) < 1e-4*c, "the adapted frame [%g %g; %g %g] is not upright", a.a11, a.a12, a.a21, a.a22); r1 = smin(a); MC_CHECK("smallest", mc_close(r0, r1, 0, 1e-4), "the smallest singular value changed from %g to %g: [%g %g; %g %g] -> [%g %g; %g %g]", r0, r1, f.a11, f.a12, f.a21, f.a22, a.a11, a.a12, a.a21, a.a22); MC_CHECK("anisotropy", smax(a) <= 5.001*r1 || smax(a) <= 1.001*smax(f), "anisotropy %g", smax(a)/r1); MC_CHECK("reflection", (a.a11*a.a22-a.a12*a.a21 > 0) == (f.a11*f.a22-f.a12*f.a21 > 0), "the frame [%g %g; %g %g] was adapted to [%g %g; %g %g] of opposite handedness", f.a11, f.a12, f.a21, f.a22, a.a11, a.a12, a.a21, a.a22); *out = a; hs = mc_mix(hs, (int)(a.a11*1e3)); }
static int same(F a, F b, double t) { double p = a.a11*a.a11+a.a12*a.a12, q = a.a11*a.a21+a.a12*a.a22, r = a.a21*a.a21+a.a22*a.a22, u = b.a11*b.a11+b.a12*b.a12, v = b.a11*b.a21+b.a12*b.a22, w = b.a21*b.a21+b.a22*b.a22; double z = (u+w)*t; return fabs(p-u) <= z && fabs(q-v) <= z && fabs(r-w) <= z; }
static void shapes(void) { int k = mc_choose(3), pt = mc_choose(MC_TIER(4,20)), tr = mc_choose(2), ac = mc_choose(2), m, x, y; F a; W = k == 0 ? 15 : k == 1 ? 40 : 9; H = k == 2 ? 27 : W; noise(400+pt); if (pt == 3) { int i; for (i = 0; i < W*H; ++i) img[i] = (i%W/4+i/W/4)%2*5; } hs = 11; mc_note("%dx%d image %d, %s smoothing", W, H, pt, ac ? "accurate" : "usual"); start(1, 0, 3); vl_covdet_set_aa_accurate_smoothing(det, ac); vl_covdet_set_transposed(det, tr); MC_CHECK("getter", !vl_covdet_get_aa_accurate_smoothing(det) == !ac && !vl_covdet_get_transposed(det) == !tr, "parameters read back differ"); for (m = 0; m < MC_LEN(mats); ++m) for (x = 0; x < 3; ++x) for (y = 0; y < MC_BOUND(2,3,5); ++y) check_af(frame((x+.7)*.25*(W-1)+.13, (y+.6)*.25*(H-1)+.21, mats[m][0], mats[m][1], mats[m][2], mats[m][3]), tr, &a); vl_covdet_delete(det); mc_state(hs); }
/* no shape: constant images, ramps */
static void flat(void) { int d = mc_choose(9), v = mc_choose(4), ac = mc_choose(2), m, i; F a; static double const g[][2] = {{0,0},{1,0},{0,1},{1,1},{1,-1},{-2,1},{.5,3},{-1,-1},{.1,.1}}; W = H = 64; for (i = 0; i < W*H; ++i) img[i] = v*7 + (g[d][0]*(i%W) + g[d][1]*(i/W))*(v%2 ? .3f : 1); hs = 12; start(1+v/2, 0, 3); vl_covdet_set_aa_accurate_smoothing(det, ac); for (m = 0; m < MC_LEN(mats)-1; ++m) { F f = frame(31+(v%3)*.3, 32-.2*d, mats[m][0]*.6, mats[m][1]*.6, mats[m][2]*.6, mats[m][3]*.6); vl_size n; check_af(f, 0, &a); MC_CHECK("flat", d || same(a, f, 1e-6), "constant image: the shape [%g %g; %g %g] becomes [%g %g; %g %g]", f.a11, f.a12, f.a21, f.a22, a.a11, a.a12, a.a21, a.a22); if (!d) { vl_covdet_extract_orientations_for_frame(det, &n, f); MC_CHECK("flat", n == 0, "%d orientations on a constant image", (int)n); vl_covdet_extract_laplacian_scales_for_frame(det, &n, f); MC_CHECK("flat", n == 0, "%d Laplacian scales on a constant image", (int)n); } } vl_covdet_delete(det); mc_state(hs); }
/* affine Gaussian blobs: the shape found is the blob's */
static void ellipses(void) { int th = mc_choose(8), e = mc_choose(4), ac = mc_choose(2), m; static double const ratio[] = {1, 1.5, 2, 2.6}; double c = cos(th*M_PI/8+.1), s = sin(th*M_PI/8+.1), s1 = 6*ratio[e], s2 = 6, xx, xy, yy; W = H = 110; hs = 13; xx = s1*s1*c*c+s2*s2*s*s; yy = s1*s1*s*s+s2*s2*c*c; xy = (s1*s1-s2*s2)*c*s; blob(54.4, 55.7, xx, xy, yy, 5); start(1, 0, 3); vl_covdet_set_aa_accurate_smoothing(det, ac); mc_note("blob of axes %g, %g at angle %g, %s smoothing", s1, s2, th*M_PI/8+.1, ac ? "accurate" : "usual"); for (m = 0; m < 5; ++m) { static double const B[5][4] = {{3,0,0,3},{0,-3,3,0},{3,0,0,-3},{2.5,0,0,4},{3.5,.7,0,3}}; F f = frame(54.4, 55.7, B[m][0], B[m][1], B[m][2], B[m][3]), a, b; double x, S1; levels(f, 1); x = ac ? -.25 : ls[0].sigma*ls[0].sigma - .25; S1 = smin(f)*sqrt((s1*s1+x)/(s2*s2+x)); b = frame(0, 0, S1*c, -smin(f)*s, S1*s, smin(f)*c); check_af(f, 0, &a); MC_CHECK("ellipse", same(a, b, .06), "blob of covariance [%g %g %g]: the frame [%g %g; %g %g] is adapted to [%g %g; %g %g], not to its shape", xx, xy, yy, f.a11, f.a12, f.a21, f.a22, a.a11, a.a12, a.a21, a.a22); } vl_covdet_delete(det); mc_state(hs); }
/* ---- the lists of features follow the answers for single frames */
static void lists(void) { int n = mc_choose(5), op = mc_choose(3), sc0 = mc_choose(3), pt = mc_choose(4), max = 1+mc_choose(4), i, j, k, N, want; VlCovDetFeature in[4], *f; F w[40]; double ws[40]; vl_size cnt, cn; int src[40]; vl_size st[5] = {0}; vl_size const *q; W = H = 24; noise(500+pt); if (pt == 3) for (i = 0; i < W*H; ++i) img[i] = 2; hs = 14; start(1, 0, 3); vl_covdet_set_max_num_orientations(det, max); mc_note("%d frames, %s", n, op == 0 ? "orientations" : op == 1 ? "scales" : "shape"); memset(in, 0, sizeof in);
  for (i = 0; i < n; ++i) { in[i].frame = frame(5+4*i+.3, 17-3.2*i, mats[2*i][0], mats[2*i][1], mats[2*i][2], mats[2*i][3]); in[i].peakScore = sc0 == 0 ? 0 : sc0 == 1 ? i+1 : i%2; in[i].edgeScore = i+.5f; in[i].orientationScore = -1; in[i].laplacianScaleScore = -2; MC_CHECK("append", vl_covdet_append_feature(det, in+i) == 0, "append failed"); } want = 0;
  for (i = 0; i < n; ++i) { F a = in[i].frame; if (op == 0) { VlCovDetFeatureOrientation *o = vl_covdet_extract_orientations_for_frame(det, &cnt, a); for (k = 0; k < (int)cnt || k == 0; ++k) { double c = cnt ? cos(o[k].angle) : 1, s = cnt ? sin(o[k].angle) : 0; w[want] = frame(a.x, a.y, a.a11*c+a.a12*s, -a.a11*s+a.a12*c, a.a21*c+a.a22*s, -a.a21*s+a.a22*c); ws[want] = cnt ? o[k].score : -1; src[want++] = i; } } else if (op == 1) { VlCovDetFeatureLaplacianScale *o = vl_covdet_extract_laplacian_scales_for_frame(det, &cnt, a); ++st[cnt]; for (k = 0; k < (int)cnt; ++k) { double z = o[k].scale; w[want] = frame(a.x, a.y, a.a11*z, a.a12*z, a.a21*z, a.a22*z); ws[want] = o[k].score; src[want++] = i; } } else { vl_covdet_extract_affine_shape_for_frame(det, &w[want], a); ws[want] = -1; src[want++] = i; } }
  if (op == 0) vl_covdet_extract_orientations(det); else if (op == 1) vl_covdet_extract_laplacian_scales(det); else vl_covdet_extract_affine_shape(det); mc_ops(n+1); N = vl_covdet_get_num_features(det); f = vl_covdet_get_features(det); MC_CHECK("number", N == want, "%d frames with %d %s give %d features", n, want, op == 0 ? "orientations" : op == 1 ? "scales" : "shapes", N);
  for (i = 0; i < want; ++i) { for (j = 0; j < N; ++j) { F b = f[j].frame, a = w[i]; VlCovDetFeature const *s = in+src[i]; if (a.x == b.x && a.y == b.y && mc_close(a.a11, b.a11, 1e-5, 1e-5) && mc_close(a.a12, b.a12, 1e-5, 1e-5) && mc_close(a.a21, b.a21, 1e-5, 1e-5) && mc_close(a.a22, b.a22, 1e-5, 1e-5) && f[j].peakScore == s->peakScore && f[j].edgeScore == s->edgeScore && mc_close(f[j].orientationScore, op == 0 ? ws[i] : -1, 1e-6, 1e-6) && mc_close(f[j].laplacianScaleScore, op == 1 ? ws[i] : -2, 1e-6, 1e-6)) break; } MC_CHECK("list", j < N, "the list lacks frame %d with %s number %d", src[i], op == 0 ? "orientation" : op == 1 ? "scale" : "shape", i); }
  if (op == 1) { q = vl_covdet_get_laplacian_scales_statistics(det, &cn); for (i = 0; i <= (int)cn && i < 5; ++i) MC_CHECK("statistics", q[i] == st[i], "%d features are said to have %d scales; %d have", (int)q[i], i, (int)st[i]); MC_CHECK("statistics", cn == 4, "statistics of at most %d scales", (int)cn); } vl_covdet_delete(det); mc_state(mc_mix(want, op)); }
mc_suite mc_suites[] = {
 {"patches", patches, "8 image sizes x 3 (thorough 9) patterns x first octave 0/-1 x 2 methods x octave resolutions 1-3 x 14 affine maps x 81 positions inside and outside x 3 smoothings x 3 resolutions and extents"},
 {"choice", choice, "3 image sizes x first octaves 1, 0, -1 x 3 methods x octave resolutions 1-3 x 3 base scales x 3 limits of the octaves x 3 frames x 84 to 297 smoothings"},
 {"nopad", nopad, "the same without padding: 8 sizes x first octaves x methods x frames"},
 {"sequences", sequences, "all sequences of 4 (thorough 6) patches or new images from 7, one detector"},
 {"oom", oom, "allocation failures and refused huge patches"},
 {"translate", translate, "16 translations x first octaves x frames", MC_NOASAN},
 {"orient", orient, "4 image sizes x 4 (thorough 20) patterns x transposed x maxima 1, 2, 3, 9 x first octaves x 14 affine maps x 6 or 9 positions, against the histogram of gradients"},
 {"ramps", ramps, "24 directions x transposed x 84 frames"},
 {"rotations", rotations, "quarter turns of 12 (thorough 60) random images x 8 frames", MC_NOASAN},
 {"scales", scales, "3 image sizes x 3 (thorough 20) images x 3 thresholds x first octaves x 14 affine maps x 12 or 16 positions, against the bank of Laplacians"},
 {"blobs", blobs, "blobs of 9 scales x 2 signs x first octaves x 5 frame scales", MC_NOASAN},
 {"shapes", shapes, "3 image sizes x 4 (thorough 20) images x transposed x smoothing x 14 affine maps x 6 or 9 positions"},
 {"flat", flat, "constant images and ramps of 8 directions x 13 affine maps"},
 {"ellipses", ellipses, "Gaussian blobs of 8 angles x 4 anisotropies x smoothing x 5 initial frames", MC_NOASAN},
 {"lists", lists, "0 to 4 appended frames x scores x 3 extractions x 4 images x maxima"},
 {0}};
