/* C34: covariant detectors: geometry, cornerness, extrema and their refinement, suppression, lists of features, histories, symmetries. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/covdet.h>
#include <vl/scalespace.h>
#define MAXP (200*200)
typedef VlCovDetFeature F;
static int const meth[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HARRIS, VL_COVDET_METHOD_HESSIAN_LAPLACE, VL_COVDET_METHOD_HARRIS_LAPLACE};
static char const *const mname[] = {"DoG", "Hessian", "MultiscaleHessian", "MultiscaleHarris", "HessianLaplace", "HarrisLaplace"};
typedef struct { int m, w, h, first, res, num; double base, peak, edge; } P; /* a configuration; peak or edge < 0: the default */
static P p; static float *image; static long sure, unsure;
static VlCovDet *make(P q) { VlCovDet *d = vl_covdet_new(meth[q.m]); if (q.first != -1) vl_covdet_set_first_octave(d, q.first); if (q.res != 3) vl_covdet_set_octave_resolution(d, q.res); if (q.num) vl_covdet_set_num_octaves(d, q.num); if (q.base > 0) vl_covdet_set_base_scale(d, q.base); if (q.peak >= 0) vl_covdet_set_peak_threshold(d, q.peak); if (q.edge >= 0) vl_covdet_set_edge_threshold(d, q.edge); return d; }
static void describe(void) { mc_note("%s on %dx%d, first octave %d, resolution %d, octaves %d, base %g, thresholds %g %g", mname[p.m], p.w, p.h, p.first, p.res, p.num, p.base, p.peak, p.edge); }
static double defpeak(int m) { return m == 0 ? 0.01 : m == 1 || m == 2 || m == 4 ? 0.003 : 0.000002; }
/* ---- the scale space ---- */
static VlScaleSpaceGeometry geometry(void) { VlScaleSpaceGeometry g = vl_scalespace_get_default_geometry(p.w, p.h); int m = p.w < p.h ? p.w : p.h, lo; double v = (m - 1) / 15.; lo = -60; while (pow(2, lo+1) <= v) ++lo; if (p.num > 0 && lo > p.first + p.num - 1) lo = p.first + p.num - 1; if (lo < p.first) lo = p.first;
  g.firstOctave = p.first; g.lastOctave = lo; g.octaveResolution = p.res; g.baseScale = (p.base > 0 ? p.base : 1.6) * pow(2, 1. / p.res); g.octaveFirstSubdivision = p.m < 2 ? -1 : 0; g.octaveLastSubdivision = p.m == 0 ? p.res + 1 : p.m == 1 ? p.res : p.res - 1; return g; }
static int same(VlScaleSpaceGeometry a, VlScaleSpaceGeometry b) { return a.width == b.width && a.height == b.height && a.firstOctave == b.firstOctave && a.lastOctave == b.lastOctave && a.octaveResolution == b.octaveResolution && a.octaveFirstSubdivision == b.octaveFirstSubdivision && a.octaveLastSubdivision == b.octaveLastSubdivision && mc_close(a.baseScale, b.baseScale, 0, 1e-12) && a.nominalScale == b.nominalScale; }
static void check_gss(VlCovDet *d) { VlScaleSpaceGeometry g = geometry(), q = vl_scalespace_get_geometry(vl_covdet_get_gss(d)); VlScaleSpace *s; int o, i; MC_CHECK("geometry", same(g, q), "%s, %dx%d, first octave %d, at most %d octaves, resolution %d: octaves %d..%d, levels %d..%d, resolution %d, base %g; expected %d..%d, %d..%d, %d, %g", mname[p.m], p.w, p.h, p.first, p.num, p.res, (int)q.firstOctave, (int)q.lastOctave, (int)q.octaveFirstSubdivision, (int)q.octaveLastSubdivision, (int)q.octaveResolution, q.baseScale, (int)g.firstOctave, (int)g.lastOctave, (int)g.octaveFirstSubdivision, (int)g.octaveLastSubdivision, (int)g.octaveResolution, g.baseScale);
  s = vl_scalespace_new_with_geometry(q); vl_scalespace_put_image(s, image);
  for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(s, o); for (i = g.octaveFirstSubdivision; i <= g.octaveLastSubdivision; ++i) { float const *a = vl_scalespace_get_level_const(s, o, i), *b = vl_scalespace_get_level_const(vl_covdet_get_gss(d), o, i); int k, n = og.width*og.height; for (k = 0; k < n; ++k) MC_CHECK("levels", mc_close(a[k], b[k], 1e-6, 1e-6), "%s: pixel %d of level (%d,%d) is %g, the scale space of the image has %g", mname[p.m], k, o, i, b[k], a[k]); } } vl_scalespace_delete(s); }
/* ---- cornerness ---- */
static int smooth(double *dst, double const *src, int w, int h, double s) { static double k[4096], tmp[MAXP]; int R = (int)ceil(3*s), i, x, y, ok = fabs(3*s - floor(3*s + .5)) > 1e-4; double m = 0; for (i = -R; i <= R; ++i) m += k[i+R] = i ? exp(-0.5*i*i/(s*s)) : 1;
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double a = 0; for (i = -R; i <= R; ++i) { int xx = x+i; xx = xx < 0 ? 0 : xx >= w ? w-1 : xx; a += k[i+R]*src[y*w+xx]; } tmp[y*w+x] = a/m; }
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double a = 0; for (i = -R; i <= R; ++i) { int yy = y+i; yy = yy < 0 ? 0 : yy >= h ? h-1 : yy; a += k[i+R]*tmp[yy*w+x]; } dst[y*w+x] = a/m; } return ok; }
static double grad(float const *l, int n, int st, int i) { return n < 2 ? 0 : i == 0 ? l[st] - l[0] : i == n-1 ? l[i*st] - l[(i-1)*st] : .5*(l[(i+1)*st] - l[(i-1)*st]); }
static int response(double *r, float const *l, float const *next, int w, int h, double step, double sigma, double *tol) { static double xx[MAXP], yy[MAXP], xy[MAXP]; int x, y, ok = 1; double f = pow(sigma/step, 4), m = 0; for (x = 0; x < w*h; ++x) if (fabs(l[x]) > m) m = fabs(l[x]);
  if (p.m == 0) { for (x = 0; x < w*h; ++x) r[x] = (double)l[x] - next[x]; *tol = 1e-6*m; }
  else if (p.m == 1 || p.m == 2 || p.m == 4) { if (w < 3 || h < 3) memset(r, 0, 8*w*h); else for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { int a = x < 1 ? 1 : x > w-2 ? w-2 : x, b = y < 1 ? 1 : y > h-2 ? h-2 : y; float const *q = l + b*w + a; double dxx = (double)q[1]+q[-1]-2.*q[0], dyy = (double)q[w]+q[-w]-2.*q[0], dxy = .25*((double)q[w+1]+q[-w-1]-q[w-1]-q[-w+1]); r[y*w+x] = f*(dxx*dyy-dxy*dxy); } *tol = f*m*m*4e-6; }
  else { for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double gx = grad(l+y*w, w, 1, x), gy = grad(l+x, h, w, y); int i = y*w+x; xx[i] = gx*gx; yy[i] = gy*gy; xy[i] = gx*gy; } ok &= smooth(xx, xx, w, h, 1.4*sigma/step); ok &= smooth(yy, yy, w, h, 1.4*sigma/step); ok &= smooth(xy, xy, w, h, 1.4*sigma/step); for (x = 0; x < w*h; ++x) { double t = xx[x]+yy[x]; r[x] = f*(xx[x]*yy[x]-xy[x]*xy[x]-.05*t*t); } *tol = f*m*m*m*m*4e-6; }
  return ok; }
static void check_css(VlCovDet *d) { static double r[MAXP]; VlScaleSpaceGeometry g = geometry(), c = vl_scalespace_get_geometry(vl_covdet_get_css(d)); int o, s, i; VlScaleSpace *G = vl_covdet_get_gss(d), *C = vl_covdet_get_css(d); if (p.m == 0) --g.octaveLastSubdivision; MC_CHECK("cgeometry", same(g, c), "%s: the cornerness has octaves %d..%d and levels %d..%d", mname[p.m], (int)c.firstOctave, (int)c.lastOctave, (int)c.octaveFirstSubdivision, (int)c.octaveLastSubdivision);
  for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(G, o); for (s = g.octaveFirstSubdivision; s <= g.octaveLastSubdivision; ++s) { double sg = g.baseScale*pow(2, o + (double)s/p.res), tol; float const *v = vl_scalespace_get_level_const(C, o, s); if (response(r, vl_scalespace_get_level_const(G, o, s), p.m == 0 ? vl_scalespace_get_level_const(G, o, s+1) : 0, og.width, og.height, og.step, sg, &tol)) for (i = 0; i < (int)(og.width*og.height); ++i) MC_CHECK("response", fabs(v[i] - r[i]) <= tol + 1e-5*fabs(r[i]), "%s: the cornerness at (%d,%d) of level (%d,%d) is %g, expected %g", mname[p.m], i % (int)og.width, i / (int)og.width, o, s, v[i], r[i]); } } }
/* ---- extrema of the cornerness and their refinement ---- */
typedef struct { double x, y, sigma, score, edge, st; int maybe, used; } K;
static K ks[20000]; static int nk, nmaybe;
static int nearly(double a, double b, double t) { return fabs(a-b) <= t*(1+fabs(b)); }
static void candidate(VlScaleSpaceGeometry g, float const *const *lv, int o, int s, int x, int y, int w, int h, int D, double tp, double te) { /* lv[s-1], lv[s], lv[s+1] */
  int it, dx = 0, dy = 0, maybe = 0, sing = 0; double b[3], G[3], A[3][3], vmax = 0, e = 0, val, tr, det2, step = pow(2,o); K k;
#define V(a,c,z) ((double)lv[s+(z)][(y+(c))*w+x+(a)])
  for (it = 0;; ++it) { int i, j, q; double det, scale = 0, c[3][3], inv = 0; x += dx; y += dy; vmax = 0; for (i = -1; i <= 1; ++i) for (j = -1; j <= 1; ++j) for (q = D == 3 ? -1 : 0; q <= (D == 3); ++q) if (fabs(V(i,j,q)) > vmax) vmax = fabs(V(i,j,q));
    G[0] = .5*(V(1,0,0)-V(-1,0,0)); G[1] = .5*(V(0,1,0)-V(0,-1,0)); G[2] = D == 3 ? .5*(V(0,0,1)-V(0,0,-1)) : 0; memset(A, 0, sizeof A);
    A[0][0] = V(1,0,0)+V(-1,0,0)-2*V(0,0,0); A[1][1] = V(0,1,0)+V(0,-1,0)-2*V(0,0,0); A[0][1] = A[1][0] = .25*(V(1,1,0)+V(-1,-1,0)-V(-1,1,0)-V(1,-1,0));
    if (D == 3) { A[2][2] = V(0,0,1)+V(0,0,-1)-2*V(0,0,0); A[0][2] = A[2][0] = .25*(V(1,0,1)+V(-1,0,-1)-V(-1,0,1)-V(1,0,-1)); A[1][2] = A[2][1] = .25*(V(0,1,1)+V(0,-1,-1)-V(0,-1,1)-V(0,1,-1)); }
    for (i = 0; i < 9; ++i) if (fabs((&A[0][0])[i]) > scale) scale = fabs((&A[0][0])[i]); if (D == 2) A[2][2] = scale ? scale : 1;
    for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) { int a1 = (i+1)%3, a2 = (i+2)%3, b1 = (j+1)%3, b2 = (j+2)%3; c[i][j] = A[a1][b1]*A[a2][b2] - A[a1][b2]*A[a2][b1]; }
    det = A[0][0]*c[0][0] + A[0][1]*c[0][1] + A[0][2]*c[0][2]; sing = scale == 0 || fabs(det) <= 1e-13*scale*scale*scale; if (sing && det != 0) maybe = 1; if (scale < 1e-8 || (!sing && fabs(det) < 1e-8*scale*scale)) maybe = 1;
    for (i = 0; i < 3; ++i) { b[i] = sing ? 0 : -(c[0][i]*G[0] + c[1][i]*G[1] + c[2][i]*G[2])/det; for (j = 0; j < 3; ++j) if (!sing && fabs(c[i][j]/det) > inv) inv = fabs(c[i][j]/det); }
    if (sing) return; /* singular: not stable */
    e = 2e-7*vmax*inv*(2 + fabs(b[0]) + fabs(b[1]) + fabs(b[2])); if (!(e < 1e-3)) { maybe = 1; e = 1e-3; }
    if (nearly(fabs(b[0]), .6, 1e-6+e) || nearly(fabs(b[1]), .6, 1e-6+e)) maybe = 1;
    dx = b[0] > .6 && x < w-2 ? 1 : b[0] < -.6 && x > 1 ? -1 : 0; dy = b[1] > .6 && y < h-2 ? 1 : b[1] < -.6 && y > 1 ? -1 : 0; if ((!dx && !dy) || it == 4) break; }
  val = fabs(V(0,0,0) + .5*(G[0]*b[0]+G[1]*b[1]+G[2]*b[2])); tr = A[0][0]+A[1][1]; det2 = A[0][0]*A[1][1]-A[0][1]*A[0][1]; k.x = x+b[0]; k.y = y+b[1];
  { double q = tr*tr/det2, es = 1e-6 + 4e-7*vmax*(fabs(tr)+1e-30)/fabs(det2); k.edge = det2 > 0 ? (.5*q-1)+sqrt((.25*q-1 > 0 ? .25*q-1 : 0)*q) : 1e30; if (fabs(det2) <= 1e-9*tr*tr || fabs(tr) < 1e-6*sqrt(fabs(det2)) || (det2 > 0 && nearly(k.edge, te, 1e-4 + 10*es)) || !(es < 1e-2)) maybe = 1; }
  if (nearly(val, tp, 1e-6) || fabs(val - tp) < 4e-7*vmax) maybe = 1; { int i; for (i = 0; i < D; ++i) if (nearly(fabs(b[i]), 1.5, 1e-6+e)) maybe = 1; } { double zz = s + b[2], t = 1e-5+e; if (fabs(k.x) < t || fabs(k.x-(w-1)) < t || fabs(k.y) < t || fabs(k.y-(h-1)) < t || (D == 3 && (fabs(zz) < t || fabs(zz - (g.octaveLastSubdivision-g.octaveFirstSubdivision)) < t))) maybe = 1;
  if (!maybe && !(val > tp && det2 > 0 && k.edge < te && fabs(b[0]) < 1.5 && fabs(b[1]) < 1.5 && fabs(b[2]) < 1.5 && k.x >= 0 && k.x <= w-1 && k.y >= 0 && k.y <= h-1 && (D == 2 || (zz >= 0 && zz <= g.octaveLastSubdivision-g.octaveFirstSubdivision)))) return;
  k.sigma = g.baseScale*pow(2, o + (zz + g.octaveFirstSubdivision)/g.octaveResolution); } k.x *= step; k.y *= step; k.st = step; k.score = V(0,0,0) + .5*(G[0]*b[0]+G[1]*b[1]+G[2]*b[2]); k.maybe = maybe; k.used = 0; if (nk < MC_LEN(ks)) ks[nk++] = k; nmaybe += maybe; if (maybe) ++unsure; else ++sure; }
static void expected(VlCovDet *d) { VlScaleSpace *C = vl_covdet_get_css(d); VlScaleSpaceGeometry g = vl_scalespace_get_geometry(C); int o, s, x, y, e, a, b, c, D = p.m < 2 ? 3 : 2, n = g.octaveLastSubdivision-g.octaveFirstSubdivision+1; double tp = p.peak >= 0 ? p.peak : defpeak(p.m), te = p.edge >= 0 ? p.edge : 10; nk = nmaybe = 0;
  MC_CHECK("getters", vl_covdet_get_peak_threshold(d) == tp && vl_covdet_get_edge_threshold(d) == te && vl_covdet_get_first_octave(d) == p.first && (int)vl_covdet_get_octave_resolution(d) == p.res && mc_close(vl_covdet_get_base_scale(d), p.base > 0 ? p.base : 1.6, 0, 0), "parameters read back differ: %g %g", vl_covdet_get_peak_threshold(d), vl_covdet_get_edge_threshold(d));
  for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(C, o); int w = og.width, h = og.height; float const *lv[32]; for (s = 0; s < n; ++s) lv[s] = vl_scalespace_get_level_const(C, o, s + g.octaveFirstSubdivision);
    for (s = D == 3 ? 1 : 0; s < (D == 3 ? n-1 : n); ++s) for (y = 1; y < h-1; ++y) for (x = 1; x < w-1; ++x) for (e = -1; e <= 1; e += 2) { double v = e*(double)lv[s][y*w+x]; int ok = v >= .8*tp; for (c = D == 3 ? -1 : 0; c <= (D == 3) && ok; ++c) for (a = -1; a <= 1 && ok; ++a) for (b = -1; b <= 1 && ok; ++b) if ((a || b || c) && !(v > e*(double)lv[s+c][(y+a)*w+x+b])) ok = 0; if (ok) candidate(g, lv, o, s, x, y, w, h, D, tp, te); } } }
static void basic(VlCovDet *d, char const *key) { int i, n = vl_covdet_get_num_features(d); F *f = vl_covdet_get_features(d); for (i = 0; i < n; ++i) { F q = f[i]; MC_CHECK(key, q.frame.x >= 0 && q.frame.x <= p.w - (p.first < 0 ? pow(2, p.first) : 1) + 1e-4 && q.frame.y >= 0 && q.frame.y <= p.h - (p.first < 0 ? pow(2, p.first) : 1) + 1e-4, "feature at (%g,%g) outside the %dx%d image", q.frame.x, q.frame.y, p.w, p.h); MC_CHECK(key, q.frame.a11 > 0 && q.frame.a11 == q.frame.a22 && q.frame.a12 == 0 && q.frame.a21 == 0 && isfinite(q.frame.a11), "feature with the shape %g %g %g %g", q.frame.a11, q.frame.a12, q.frame.a21, q.frame.a22); MC_CHECK(key, q.orientationScore == 0 && (p.m > 3 || q.laplacianScaleScore == 0), "scores not cleared"); MC_CHECK(key, fabs(q.peakScore) > vl_covdet_get_peak_threshold(d)*(1-1e-6) && q.edgeScore < vl_covdet_get_edge_threshold(d)*(1+1e-6), "feature with the scores %g %g, below the thresholds", q.peakScore, q.edgeScore); } }
static uint64_t check_list(VlCovDet *d, char const *key) { int i, j, n = vl_covdet_get_num_features(d); F *f = vl_covdet_get_features(d); uint64_t hs = n; basic(d, "feature"); expected(d); mc_case(1);
  for (i = 0; i < n; ++i) { K *best = 0; double bd = 1e30; for (j = 0; j < nk; ++j) if (!ks[j].used && !ks[j].maybe) { K *k = ks+j; double t = (fabs(k->x-f[i].frame.x)+fabs(k->y-f[i].frame.y))/k->st + fabs(log(k->sigma/f[i].frame.a11)); if (t < bd && t < 4e-3 && mc_close(k->score, f[i].peakScore, 0, 1e-3)) { bd = t; best = k; } }
    if (best) { best->used = 1; MC_CHECK("edge", mc_close(best->edge, f[i].edgeScore, 2e-3, 2e-3), "%s: edge score %g, expected %g", mname[p.m], f[i].edgeScore, best->edge); hs = mc_mix(hs, (uint64_t)(64*best->x) * 1000003 + (uint64_t)(64*best->y)); continue; }
    if (nmaybe > 0) { --nmaybe; continue; }
    mc_fail(key, "%s: the feature (%g,%g) sigma %g score %g edge %g is not a refined extremum above the thresholds", mname[p.m], f[i].frame.x, f[i].frame.y, f[i].frame.a11, f[i].peakScore, f[i].edgeScore); }
  for (j = 0; j < nk; ++j) MC_CHECK(key, ks[j].used || ks[j].maybe, "%s: the extremum (%g,%g) sigma %g score %g edge %g is missing among %d features", mname[p.m], ks[j].x, ks[j].y, ks[j].sigma, ks[j].score, ks[j].edge, n); return hs; }
static int cmpf(void const *a, void const *b) { return memcmp(a, b, sizeof(F)); }
static int find(F *l, int n, F q, char *used) { int i; for (i = 0; i < n; ++i) if (!used[i] && l[i].frame.x == q.frame.x && l[i].frame.y == q.frame.y && l[i].frame.a11 == q.frame.a11 && l[i].peakScore == q.peakScore) { used[i] = 1; return i; } return -1; }
static int covers(F a, F b, double tol, double slack) { double s = a.frame.a11, t = b.frame.a11; return s < (1+tol)*t*(1+slack) && t < (1+tol)*s*(1+slack) && fabs(a.frame.x-b.frame.x) < tol*s*(1+slack) && fabs(a.frame.y-b.frame.y) < tol*s*(1+slack) && fabs(a.peakScore) > fabs(b.peakScore); }
static void check_suppressed(VlCovDet *d, double tol) { int nu = vl_covdet_get_num_features(d), n, i, j; F *u = malloc((nu+1)*sizeof(F)), *f; char *used = calloc(nu+1, 1); if (nu) memcpy(u, vl_covdet_get_features(d), nu*sizeof(F)); MC_CHECK("getters", vl_covdet_get_non_extrema_suppression_threshold(d) == 0, "threshold"); vl_covdet_set_non_extrema_suppression_threshold(d, tol); MC_CHECK("getters", vl_covdet_get_non_extrema_suppression_threshold(d) == tol, "threshold"); vl_covdet_detect(d); mc_op(); n = vl_covdet_get_num_features(d); f = vl_covdet_get_features(d); mc_case(1);
  for (i = 0; i < n; ++i) MC_CHECK("suppress", find(u, nu, f[i], used) >= 0, "%s: the suppression made up a feature (%g,%g)", mname[p.m], f[i].frame.x, f[i].frame.y); MC_CHECK("suppress", (int)vl_covdet_get_num_non_extrema_suppressed(d) == nu - n, "%s: %d features suppressed, %d counted", mname[p.m], nu - n, (int)vl_covdet_get_num_non_extrema_suppressed(d));
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) if (i != j) { MC_CHECK("suppress", !covers(f[i], f[j], tol, -1e-5), "%s: the feature (%g,%g) sigma %g score %g survives next to (%g,%g) sigma %g score %g (tolerance %g)", mname[p.m], f[j].frame.x, f[j].frame.y, f[j].frame.a11, f[j].peakScore, f[i].frame.x, f[i].frame.y, f[i].frame.a11, f[i].peakScore, tol); MC_CHECK("twice", f[i].frame.x != f[j].frame.x || f[i].frame.y != f[j].frame.y || f[i].frame.a11 != f[j].frame.a11, "%s: the feature (%g,%g) sigma %g is reported twice", mname[p.m], f[i].frame.x, f[i].frame.y, f[i].frame.a11); }
  for (i = 0; i < nu; ++i) if (!used[i]) { for (j = 0; j < nu; ++j) if (j != i && (covers(u[j], u[i], tol, 1e-5) || (u[j].frame.x == u[i].frame.x && u[j].frame.y == u[i].frame.y && u[j].frame.a11 == u[i].frame.a11))) break; MC_CHECK("suppress", j < nu, "%s: the feature (%g,%g) sigma %g score %g is suppressed with no stronger one near (tolerance %g)", mname[p.m], u[i].frame.x, u[i].frame.y, u[i].frame.a11, u[i].peakScore, tol); }
  free(u); free(used); }
/* Laplace methods: the extrema of the multiscale method with their Laplacian scales */
static void check_laplace(VlCovDet *d) { P q = p; VlCovDet *e; int n = vl_covdet_get_num_features(d), i; F *f = vl_covdet_get_features(d), *g; q.m -= 2; e = make(q); vl_covdet_set_non_extrema_suppression_threshold(e, 0); vl_covdet_put_image(e, image, p.w, p.h); vl_covdet_detect(e); vl_covdet_extract_laplacian_scales(e); mc_ops(3); mc_case(1); MC_CHECK("laplace", (int)vl_covdet_get_num_features(e) == n, "%s: %d features, but %d with %s and Laplacian scales", mname[p.m], n, (int)vl_covdet_get_num_features(e), mname[q.m]); g = vl_covdet_get_features(e); if (n) { f = memcpy(malloc(n*sizeof(F)), f, n*sizeof(F)); g = memcpy(malloc(n*sizeof(F)), g, n*sizeof(F)); qsort(f, n, sizeof(F), cmpf); qsort(g, n, sizeof(F), cmpf); for (i = 0; i < n; ++i) MC_CHECK("laplace", !memcmp(f+i, g+i, sizeof(F)), "%s: feature %d differs from the one of %s with Laplacian scales", mname[p.m], i, mname[q.m]); free(f); free(g); } vl_covdet_delete(e); }
static void (*extra)(VlCovDet *);
static void one(VlCovDet *d) { vl_covdet_set_non_extrema_suppression_threshold(d, 0); MC_CHECK("status", vl_covdet_put_image(d, image, p.w, p.h) == VL_ERR_OK, "status"); vl_covdet_detect(d); mc_ops(2); check_gss(d); check_css(d); if (p.m < 4) mc_state(check_list(d, "extrema")); else { basic(d, "feature"); check_laplace(d); } check_suppressed(d, .5); }
static void fresh(void) { long live; VlCovDet *d; (void)vl_get_last_error(); live = mc_live; d = make(p); describe(); one(d); vl_covdet_delete(d); MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live - live); }
static void conf(int m, int w, int h, int first, int res, double base, double peak, double edge) { p = (P){m, w, h, first, res, 0, base, peak, edge}; image = mc_galloc(4*w*h); memset(image, 0, 4*w*h); }
static void noise(uint32_t s, int mode) { int i; for (i = 0; i < p.w*p.h; ++i) { int x = i % p.w, y = i / p.w; image[i] = mode == 0 ? (mc_lcg(&s) % 1000) / 1000.f : mode == 1 ? (((x*3 + y*5 + s) / 7) & 1) : mode == 2 ? .5 + .5*sin(.9*x + .3*y*y*.1 + s) * cos(.7*y - .2*x) : (mc_lcg(&s) % 4) / 3.f; } }
/* ---- suites ---- */
static void layouts(void) { /* spots anywhere: one, two */
  int m = mc_choose(6), bse = mc_choose(2), n, a, b, k; VlCovDet *d; conf(m, MC_BOUND(9,10,12), MC_BOUND(8,9,11), bse ? 0 : -1, bse ? 1 : 3, bse ? .4 : 0, bse ? 0 : -1, -1); n = p.w*p.h; a = mc_choose(n); describe(); d = make(p);
  for (b = a; b < n; b += MC_BOUND(7,3,1)) for (k = 0; k < (b == a ? 1 : 2); ++k) { memset(image, 0, 4*n); image[a] = 1; image[b] += k ? -.7 : .8; one(d); mc_gcheck(image); } vl_covdet_delete(d); mc_gfree(image); }
static void alphabet(void) { /* all 3x3 binary patterns in the middle, barely smoothed and smoothed */
  int m = mc_choose(4), k, c = mc_choose(32), v, i; VlCovDet *d; conf(m, 7 + mc_choose(2), 7, 0, 1 + mc_choose(2), mc_choose(2) ? .3 : .9, 0, mc_choose(2) ? 10 : 3); d = make(p); describe(); for (k = 0; k < 16; ++k) { if (mc_asan && k % 3) continue; v = c*16 + k; memset(image, 0, 4*p.w*p.h); for (i = 0; i < 9; ++i) image[(2 + i/3)*p.w + 2 + i%3] = v >> i & 1; one(d); } vl_covdet_delete(d); mc_gfree(image); }
static void refinement(void) { /* unsmoothed image: extrema whose refinement moves, all departures around a spot */
  int m = mc_choose(2) ? 2 : 1, i, c, k; static float const v[] = {.97, .8, -1, .5}; conf(m, 8, 7, 0, 1, .24, 0, mc_choose(2) ? 40 : 4); c = 3*8 + 2 + mc_choose(3); image[c] = 1; for (i = 0; i < 24; ++i) { static int const ox[] = {1,0,1,-1, 2,0,2,-2,1,-1,2,-2,-1,1,0,-1,-1,0,1,-2,-2,2,2,-2}, oy[] = {0,1,1,1, 0,2,1,1,2,2,2,2,0,-1,-1,-1,2,-2,-2,-1,0,-1,-2,-2}; int q = mc_dev(5); k = c + oy[i]*8 + ox[i]; if (q && k >= 0 && k < 56) image[k] = v[q-1]; } fresh(); mc_gfree(image); }
static void configs(void) { static double const bs[] = {0, .4, 2.3}, pk[] = {-1, 0, .02, .2}, eg[] = {-1, 1.5, 4}; int m = mc_choose(6), first = mc_choose(4) - 2, res = 1 + mc_choose(5), num = mc_choose(4), b = mc_choose(3), t = mc_choose(4), k; VlCovDet *d; static int const sz[][2] = {{33,40},{20,17},{64,31}}; int z = mc_choose(MC_BOUND(1,2,3)); if ((m+first+res+num+b+t) % MC_BOUND(3,2,1)) mc_skip(); if (first > 0 && z == 1 && num) mc_skip(); conf(m, sz[z][0], sz[z][1], first, res, bs[b], pk[t], eg[(t+b+res) % 3]); if (first == -2 && p.w > 40) { mc_gfree(image); mc_skip(); } p.num = num; describe(); d = make(p); for (k = 0; k < MC_BOUND(1,2,4); ++k) { noise(3+k*7, (k+t+m) % 4); one(d); mc_gcheck(image); } vl_covdet_delete(d); mc_gfree(image); }
static void sizes(void) { int m = mc_choose(6), w = 1 + mc_choose(MC_BOUND(10,16,24)), h = 1 + mc_choose(MC_BOUND(10,16,24)), first, res; for (first = -1; first <= 1; ++first) for (res = 1; res <= 3; res += 2) { if (first > 0 && (w < 2 || h < 2)) continue; conf(m, w, h, first, res, 0, -1, -1); noise(w*31+h, (w+h) % 3); fresh(); mc_gfree(image); } }
static void blobs(void) { /* a Gaussian blob is found where it is, with its size */
  static double const off[] = {.1, .35, .6, .85}; double sb = 2. + .5*mc_choose(5), cx, cy, amp; int m = mc_choose(2), i, j, x, y, n, best, neg; VlCovDet *d; for (neg = 0; neg < 2; ++neg) for (i = 0; i < 4; ++i) for (j = 0; j < MC_BOUND(1,4,4); ++j) { conf(m, 48, 44, -1, 3, 0, -1, -1); cx = 23 + off[i]; cy = 20 + off[j]; amp = neg ? -1 : 1; for (y = 0; y < p.h; ++y) for (x = 0; x < p.w; ++x) image[y*p.w+x] = .2 + amp*exp(-.5*((x-cx)*(x-cx)+(y-cy)*(y-cy))/(sb*sb)); d = make(p); vl_covdet_put_image(d, image, p.w, p.h); vl_covdet_detect(d); mc_ops(2); mc_case(1); n = vl_covdet_get_num_features(d); best = -1; { F *f = vl_covdet_get_features(d); int k; for (k = 0; k < n; ++k) if (best < 0 || fabs(f[k].peakScore) > fabs(f[best].peakScore)) best = k; MC_CHECK("blob", best >= 0 && fabs(f[best].frame.x - cx) < .25 && fabs(f[best].frame.y - cy) < .25 && fabs(log(f[best].frame.a11 / sqrt(sb*sb + (m ? 0 : 0)))) < .25, "%s: the blob at (%g,%g) of size %g is found at (%g,%g) with size %g (%d features)", mname[m], cx, cy, sb, best < 0 ? -1 : f[best].frame.x, best < 0 ? -1 : f[best].frame.y, best < 0 ? -1 : f[best].frame.a11, n); if (m == 1) MC_CHECK("blobsign", f[best].peakScore > 0, "a blob has a negative Hessian score"); } vl_covdet_delete(d); mc_gfree(image); } }
/* ---- symmetries ---- */
static void symmetry(void) { /* the 8 symmetries of the square, changes of intensity */
  int m = mc_choose(4), n = 13 + mc_choose(4), t, s = mc_choose(MC_BOUND(2,6,20)), x, y, i, j; P q; float *a; VlCovDet *d; F *f, *g; int nf, ng; conf(m, n, n, 0, 1 + s % 3, 0, -1, -1); noise(s*11+n, s % 3 == 1 ? 2 : 0); q = p; a = memcpy(malloc(4*n*n), image, 4*n*n); d = make(p); vl_covdet_set_non_extrema_suppression_threshold(d, 0); vl_covdet_put_image(d, image, n, n); vl_covdet_detect(d); expected(d); if (nmaybe) { vl_covdet_delete(d); mc_gfree(image); free(a); mc_skip(); } nf = vl_covdet_get_num_features(d); f = memcpy(malloc(nf*sizeof(F)+1), vl_covdet_get_features(d), nf*sizeof(F));
  for (t = 1; t < 11; ++t) { double k = t == 8 ? 3 : t == 9 ? .5 : t == 10 ? -1 : 1, pw = m == 0 ? k : m == 3 ? k*k*k*k : k*k; if (t == 10 && m == 3) continue; for (y = 0; y < n; ++y) for (x = 0; x < n; ++x) { int X = x, Y = y; if (t < 8) { if (t & 1) X = n-1-X; if (t & 2) Y = n-1-Y; if (t & 4) { int z = X; X = Y; Y = z; } } image[Y*n+X] = k*a[y*n+x] + (t == 9 ? 2 : 0); } vl_covdet_set_peak_threshold(d, defpeak(m)*fabs(pw)); vl_covdet_put_image(d, image, n, n); vl_covdet_detect(d); mc_ops(2); mc_case(1); ng = vl_covdet_get_num_features(d); g = vl_covdet_get_features(d); MC_CHECK("symmetry", ng == nf, "%s: %d features become %d under the transformation %d", mname[m], nf, ng, t);
    for (i = 0; i < nf; ++i) { double X = f[i].frame.x, Y = f[i].frame.y; if (t < 8) { if (t & 1) X = n-1-X; if (t & 2) Y = n-1-Y; if (t & 4) { double z = X; X = Y; Y = z; } } for (j = 0; j < ng; ++j) if (fabs(g[j].frame.x-X) < 2e-3 && fabs(g[j].frame.y-Y) < 2e-3 && mc_close(g[j].frame.a11, f[i].frame.a11, 0, 2e-3) && mc_close(g[j].peakScore, f[i].peakScore*pw, 0, 2e-3)) break; MC_CHECK("symmetry", j < ng, "%s: the feature (%g,%g) sigma %g score %g has no counterpart under the transformation %d", mname[m], f[i].frame.x, f[i].frame.y, f[i].frame.a11, f[i].peakScore, t); } }
  vl_covdet_delete(d); free(a); free(f); mc_gfree(image); }
/* ---- histories ---- */
#define HW 17
#define HH 15
static float im[2][HW*HH]; static VlCovDet *orc[2];
static F model[4096]; static int nm;
static void compare(VlCovDet *d, char const *what) { int n = vl_covdet_get_num_features(d); MC_CHECK("list", n == nm, "after %s there are %d features, expected %d", what, n, nm); if (n) { F *a = memcpy(malloc(n*sizeof(F)), vl_covdet_get_features(d), n*sizeof(F)), *b = memcpy(malloc(n*sizeof(F)), model, n*sizeof(F)); int i; uint64_t h = n; qsort(a, n, sizeof(F), cmpf); qsort(b, n, sizeof(F), cmpf); for (i = 0; i < n; ++i) MC_CHECK("list", !memcmp(a+i, b+i, sizeof(F)), "after %s feature %d of %d is (%g,%g; %g %g %g %g; %g %g %g %g), expected (%g,%g; %g %g %g %g; %g %g %g %g)", what, i, n, a[i].frame.x, a[i].frame.y, a[i].frame.a11, a[i].frame.a12, a[i].frame.a21, a[i].frame.a22, a[i].peakScore, a[i].edgeScore, a[i].orientationScore, a[i].laplacianScaleScore, b[i].frame.x, b[i].frame.y, b[i].frame.a11, b[i].frame.a12, b[i].frame.a21, b[i].frame.a22, b[i].peakScore, b[i].edgeScore, b[i].orientationScore, b[i].laplacianScaleScore); h = mc_hash(h, a, n*sizeof(F)); mc_state(h); free(a); free(b); } }
static VlFrameOrientedEllipse turn(VlFrameOrientedEllipse f, double th) { VlFrameOrientedEllipse g = f; double A[4] = {f.a11, f.a21, f.a12, f.a22}, c = cos(th), s = sin(th); g.a11 = A[0]*c + A[2]*s; g.a21 = A[1]*c + A[3]*s; g.a12 = -A[0]*s + A[2]*c; g.a22 = -A[1]*s + A[3]*c; return g; }
static int inside(VlFrameOrientedEllipse f, double e) { double hx = (fabs((double)f.a11)+fabs((double)f.a12))*e, hy = (fabs((double)f.a21)+fabs((double)f.a22))*e; return f.x-hx >= 0 && f.x+hx <= HW-1 && f.y-hy >= 0 && f.y+hy <= HH-1; }
static void history(void) { static char const *const on[] = {"detect", "the first image", "the second image", "append", "append outside", "drop outside 0", "drop outside 1", "orientations", "affine shapes", "Laplacian scales", "reset", "append unscored"}; static int const order[] = {0,3,7,10,2,5,6,9,8,4,11,1}; int depth = MC_BOUND(3,4,5), i, j, k, n, cur = 0, have = 1, m = mc_choose(2) ? 3 : 0, det = 0; VlCovDet *d; long live; uint32_t s; P q; char what[400] = "";
  (void)vl_get_last_error(); for (i = 0; i < 2; ++i) { memset(im[i], 0, sizeof im[i]); s = 5+i; for (j = 0; j < 3; ++j) { int cx = 4 + mc_lcg(&s) % 9, cy = 4 + mc_lcg(&s) % 8; double sb = 1.5 + j*.5; for (k = 0; k < HW*HH; ++k) { int x = k % HW - cx, y = k / HW - cy; im[i][k] += exp(-.5*(x*x + (1+i)*y*y + .5*x*y)/(sb*sb)); } } }
  live = mc_live; q = p = (P){m, HW, HH, -1, 3, 0, 0, -1, -1}; for (i = 0; i < 2; ++i) { orc[i] = make(q); vl_covdet_put_image(orc[i], im[i], HW, HH); } d = make(q); vl_covdet_put_image(d, im[0], HW, HH); nm = 0;
  for (k = 0; k < depth; ++k) { int op = order[mc_choose(12)]; F f; memset(&f, 0, sizeof f); f.frame.x = 7.3; f.frame.y = 6.1; f.frame.a11 = 2.1; f.frame.a12 = .3; f.frame.a21 = -.2; f.frame.a22 = 1.7; f.peakScore = 3; f.edgeScore = 2;
    if (!have && op != 1 && op != 2 && op != 3 && op != 10) { for (j = 0; j < 2; ++j) vl_covdet_delete(orc[j]); vl_covdet_delete(d); mc_skip(); }
    strcat(strcat(what, k ? ", " : ""), on[op]); mc_op();
    switch (op) {
    case 0: vl_covdet_detect(d); { VlCovDet *e = make(q); vl_covdet_put_image(e, im[cur], HW, HH); vl_covdet_detect(e); nm = vl_covdet_get_num_features(e); if (nm) memcpy(model, vl_covdet_get_features(e), nm*sizeof(F)); vl_covdet_delete(e); } det = 1; break;
    case 1: case 2: cur = op - 1; vl_covdet_put_image(d, im[cur], HW, HH); have = 1; break;
    case 4: f.frame.x = -.5; if (k % 2) { f.frame.x = 5; f.frame.y = HH; } /* fall through */
    case 3: case 11: if (op == 11) f.peakScore = 0; MC_CHECK("status", vl_covdet_append_feature(d, &f) == VL_ERR_OK, "status of append"); model[nm++] = f; break;
    case 5: case 6: vl_covdet_drop_features_outside(d, op - 5); for (i = j = 0; i < nm; ++i) if (inside(model[i].frame, op - 5)) model[j++] = model[i]; nm = j; break;
    case 7: vl_covdet_extract_orientations(d); n = nm; for (i = 0; i < n; ++i) { vl_size no; VlCovDetFeatureOrientation *r = vl_covdet_extract_orientations_for_frame(orc[cur], &no, model[i].frame); F b = model[i]; for (j = 0; j < (int)no; ++j) { F *t = j ? &model[nm++] : &model[i]; *t = b; t->orientationScore = r[j].score; t->frame = turn(b.frame, r[j].angle); } } break;
    case 8: vl_covdet_extract_affine_shape(d); for (i = j = 0; i < nm; ++i) { VlFrameOrientedEllipse a; if (vl_covdet_extract_affine_shape_for_frame(orc[cur], &a, model[i].frame) == VL_ERR_OK) { model[j] = model[i]; model[j++].frame = a; } } nm = j; break;
    case 9: vl_covdet_extract_laplacian_scales(d); { static F out[8192]; int no = 0, st[8] = {0}; vl_size const *q2; vl_size nq; for (i = 0; i < nm; ++i) { vl_size ns; VlCovDetFeatureLaplacianScale *r = vl_covdet_extract_laplacian_scales_for_frame(orc[cur], &ns, model[i].frame); ++st[ns]; for (j = 0; j < (int)ns; ++j) { F t = model[i]; t.laplacianScaleScore = r[j].score; t.frame.a11 *= r[j].scale; t.frame.a12 *= r[j].scale; t.frame.a21 *= r[j].scale; t.frame.a22 *= r[j].scale; out[no++] = t; } } memcpy(model, out, no*sizeof(F)); nm = no; q2 = vl_covdet_get_laplacian_scales_statistics(d, &nq); MC_CHECK("statistics", nq == 4, "%d counts of scales", (int)nq); for (i = 0; i <= 4; ++i) MC_CHECK("statistics", (int)q2[i] == st[i], "%d features have %d scales, expected %d", (int)q2[i], i, st[i]); } break;
    default: if (k % 2) vl_covdet_set_base_scale(d, 1.6); else vl_covdet_reset(d); nm = 0; have = 0; }
    compare(d, what); }
  mc_case(1); (void)det; vl_covdet_delete(d); for (i = 0; i < 2; ++i) vl_covdet_delete(orc[i]); MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live - live); }
static void images(void) { /* a detector given a second image answers as a fresh one */
  static int const sz[][2] = {{17,15},{17,15},{33,20},{15,17},{9,9},{1,5}}; int m = mc_choose(6), k, o = mc_choose(6); VlCovDet *d, *e; P q = {m, 0, 0, -1, 3, 0, 0, -1, -1}; d = make(q); for (k = 0; k < 3; ++k) { int z = k == 0 ? o : mc_choose(6), n; p = q; p.w = sz[z][0]; p.h = sz[z][1]; image = mc_galloc(4*p.w*p.h); noise(z+1, z % 3); if (mc_choose(2)) { vl_covdet_set_peak_threshold(d, defpeak(m)*.1); q.peak = p.peak = defpeak(m)*.1; } vl_covdet_put_image(d, image, p.w, p.h); vl_covdet_detect(d); mc_ops(2); mc_case(1); e = make(p); vl_covdet_put_image(e, image, p.w, p.h); vl_covdet_detect(e); n = vl_covdet_get_num_features(e); MC_CHECK("second", (int)vl_covdet_get_num_features(d) == n, "%s: image %d gives %d features, %d with a fresh detector", mname[m], k, (int)vl_covdet_get_num_features(d), n); MC_CHECK("second", !n || !memcmp(vl_covdet_get_features(d), vl_covdet_get_features(e), n*sizeof(F)), "%s: image %d gives other features than a fresh detector", mname[m], k); MC_CHECK("second", vl_covdet_get_num_non_extrema_suppressed(d) == vl_covdet_get_num_non_extrema_suppressed(e), "suppressed"); check_gss(d); check_css(d); vl_covdet_delete(e); mc_gfree(image); } vl_covdet_delete(d); }
static void appends(void) { /* long lists, and memory failing */
  VlCovDet *d = vl_covdet_new(meth[mc_choose(6)]); int n = mc_choose(3)*1000 + 5, i, fails = 0, at = mc_choose(3); F f; memset(&f, 0, sizeof f); for (i = 0; i < n; ++i) { int r; static int last = -1; f.frame.x = i; f.peakScore = i+1; if (at && i % (at*500) == 1 && last != i) mc_fail_at = mc_allocs + 1; r = vl_covdet_append_feature(d, &f); mc_op(); if (r) { ++fails; MC_CHECK("oom", r == VL_ERR_ALLOC && (int)vl_covdet_get_num_features(d) == i, "after a failed append there are %d features (status %d)", (int)vl_covdet_get_num_features(d), r); last = i--; mc_fail_at = 0; continue; } } mc_fail_at = 0; mc_case(1); MC_CHECK("append", (int)vl_covdet_get_num_features(d) == n, "%d features", (int)vl_covdet_get_num_features(d)); for (i = 0; i < n; ++i) { F *g = vl_covdet_get_features(d); MC_CHECK("append", g[i].frame.x == i && g[i].peakScore == i+1, "feature %d changed", i); } vl_covdet_delete(d); }
static void oom(void) { /* the scale space cannot be allocated: reported, nothing lost, usable afterwards */
  int k, r; VlCovDet *d; long l1, l0; conf(mc_choose(6), 40, 40, -1, 3, 0, -1, -1); noise(1, 0); d = make(p); l0 = mc_live; for (k = 1; k <= 3; ++k) { mc_fail_at = mc_allocs + k; r = vl_covdet_put_image(d, image, p.w, p.h); mc_fail_at = 0; mc_op(); mc_case(1); MC_CHECK("oom", r == VL_ERR_ALLOC, "status %d when allocation %d fails", r, k); MC_CHECK("oom", mc_live == l0, "leak"); } r = vl_covdet_put_image(d, image, p.w, p.h); MC_CHECK("oom", r == VL_ERR_OK, "status %d", r); vl_covdet_detect(d); one(d); l1 = mc_live; (void)l1; vl_covdet_delete(d); mc_gfree(image); }
mc_suite mc_suites[] = {
 {"layouts", layouts, "6 methods: images 10x9 (12x11 thorough) with one spot anywhere and a second spot or hole at every third position (any position), smoothed or not: scale space, cornerness, extrema, refinement, suppression"},
 {"alphabet", alphabet, "all 512 binary 3x3 patterns x 4 methods x 2 widths x 2 resolutions x 2 smoothings x 2 edge thresholds"},
 {"refinement", refinement, "unsmoothed spots with all departures of at most 2 (3 thorough) of 24 neighbours, 4 values each", 0, 2, 3},
 {"configs", configs, "6 methods x first octave -2..1 x resolution 1..5 x number of octaves (any, 1..3) x 3 base scales x 4 thresholds x 2 (3) sizes"},
 {"sizes", sizes, "all sizes 1..16 x 1..16 (24) x 6 methods x first octave -1..1 x resolution 1, 3"},
 {"blobs", blobs, "Gaussian blobs of 5 sizes, 16 subpixel positions, both signs: found in place with their size"},
 {"symmetry", symmetry, "6 (20) images x 4 sizes x 4 methods under the symmetries of the square and changes of intensity"},
 {"history", history, "2 methods: all sequences of 4 (5 thorough) of 12 operations against a list model"},
 {"images", images, "6 methods: all sequences of 3 images out of 6, with and without a change of threshold, against a fresh detector"},
 {"appends", appends, "lists of up to 2005 features, with failing allocations"},
 {"oom", oom, "scale-space allocations failing"},
 {0}};
