/* C20: the homogeneous kernel map: oddness, homogeneity, spectrum, approximation, range of the table. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/homkermap.h>
#include <float.h>
static VlHomogeneousKernelType const kt[] = {VlHomogeneousKernelIntersection, VlHomogeneousKernelChi2, VlHomogeneousKernelJS};
static VlHomogeneousKernelMapWindowType const wt[] = {VlHomogeneousKernelMapWindowUniform, VlHomogeneousKernelMapWindowRectangular};
static double const gam[] = {1, 0.5, 2, 0.8}, per[] = {-1, 5, 0, 12, 8.5};
static double sig(int k, double l) { l = fabs(l); switch (k) { case 0: return exp(-l/2); case 1: return 1 / cosh(l/2); default: return 0.5*exp(l/2)*log1p(exp(-l))/M_LN2 + 0.5*exp(-l/2)*(l + log1p(exp(-l)))/M_LN2; } }
static double spec(int k, double w) { switch (k) { case 0: return 2/M_PI/(1+4*w*w); case 1: return 1/cosh(M_PI*w); default: return 2/log(4.)/cosh(M_PI*w)/(1+4*w*w); } }
/* spectrum of the signature cut to one period, by Simpson's rule */
static double cutspec(int k, double w, double period) { int i, n = 4000; double s = 0, a = period/2, h = a / n; for (i = 0; i <= n; ++i) { double l = i*h, c = i == 0 || i == n ? 1 : i % 2 ? 4 : 2; s += c * sig(k, l) * cos(w*l); } return s * h / 3 * 2 / (2*M_PI); }
static double kern(int k, double g, double x, double y) { return pow(x*y, g/2) * sig(k, log(y/x)); }
static double defper(int k, int w, int n) { double p = w == 0 ? (k == 1 ? 5.86*sqrt(n)+3.65 : k == 2 ? 6.64*sqrt(n)+7.24 : 2.38*log(n+.8)+5.6) : (k == 1 ? 8.80*sqrt(n+4.44)-12.6 : k == 2 ? 9.63*sqrt(n+1.)-2.93 : 2.00*log(n+.99)+3.52); return p < 1 ? 1 : p; }
#define MAXL 40
static VlHomogeneousKernelMap *map; static int K, W, n, L; static double g, period, F; static int fr[MAXL]; static double kap[MAXL];
static void setup(void) { K = mc_choose(3); W = mc_choose(2); n = mc_choose(MC_TIER(6, 10)); g = gam[mc_choose(MC_TIER(3, 4))]; { double p = per[mc_choose(MC_TIER(4, 5))]; mc_note("kernel %d window %d order %d gamma %g period %g", K, W, n, g, p);
  map = vl_homogeneouskernelmap_new(kt[K], g, n, p, wt[W]); mc_op(); L = 2*n+1; period = p > 0 ? p : defper(K, W, n); F = 2*M_PI/period; }
  MC_CHECK("getters", vl_homogeneouskernelmap_get_order(map) == (vl_size)n && vl_homogeneouskernelmap_get_dimension(map) == (vl_size)L && vl_homogeneouskernelmap_get_kernel_type(map) == kt[K] && vl_homogeneouskernelmap_get_window_type(map) == wt[W], "the getters do not return the parameters");
  /* the frequencies used and the spectrum at them: for the cut kernel, those where the spectrum is positive */
  { int j = 0, i = 0; while (i <= n) { double s = W ? cutspec(K, j*F, period) : spec(K, j*F); fr[i] = j; kap[i] = s > 0 ? s : 0; ++j; if (s > 0 || j >= 3*i) ++i; } } }
static void eval(double *o, double x) { vl_homogeneouskernelmap_evaluate_d(map, o, 1, x); mc_op(); }
/* values at and between the nodes of the table */
static void values(void) {
  double a[MAXL], b[MAXL], one[MAXL]; int e, i, j, ns, amb = 0; long live = mc_live; double x; setup(); ns = 8 + 8*n;
  eval(one, 1);
  /* the spectrum */
  for (j = 0; j <= n; ++j) if (W && fabs(kap[j]) < 2e-3) amb = 1; /* a frequency of the cut kernel may or may not be kept */
  if (W) { int jj; for (jj = 0; jj <= fr[n]; ++jj) if (fabs(cutspec(K, jj*F, period)) < 2e-3) amb = 1; }
  if (!amb) for (j = 0; j <= n; ++j) { double r = j ? hypot(one[2*j-1], one[2*j]) : one[0], got = r*r / (F * (j ? 2 : 1)); MC_CHECK("spectrum", mc_close(got, kap[j], W ? 1.5e-3 : 1e-12, 1e-9), "frequency %d: spectrum %.9g, expected %.9g", fr[j], got, kap[j]); }
  for (e = -22; e <= 9; e += (e > -18 && e < 5 && !mc_thorough) ? 3 : 1) for (i = 0; i < 3*ns; ++i) { double m = 1 + (i / 3 + (i % 3) * 0.31) / ns, sc; x = ldexp(m, e); eval(a, x); eval(b, -x);
    for (j = 0; j < L; ++j) MC_CHECK("odd", a[j] == -b[j], "x %g: component %d is %g at x and %g at -x", x, j, a[j], b[j]);
    if (e < -20 || e >= 8) { for (j = 0; j < L; ++j) MC_CHECK("range", a[j] == 0, "x %g is out of the table but component %d is %g", x, j, a[j]); continue; }
    sc = pow(x, g/2); MC_CHECK("homogeneous", mc_close(a[0], one[0]*sc, 1e-14, 1e-3), "x %g: component 0 is %.9g, expected %.9g", x, a[0], one[0]*sc);
    for (j = 1; j <= n; ++j) { double r = hypot(one[2*j-1], one[2*j]) * sc, h = F * fr[j] / ns, tol = 1e-12 + r * (i % 3 ? 0.2*(h*h) + 1e-3 : 1e-9), p = fr[j] * F * log(x);
      if (amb) { MC_CHECK("homogeneous", i % 3 || mc_close(hypot(a[2*j-1], a[2*j]), r, 1e-14, 1e-9), "x %g: norm of the components of frequency %d is %.9g, expected %.9g", x, j, hypot(a[2*j-1], a[2*j]), r); continue; }
      MC_CHECK("value", mc_close(a[2*j-1], r*cos(p), tol, 0) && mc_close(a[2*j], r*sin(p), tol, 0), "x %g: components of frequency %d are (%.9g,%.9g), expected (%.9g,%.9g)", x, fr[j], a[2*j-1], a[2*j], r*cos(p), r*sin(p)); }
    mc_case(1); mc_state(mc_hash(i, a, 8*L)); }
  vl_homogeneouskernelmap_delete(map); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* inner products are homogeneous and approximate the kernel */
static double sup(void) { double a[MAXL], b[MAXL], worst = 0; int i, j; eval(a, 1); for (i = -40; i <= 40; ++i) { double l = i / 40.0 * (period < 6 ? period / 2 : 3), y = exp(l), d = 0, want = kern(K, g, 1, y); eval(b, y); for (j = 0; j < L; ++j) d += a[j]*b[j]; d = fabs(d - want) / pow(y, g/2); if (d > worst) worst = d; } return worst; }
static void approx(void) {
  double a[MAXL], b[MAXL], c[MAXL]; int i, e, j; setup();
  for (i = -12; i <= 12; ++i) { double y = exp(i * 0.3), d0 = 0; for (e = -12; e <= 2; e += 2) { double s = ldexp(1, e), d = 0; eval(a, s); eval(b, s*y); for (j = 0; j < L; ++j) d += a[j]*b[j]; d /= pow(s, g); if (e == -12) d0 = d; MC_CHECK("scaling", mc_close(d, d0, 1e-9, 1e-9), "ratio %g: <psi(%g),psi(%g)> is %.9g times the scale, at another scale %.9g", y, s, s*y, d, d0); mc_case(1); } }
  eval(c, 0); for (j = 0; j < L; ++j) MC_CHECK("zero", c[j] == 0, "zero maps to %g", c[j]);
  /* default periods: precision improves with the order */
  mc_state(mc_hash(1, a, 8*L)); vl_homogeneouskernelmap_delete(map); }
static void precision(void) {
  static double const lim[2][3][10] = {{{0.713,0.226,0.173,0.142,0.122,0.107,0.096,0.087,0.080,0.074},{1.445,0.151,0.047,0.021,0.011,0.007,0.005,0.004,0.004,0.004},{0.849,0.107,0.034,0.014,0.008,0.005,0.004,0.004,0.003,0.003}},{{0.470,0.205,0.168,0.125,0.110,0.093,0.084,0.075,0.069,0.063},{0.461,0.025,0.020,0.005,0.006,0.004,0.004,0.003,0.003,0.003},{0.272,0.025,0.019,0.006,0.006,0.004,0.003,0.003,0.003,0.003}}};
  double prev = INFINITY; int N; K = mc_choose(3); W = mc_choose(2); g = gam[mc_choose(4)];
  for (N = 0; N < 10; ++N) { double w; n = N; L = 2*n+1; period = defper(K, W, n); map = vl_homogeneouskernelmap_new(kt[K], g, n, -1, wt[W]); w = sup(); vl_homogeneouskernelmap_delete(map); mc_note("kernel %d window %d gamma %g order %d", K, W, g, n);
    MC_CHECK("precision", w <= lim[W][K][N], "the map is %g away from the kernel", w); MC_CHECK("improves", w <= prev * 1.1 + 0.01, "order %d approximates the kernel worse (%g) than the order before (%g)", n, w, prev); prev = w; mc_case(1); mc_state(mc_hash(N, &w, 8)); } }
/* what is written where; float and double; every kind of argument */
static void writes(void) {
  double x; int st, i, v, ns; double vals[64]; int nv = 0; setup(); ns = 8 + 8*n;
  { double const s[] = {0, -0.0, DBL_MIN, 4.9e-324, DBL_MAX, -DBL_MAX, FLT_MIN, FLT_MAX, 1, -1, 255.999, 256, 128, 0x1p-20, 0x1p-19, 0x1.fffffffffffffp-21, 0x1.fffffffffffffp7, 0x1.fffffffffffffp-20, 0x1.fffffffffffffp0, 3, -0.1, 1e-6, 1e-5, 1e5, 17.3}; for (i = 0; i < MC_LEN(s); ++i) vals[nv++] = s[i]; }
  for (i = 1; i <= 8; ++i) { vals[nv++] = nextafter(1 + (double)i / ns, 0); vals[nv++] = nextafter(1 + (double)i*n / ns, 3); }
  for (v = 0; v < nv; ++v) for (st = 1; st <= 3; ++st) { double *d = mc_galloc(8 * (st*(L-1)+1)), ref[MAXL]; float *f = mc_galloc(4 * (st*(L-1)+1)); x = vals[v]; eval(ref, x);
    for (i = 0; i <= st*(L-1); ++i) { d[i] = -77; f[i] = -77; }
    vl_homogeneouskernelmap_evaluate_d(map, d, st, x); vl_homogeneouskernelmap_evaluate_f(map, f, st, x); mc_ops(2); mc_note("x %g stride %d", x, st);
    for (i = 0; i <= st*(L-1); ++i) if (i % st) MC_CHECK("stride", d[i] == -77 && f[i] == -77, "x %g stride %d: position %d was written", x, st, i);
      else { MC_CHECK("finite", isfinite(d[i]), "x %g: component %d is %g", x, i / st, d[i]); MC_CHECK("stride", d[i] == ref[i/st], "x %g stride %d: component %d is %g, with stride 1 %g", x, st, i/st, d[i], ref[i/st]); MC_CHECK("float", mc_close(f[i], ref[i/st], 1e-30, 1e-6), "x %g: component %d is %g in float, %g in double", x, i/st, f[i], ref[i/st]); }
    mc_gfree(d); mc_gfree(f); mc_case(1); mc_state(mc_hash(v, ref, 8*L)); }
  vl_homogeneouskernelmap_delete(map); }
mc_suite mc_suites[] = {
 {"values", values, "3 kernels x 2 windows x orders 0..5/9 x 3/4 degrees x 4/5 periods: all nodes of the table and two points between nodes, exponents -22..9, positive and negative, against the closed form"},
 {"approx", approx, "same parameters x 25 ratios x 9 scales"},
 {"precision", precision, "3 kernels x 2 windows x 4 degrees x orders 0..9 at the default period, 81 ratios"},
 {"writes", writes, "same parameters x 41 arguments (zeros, denormals, limits of the range, node edges) x strides 1..3 x float/double"},
 {0}};
