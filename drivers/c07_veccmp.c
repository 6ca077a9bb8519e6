/* C07: vector comparisons on every dispatch path against their formula in extended precision. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/mathop.h>
static int no_avx;
extern vl_bool __real_vl_cpu_has_avx(void);
vl_bool __wrap_vl_cpu_has_avx(void) { return no_avx ? VL_FALSE : __real_vl_cpu_has_avx(); }
static const char *mname[] = {"plain", "sse2", "avx"};
static void mode(int m) { vl_set_simd_enabled(m > 0); no_avx = m < 2; }
static const int types[] = {VlDistanceL1, VlDistanceL2, VlDistanceChi2, VlDistanceHellinger, VlDistanceJS, VlKernelL1, VlKernelL2, VlKernelChi2, VlKernelHellinger, VlKernelJS, VlDistanceMahalanobis};
static const char *tname[] = {"L1", "L2", "chi2", "Hellinger", "JS", "kernel L1", "kernel L2", "kernel chi2", "kernel Hellinger", "kernel JS", "Mahalanobis"};
typedef long double ld;
static ld jsx(ld x, ld y) { return x > 0 ? x * log2l((x + y) / x) : 0; }
/* one coordinate's contribution; *mag: magnitude of the terms computed */
static ld term(int t, ld x, ld y, ld s, ld *mag) {
  ld r;
  switch (t) {
    case 0: r = fabsl(x - y); *mag += fabsl(x) + fabsl(y); return r;
    case 1: r = (x-y)*(x-y); *mag += r + fabsl(x-y)*(fabsl(x)+fabsl(y)); return r;
    case 2: r = x + y != 0 ? (x-y)*(x-y)/(x+y) : 0; *mag += fabsl(r) + fabsl(x) + fabsl(y); return r;
    case 3: r = (sqrtl(x)-sqrtl(y))*(sqrtl(x)-sqrtl(y)); *mag += x + y; return r;
    case 4: r = x + y - jsx(x,y) - jsx(y,x); *mag += 2*(x + y); return r;
    case 5: r = x < y ? x : y; *mag += x + y; return r;
    case 6: r = x*y; *mag += fabsl(r); return r;
    case 7: r = x + y != 0 ? 2*x*y/(x+y) : 0; *mag += fabsl(r); return r;
    case 8: r = sqrtl(x*y); *mag += r; return r;
    case 9: r = (jsx(x,y) + jsx(y,x))/2; *mag += x + y; return r;
    default: r = (x-y)*(x-y)*s; *mag += fabsl(r) + fabsl(x-y)*(fabsl(x)+fabsl(y))*fabsl(s); return r;
  }
}
static void *al(size_t bytes, int off, void **base) { /* 32-byte aligned block of exactly off+bytes */ if (posix_memalign(base, 32, off + bytes + (off + bytes == 0))) abort(); memset(*base, 0x7f, off + bytes); return (char*)*base + off; }
static double val(int i, int k, int neg) { static const double v[] = {0.5, 1.25, 0, 3, 0.125, 2, 7, 0.75, 1e-3, 40, 0, 1}; double x = v[(i*5 + k*7 + i/3) % 12]; return neg && ((i*3+k) & 1) ? -x : x; }

static void pairs(void) {
  int f = mc_choose(2), t = mc_choose(11), m = mc_choose(3), n, ox, oy, os, i, sz = f ? 4 : 8, na = 32 / sz, pat; int maxn = MC_BOUND(20, 40, 70);
  n = mc_choose(maxn+1); ox = mc_choose(na) * sz; 
  for (oy = 0; oy < 32; oy += sz) {
    void *bx, *by, *bs; char *px = al(n*sz, ox, &bx), *py = al(n*sz, oy, &by), *ps; os = (oy + ox/2) % 32 / sz * sz; ps = al(n*sz, os, &bs);
    for (pat = 0; pat < 3; ++pat) {
      ld want = 0, mag = 0, eps = f ? 1.2e-7L : 2.3e-16L; double got, rev; int neg = (t <= 1 || t == 6 || t == 10) && pat == 1;
      for (i = 0; i < n; ++i) { double x = val(i, 0, neg), y = pat == 2 && i % 4 ? x : val(i, 1, neg), s = 0.5 + val(i, 2, 0); if (f) { ((float*)px)[i] = x; ((float*)py)[i] = y; ((float*)ps)[i] = s; x = (float)x; y = (float)y; s = (float)s; } else { ((double*)px)[i] = x; ((double*)py)[i] = y; ((double*)ps)[i] = s; } want += term(t, x, y, s, &mag); }
      mode(m);
      if (f) { if (t < 10) { VlFloatVectorComparisonFunction F = vl_get_vector_comparison_function_f(types[t]); got = F(n, (float*)px, (float*)py); rev = F(n, (float*)py, (float*)px); } else { VlFloatVector3ComparisonFunction F = vl_get_vector_3_comparison_function_f(types[t]); got = F(n, (float*)px, (float*)py, (float*)ps); rev = F(n, (float*)py, (float*)px, (float*)ps); } }
      else { if (t < 10) { VlDoubleVectorComparisonFunction F = vl_get_vector_comparison_function_d(types[t]); got = F(n, (double*)px, (double*)py); rev = F(n, (double*)py, (double*)px); } else { VlDoubleVector3ComparisonFunction F = vl_get_vector_3_comparison_function_d(types[t]); got = F(n, (double*)px, (double*)py, (double*)ps); rev = F(n, (double*)py, (double*)px, (double*)ps); } }
      mc_ops(2); mc_case(1);
      MC_CHECK("value", fabsl(got - want) <= eps * (n + 8) * mag * 2, "%s (%s, %s), dimension %d, alignments %d/%d/%d, pattern %d: %.9g, formula %.9Lg", tname[t], f ? "float" : "double", mname[m], n, ox, oy, os, pat, got, want);
      MC_CHECK("symmetry", fabsl(got - rev) <= eps * (n + 8) * mag * 2, "%s (%s, %s), dimension %d: not symmetric: %.9g and %.9g", tname[t], f ? "float" : "double", mname[m], n, got, rev);
      if (n == 0) MC_CHECK("value", got == 0, "%s of empty vectors is %g", tname[t], got);
      mc_state(mc_hash(t, &got, 8));
    }
    free(bx); free(by); free(bs);
  }
  vl_set_simd_enabled(1); no_avx = 0;
}
/* one or two special coordinates anywhere: zero denominators, equal values, large and tiny values */
static const double sp[][2] = {{0,0},{0,1},{1,0},{2,2},{1e-6,3},{1000,1},{5,1e-6},{1e4,1e4}};
static void special(void) {
  int f = mc_choose(2), t = mc_choose(11), m = mc_choose(3), n = 1 + mc_choose(MC_BOUND(10, 20, 34)), a = mc_choose(n), sa = mc_choose(8), b, sb, i; int sz = f ? 4 : 8;
  void *bx, *by, *bs; char *px = al(n*sz, 0, &bx), *py = al(n*sz, 0, &by), *ps = al(n*sz, 0, &bs);
  for (b = a; b < n; ++b) for (sb = 0; sb < 8; ++sb) {
    ld want = 0, mag = 0, eps = f ? 1.2e-7L : 2.3e-16L; double got; if (b == a && sb) break;
    for (i = 0; i < n; ++i) { double x = 0, y = 0, s = 2; if (i == a) { x = sp[sa][0]; y = sp[sa][1]; } else if (i == b) { x = sp[sb][0]; y = sp[sb][1]; s = 0.25; } if (f) { ((float*)px)[i] = x; ((float*)py)[i] = y; ((float*)ps)[i] = s; x = (float)x; y = (float)y; } else { ((double*)px)[i] = x; ((double*)py)[i] = y; ((double*)ps)[i] = s; } want += term(t, x, y, s, &mag); }
    mode(m);
    if (t < 10) got = f ? vl_get_vector_comparison_function_f(types[t])(n, (float*)px, (float*)py) : vl_get_vector_comparison_function_d(types[t])(n, (double*)px, (double*)py);
    else got = f ? vl_get_vector_3_comparison_function_f(types[t])(n, (float*)px, (float*)py, (float*)ps) : vl_get_vector_3_comparison_function_d(types[t])(n, (double*)px, (double*)py, (double*)ps);
    mc_op(); mc_case(1);
    MC_CHECK("value", fabsl(got - want) <= eps * 40 * mag, "%s (%s, %s), dimension %d, coordinate %d = (%g,%g), coordinate %d = (%g,%g): %.9g, formula %.9Lg", tname[t], f ? "float" : "double", mname[m], n, a, sp[sa][0], sp[sa][1], b, sp[sb][0], sp[sb][1], got, want);
    mc_state(mc_hash(t, &got, 8));
  }
  free(bx); free(by); free(bs); vl_set_simd_enabled(1); no_avx = 0;
}
/* d2(x,y) = k(x,x) + k(y,y) - 2 k(x,y) */
static void identity(void) {
  int t = mc_choose(5), m = mc_choose(3), n = mc_choose(12), k = mc_choose(6), i; double x[16], y[16], d, q, s = 0; static const int D[] = {0,1,2,3,4}, K[] = {5,6,7,8,9};
  for (i = 0; i < n; ++i) { x[i] = val(i, k, 0); y[i] = val(i, k+1, 0); s += x[i] + y[i] + x[i]*x[i] + y[i]*y[i]; }
  mode(m); d = vl_get_vector_comparison_function_d(types[D[t]])(n, x, y);
  { VlDoubleVectorComparisonFunction F = vl_get_vector_comparison_function_d(types[K[t]]); q = F(n,x,x) + F(n,y,y) - F(n,x,y) - F(n,y,x); }
  mc_ops(5); MC_CHECK("identity", fabs(d - q) <= 1e-12*(1 + s), "%s distance %.12g, from its kernel %.12g (%s, dimension %d)", tname[t], d, q, mname[m], n); mc_state(mc_hash(t, &d, 8));
  vl_set_simd_enabled(1); no_avx = 0;
}
static long calls;
static double asym_d(vl_size n, double const *x, double const *y) { vl_size i; double a = 0; ++calls; for (i = 0; i < n; ++i) a += (i+1) * (x[i] * 1000 + y[i]); return a; }
static float asym_f(vl_size n, float const *x, float const *y) { vl_size i; float a = 0; ++calls; for (i = 0; i < n; ++i) a += (i+1) * (x[i] * 1000 + y[i]); return a; }
static double sym_d(vl_size n, double const *x, double const *y) { vl_size i; double a = 0; ++calls; for (i = 0; i < n; ++i) a += (i+1) * x[i] * y[i]; return a; }
static float sym_f(vl_size n, float const *x, float const *y) { vl_size i; float a = 0; ++calls; for (i = 0; i < n; ++i) a += (i+1) * x[i] * y[i]; return a; }
static void allpairs(void) {
  int f = mc_choose(2), self = mc_choose(2), n = 1 + mc_choose(5), nx = mc_choose(MC_BOUND(6, 9, 14)), ny = self ? nx : mc_choose(MC_BOUND(6, 9, 14)), i, j; int sz = f ? 4 : 8;
  void *X = mc_galloc(sz*n*nx), *Y = mc_galloc(sz*n*ny), *R = mc_galloc(sz*nx*ny); mc_note("%s self %d dim %d %dx%d", f ? "float" : "double", self, n, nx, ny);
  for (i = 0; i < n*nx; ++i) if (f) ((float*)X)[i] = i+1; else ((double*)X)[i] = i+1;
  for (i = 0; i < n*ny; ++i) if (f) ((float*)Y)[i] = i+2; else ((double*)Y)[i] = i+2;
  memset(R, 0xFF, sz*nx*ny);
  if (f) vl_eval_vector_comparison_on_all_pairs_f(R, n, X, nx, self ? 0 : Y, self ? 0 : ny, self ? sym_f : asym_f);
  else vl_eval_vector_comparison_on_all_pairs_d(R, n, X, nx, self ? 0 : Y, self ? 0 : ny, self ? sym_d : asym_d);
  mc_op(); mc_gcheck(R); mc_gcheck(X); mc_gcheck(Y);
  for (j = 0; j < ny; ++j) for (i = 0; i < nx; ++i) { double got = f ? ((float*)R)[i + j*nx] : ((double*)R)[i + j*nx], want;
    if (f) want = self ? sym_f(n, (float*)X + i*n, (float*)X + j*n) : asym_f(n, (float*)X + i*n, (float*)Y + j*n); else want = self ? sym_d(n, (double*)X + i*n, (double*)X + j*n) : asym_d(n, (double*)X + i*n, (double*)Y + j*n);
    MC_CHECK("allpairs", got == want, "all pairs (%s, %s, dimension %d, %dx%d): entry (%d,%d) is %g, expected %g", f ? "float" : "double", self ? "one set" : "two sets", n, nx, ny, i, j, got, want); mc_case(1); mc_state(mc_hash(i*100+j, &want, 8)); }
  mc_gfree(X); mc_gfree(Y); mc_gfree(R);
}
/* the real functions through all pairs, one set */
static void allreal(void) {
  int t = mc_choose(10), m = mc_choose(3), n = 1 + mc_choose(18), nx = mc_choose(4), i, j; float X[80], R[16]; double D[80], Q[16];
  for (i = 0; i < n*nx; ++i) { X[i] = val(i, 3, 0); D[i] = X[i]; }
  mode(m); vl_eval_vector_comparison_on_all_pairs_f(R, n, X, nx, 0, 0, vl_get_vector_comparison_function_f(types[t])); vl_eval_vector_comparison_on_all_pairs_d(Q, n, D, nx, 0, 0, vl_get_vector_comparison_function_d(types[t])); mc_ops(2);
  for (i = 0; i < nx; ++i) for (j = 0; j < nx; ++j) { ld w = 0, mag = 0; int k; for (k = 0; k < n; ++k) w += term(t, X[i*n+k], X[j*n+k], 1, &mag);
    MC_CHECK("allpairs", fabsl(R[i+j*nx] - w) <= 1e-6L*(mag+1e-9L)*4 && fabsl(Q[i+j*nx] - w) <= 1e-14L*(mag+1)*4, "%s on all pairs, entry (%d,%d): %g %g, formula %Lg", tname[t], i, j, R[i+j*nx], Q[i+j*nx], w); mc_state(mc_hash(t, &Q[i+j*nx], 8)); }
  vl_set_simd_enabled(1); no_avx = 0;
}
mc_suite mc_suites[] = {
  {"pairs", pairs, "11 comparisons x float/double x plain/SSE2/AVX x all dimensions 0..20/40/70 x all relative alignments x 3 patterns", 0},
  {"special", special, "same x dimensions 1..10/20/34 x every pair of coordinates with 8 special value pairs", 0},
  {"identity", identity, "5 kernel/distance pairs x dispatch x dimensions x 6 patterns", 0},
  {"all-pairs", allpairs, "one/two sets x dimensions 1..5 x all set sizes 0..5/8/13", 0},
  {"all-pairs-real", allreal, "10 comparisons x dispatch x dimensions 1..18 x set sizes 0..3", 0},
  {0}};
