/* C06: scalar helpers, 2x2 SVD and linear solvers against their defining equations. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/mathop.h>

/* ---- integer square roots: y = floor(sqrt(x)) iff y*y <= x < (y+1)^2, in 128-bit arithmetic */
static void ck(uint64_t x, uint64_t y, const char *f) { unsigned __int128 a = (unsigned __int128)y * y, b = (unsigned __int128)(y+1) * (y+1);
  MC_CHECK("isqrt", a <= x && x < b, "%s(%llu) = %llu", f, (unsigned long long)x, (unsigned long long)y); }
static void isqrt8_16(void) { int hi = mc_choose(256), lo; for (lo = 0; lo < 256; ++lo) { uint32_t x = hi*256 + lo; ck(x, vl_fast_sqrt_ui16(x), "vl_fast_sqrt_ui16"); ck(x, vl_fast_sqrt_ui32(x), "vl_fast_sqrt_ui32"); ck(x, vl_fast_sqrt_ui64(x), "vl_fast_sqrt_ui64"); if (!hi) ck(x, vl_fast_sqrt_ui8(x), "vl_fast_sqrt_ui8"); mc_ops(3); mc_case(1); mc_state(x); } }
static void isqrt32(void) { /* around every square */ uint64_t k, blk = mc_choose(256); for (k = blk*256; k < (blk+1)*256; ++k) { int d; for (d = -2; d <= 2; ++d) { int64_t x = (int64_t)(k*k) + d; if (x >= 0 && x <= 0xffffffffll) { ck(x, vl_fast_sqrt_ui32(x), "vl_fast_sqrt_ui32"); ck(x, vl_fast_sqrt_ui64(x), "vl_fast_sqrt_ui64"); mc_ops(2); mc_case(1); } } { uint64_t x = k*k + k; if (x <= 0xffffffffull) ck(x, vl_fast_sqrt_ui32(x), "vl_fast_sqrt_ui32"); } mc_state(k); } }
static void isqrt32all(void) { uint64_t blk = mc_choose(4096), x; for (x = blk << 20; x < (blk+1) << 20; ++x) { uint64_t y = vl_fast_sqrt_ui32((vl_uint32)x); if (!(y*y <= x && x < (y+1)*(y+1))) ck(x, y, "vl_fast_sqrt_ui32"); } mc_ops(1<<20); mc_case(1<<20); mc_state(blk); }
static void isqrt64(void) { /* squares of all k = a*2^i + b */ int i = mc_choose(32), a = 1 + mc_choose(16), b = mc_choose(33) - 16, d; __int128 k = (__int128)a << i; k += b; if (k < 0 || k > 0xffffffffll) mc_skip();
  for (d = -3; d <= 3; ++d) { __int128 x = k*k + d; if (x >= 0 && x <= (__int128)0xffffffffffffffffull) { ck(x, vl_fast_sqrt_ui64(x), "vl_fast_sqrt_ui64"); mc_op(); mc_case(1); } }
  { __int128 x = k*k + 2*k; if (x <= (__int128)0xffffffffffffffffull) ck(x, vl_fast_sqrt_ui64(x), "vl_fast_sqrt_ui64"); } ck(~0ull, vl_fast_sqrt_ui64(~0ull), "vl_fast_sqrt_ui64"); mc_state((uint64_t)k); }
/* ---- rounding */
static void round1(double x) {
  MC_CHECK("floor", vl_floor_d(x) == (long)floor(x), "vl_floor_d(%.17g) = %ld", x, vl_floor_d(x));
  MC_CHECK("ceil", vl_ceil_d(x) == (long)ceil(x), "vl_ceil_d(%.17g) = %ld", x, vl_ceil_d(x));
  MC_CHECK("round", vl_round_d(x) == lround(x), "vl_round_d(%.17g) = %ld", x, vl_round_d(x));
  MC_CHECK("abs", vl_abs_d(x) == fabs(x) && vl_sqrt_d(fabs(x)) == sqrt(fabs(x)), "vl_abs_d/vl_sqrt_d(%.17g)", x);
  { float f = (float)x; MC_CHECK("floor", vl_floor_f(f) == (long)floorf(f), "vl_floor_f(%.9g) = %ld", f, vl_floor_f(f));
    MC_CHECK("ceil", vl_ceil_f(f) == (long)ceilf(f), "vl_ceil_f(%.9g) = %ld", f, vl_ceil_f(f));
    MC_CHECK("round", vl_round_f(f) == lroundf(f), "vl_round_f(%.9g) = %ld", f, vl_round_f(f));
    MC_CHECK("abs", vl_abs_f(f) == fabsf(f) && vl_sqrt_f(fabsf(f)) == sqrtf(fabsf(f)), "vl_abs_f/vl_sqrt_f(%.9g)", f);
    if (f > 0) MC_CHECK("log2", mc_close(vl_log2_f(f), log2(f), 1e-6, 1e-6) && mc_close(vl_log2_d(x), log2(x), 1e-14, 1e-14), "vl_log2(%.17g)", x); }
  mc_ops(10); mc_case(1); mc_state((uint64_t)vl_floor_d(x));
}
static void rounding(void) { int k = mc_choose(2049) - 1024, e = mc_choose(20), s; double x = ldexp(k, e < 14 ? e - 8 : (e - 14) * 8 + 4);
  for (s = 0; s < 7; ++s) round1(s == 0 ? x : s == 1 ? nextafter(x, 1e300) : s == 2 ? nextafter(x, -1e300) : s == 3 ? nextafterf((float)x, 1e30f) : s == 4 ? nextafterf((float)x, -1e30f) : s == 5 ? x + 0.5 : -x - 0.5); }
static void special(void) { double v[] = {0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 1e308, 5e-324, -1e-310}; int i = mc_choose(10); double x = v[i]; float f = (float)x;
  MC_CHECK("nan", !!vl_is_nan_d(x) == !!isnan(x) && !!vl_is_nan_f(f) == !!isnan(f), "is_nan %g", x); MC_CHECK("inf", !!vl_is_inf_d(x) == !!isinf(x) && !!vl_is_inf_f(f) == !!isinf(f), "is_inf %g", x);
  MC_CHECK("const", isnan(VL_NAN_D) && isnan(VL_NAN_F) && isinf(VL_INFINITY_D) && VL_INFINITY_D > 0 && isinf(VL_INFINITY_F) && VL_INFINITY_F > 0, "constants"); mc_ops(4); mc_state(i); }
static void mod2pi(void) { int a = mc_choose(401) - 200, b = mc_choose(41) - 20, s; for (s = 0; s < 4; ++s) { double x = a * VL_PI / 8 + b * 1e-3, y, d; if (s == 1) x = nextafter(x, 1e9); if (s == 2) x = nextafter(x, -1e9); if (s == 3) x = a * 0.37 + b*1e-9;
    y = vl_mod_2pi_d(x); d = (y - x) / (2*VL_PI); MC_CHECK("mod", y >= 0 && y <= 2*VL_PI && fabs(d - round(d)) < 1e-12, "vl_mod_2pi_d(%.17g) = %.17g", x, y);
    { float f = (float)x, g = vl_mod_2pi_f(f); d = (g - (double)f) / (2*VL_PI); MC_CHECK("mod", g >= 0 && g <= (float)(2*VL_PI) && fabs(d - round(d)) < 2e-5, "vl_mod_2pi_f(%.9g) = %.9g", f, g); }
    mc_ops(2); mc_case(1); mc_state((uint64_t)(y*1e6)); }
  static const double H[] = {1e5, 1e8, 1e15, 1e30, 1e300}; for (s = 0; s < 5; ++s) { double x = (a + b * .01) * H[s], y = vl_mod_2pi_d(x), d; float f = s < 4 ? (float)x : 0, g = vl_mod_2pi_f(f); MC_CHECK("mod-huge", y >= 0 && y <= 2*VL_PI && g >= 0 && g <= (float)(2*VL_PI), "vl_mod_2pi_d(%.17g) = %.17g, vl_mod_2pi_f(%.9g) = %.9g", x, y, f, g); d = (y - x) / (2*VL_PI); if (!s) MC_CHECK("mod-huge", fabs(d - round(d)) < 1e-7, "vl_mod_2pi_d(%.17g) = %.17g", x, y); mc_ops(2); } }
/* ---- fast approximations */
static void resqrt(void) { /* all exponents; a grid of mantissas; all mantissas of one binade in thorough */
  int e = mc_choose(252) - 125, m, M = MC_BOUND(64, 1024, 65536); for (m = 0; m < M; ++m) { float x = ldexpf(1.0f + (float)m / M, e); double t = 1/sqrt((double)x), y = vl_fast_resqrt_f(x), z = vl_fast_resqrt_d((double)x), w; 
    MC_CHECK("resqrt", fabs(y/t - 1) < 1e-5, "vl_fast_resqrt_f(%g) = %g, true %g", x, y, t); MC_CHECK("resqrt", fabs(z/t - 1) < 1e-5, "vl_fast_resqrt_d(%g) = %g, true %g", x, z, t);
    y = vl_fast_sqrt_f(x); w = vl_fast_sqrt_d((double)x); t = sqrt((double)x);
    if (x >= 1e-8) { MC_CHECK("sqrt", fabs(y/t - 1) < 1e-5, "vl_fast_sqrt_f(%g) = %g", x, y); MC_CHECK("sqrt", fabs(w/t - 1) < 1e-5, "vl_fast_sqrt_d(%g) = %g", x, w); }
    else MC_CHECK("sqrt", y >= 0 && y <= 1.1e-4 && w >= 0 && w <= 1.1e-4, "vl_fast_sqrt(%g) = %g, %g", x, y, w);
    { double b = ldexp(1.0 + (double)m / M, e * 8 - 4), u = vl_fast_resqrt_d(b); if (b > 1e-300 && b < 1e300) { MC_CHECK("resqrt", fabs(u*sqrt(b) - 1) < 1e-5, "vl_fast_resqrt_d(%g) = %g", b, u); if (b > 1e-8) { u = vl_fast_sqrt_d(b); MC_CHECK("sqrt", fabs(u/sqrt(b) - 1) < 1e-5, "vl_fast_sqrt_d(%g) = %g", b, u); } } }
    mc_ops(6); mc_case(1); } mc_state(e); 
  MC_CHECK("sqrt", vl_fast_sqrt_f(0) == 0 && vl_fast_sqrt_d(0) == 0, "square root of zero"); }
static void atan2_(void) { int k = mc_choose(MC_BOUND(360, 3600, 36000)), n = MC_BOUND(360, 3600, 36000), s; for (s = 0; s < 5; ++s) { double r = (double[]){1, 1e-3, 1e3, 0.1, 37}[s], t = -M_PI + (k + 0.5) * 2*M_PI/n, x = r*cos(t), y = r*sin(t), e;
    e = fabs(vl_fast_atan2_d(y, x) - t); MC_CHECK("atan2", e < 0.0062*2, "vl_fast_atan2_d at angle %g: error %g", t, e);
    e = fabs(vl_fast_atan2_f(y, x) - t); MC_CHECK("atan2", e < 0.0062*2, "vl_fast_atan2_f at angle %g: error %g", t, e);
    e = vl_fast_atan2_d(-y, x) + vl_fast_atan2_d(y, x); MC_CHECK("atan2", fabs(e) < 1e-12, "vl_fast_atan2_d is not odd in y at %g", t); mc_ops(4); mc_case(1); mc_state((uint64_t)(t*1e6)); } }
static void atanaxes(void) { int i = mc_choose(4); float x = (float[]){1, 0, -1, 0}[i], y = (float[]){0, 1, 0, -1}[i], t = (float[]){0, M_PI/2, M_PI, -M_PI/2}[i]; MC_CHECK("atan2", fabs(vl_fast_atan2_f(y, x) - t) < 1e-3 && fabs(vl_fast_atan2_d(y, x) - t) < 1e-3, "fast atan2(%g,%g) = %g, %g", y, x, vl_fast_atan2_f(y,x), vl_fast_atan2_d(y,x)); mc_ops(2); mc_state(i); }
/* ---- SVD */
static const double ent[] = {0, 1, -1, 2, -3, 0.5, 1e-9, -1e-3, 1e6, 1e20, -1e-20, 0.1};
static void svd(void) { double M[4], S[4], U[4], V[4], nrm = 0, R[4]; int i, j, k; for (i = 0; i < 4; ++i) { M[i] = ent[mc_choose(MC_BOUND(6, 12, 12))]; if (fabs(M[i]) > nrm) nrm = fabs(M[i]); }
  mc_note("svd2 of [%g %g; %g %g]", M[0], M[2], M[1], M[3]);
  memset(S, 0x55, sizeof S); vl_svd2(S, U, V, M); mc_op();
  MC_CHECK("svd", S[1] == 0 && S[2] == 0, "S of [%g %g; %g %g] is not diagonal", M[0], M[2], M[1], M[3]);
  MC_CHECK("svd", fabs(S[0]) >= fabs(S[3]) * (1 - 1e-12), "singular values of [%g %g; %g %g] not ordered: %g %g", M[0], M[2], M[1], M[3], S[0], S[3]);
  for (k = 0; k < 2; ++k) { double *Q = k ? V : U; MC_CHECK("svd", fabs(Q[0]*Q[0]+Q[1]*Q[1]-1) < 1e-9 && fabs(Q[2]*Q[2]+Q[3]*Q[3]-1) < 1e-9 && fabs(Q[0]*Q[2]+Q[1]*Q[3]) < 1e-9, "%s of [%g %g; %g %g] is not orthonormal: [%g %g; %g %g]", k ? "V" : "U", M[0], M[2], M[1], M[3], Q[0], Q[2], Q[1], Q[3]); }
  for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) R[i+2*j] = U[i]*S[0]*V[j] + U[i+2]*S[3]*V[j+2];
  for (i = 0; i < 4; ++i) MC_CHECK("svd", fabs(R[i] - M[i]) <= 1e-9 * (nrm > 0 ? nrm : 1), "U S V' of [%g %g; %g %g] is [%g %g; %g %g]", M[0], M[2], M[1], M[3], R[0], R[2], R[1], R[3]);
  { double S2[4]; vl_svd2(S2, 0, 0, M); MC_CHECK("svd", !memcmp(S, S2, sizeof S), "singular values differ when U and V are not asked"); }
  mc_state(mc_hash(0, S, sizeof S));
}
static void dlasv2(void) { static const double e[] = {0, 1, -1, 3, -0.5, 1e-9, 1e-17, 1e10, -1e17, 1e-30, 1e30}; double f = e[mc_choose(11)], g = e[mc_choose(11)], h = e[mc_choose(11)], smin, smax, sv, cv, su, cu, n = fmax(fabs(f), fmax(fabs(g), fabs(h))), R[4];
  vl_lapack_dlasv2(&smin, &smax, &sv, &cv, &su, &cu, f, g, h); mc_op(); mc_note("dlasv2 %g %g %g", f, g, h);
  MC_CHECK("dlasv2", fabs(cv*cv+sv*sv-1) < 1e-9 && fabs(cu*cu+su*su-1) < 1e-9, "dlasv2(%g,%g,%g): not rotations (%g %g, %g %g)", f, g, h, cu, su, cv, sv);
  MC_CHECK("dlasv2", fabs(smax) >= fabs(smin)*(1-1e-12), "dlasv2(%g,%g,%g): smax %g smin %g", f, g, h, smax, smin);
  R[0] = cu*smax*cv + su*smin*sv; R[1] = su*smax*cv - cu*smin*sv; R[2] = cu*smax*sv - su*smin*cv; R[3] = su*smax*sv + cu*smin*cv;
  MC_CHECK("dlasv2", fabs(R[0]-f) <= 1e-9*n && fabs(R[1]) <= 1e-9*n && fabs(R[2]-g) <= 1e-9*n && fabs(R[3]-h) <= 1e-9*n, "dlasv2(%g,%g,%g): gives back [%g %g; %g %g]", f, g, h, R[0], R[2], R[1], R[3]);
  if (n > 0 && n < 1e29) MC_CHECK("dlasv2", mc_close(fabs(smax*smin), fabs(f*h), 1e-25, 1e-6) , "dlasv2(%g,%g,%g): product of singular values %g", f, g, h, smax*smin);
  mc_state(mc_mix(mc_hash(0, &smax, 8), f*7+g)); }
/* ---- linear solvers */
static double det3(const double *A) { return A[0]*(A[4]*A[8]-A[7]*A[5]) - A[3]*(A[1]*A[8]-A[7]*A[2]) + A[6]*(A[1]*A[5]-A[4]*A[2]); }
static void solve3(void) { double A[9], b[3] = {1, -2, 5}, x[3], d; int i, j, k, err; static const double al[] = {0, 1, -2, 3, -1}; int na = MC_BOUND(3, 4, 5); double sc = (double[]){1, 1e-3, 1e4}[mc_choose(3)];
  for (i = 0; i < 9; ++i) A[i] = al[mc_choose(na)];
  mc_note("A ="); for (i = 0; i < 9; ++i) mc_note(" %g", A[i]);
  d = det3(A); for (i = 0; i < 9; ++i) A[i] *= sc;
  { double *gx = mc_galloc(24), *gA = mc_galloc(72), *gb = mc_galloc(24); memcpy(gA, A, 72); memcpy(gb, b, 24);
    err = vl_solve_linear_system_3(gx, gA, gb); mc_op(); memcpy(x, gx, 24);
    MC_CHECK("const", !memcmp(gA, A, 72) && !memcmp(gb, b, 24), "the arguments were modified"); mc_gfree(gx); mc_gfree(gA); mc_gfree(gb); }
  if (d == 0) { MC_CHECK("singular", err != VL_ERR_OK, "singular 3x3 system (scale %g) reported as solved", sc); mc_state(1); return; }
  MC_CHECK("solve", err == VL_ERR_OK, "regular 3x3 system (determinant %g, scale %g) reported as singular", d, sc);
  for (i = 0; i < 3; ++i) { double r = 0, m = 0; for (j = 0; j < 3; ++j) { r += A[i+3*j] * x[j]; m += fabs(A[i+3*j] * x[j]); } MC_CHECK("solve", fabs(r - b[i]) <= 1e-9*(m + 1), "3x3 system: row %d gives %g instead of %g", i, r, b[i]); }
  for (k = 0; k < 3; ++k) { double B[9]; memcpy(B, A, sizeof B); for (i = 0; i < 3; ++i) B[i+3*k] = b[i]; MC_CHECK("solve", mc_close(x[k], det3(B)/det3(A), 1e-9/sc, 1e-9), "3x3 system: x[%d] = %g, Cramer's rule gives %g", k, x[k], det3(B)/det3(A)); }
  mc_state(mc_hash(0, x, sizeof x)); }
static void solve2(void) { double A[4], b[2], x[2], d; int i, err; static const double al[] = {0, 1, -2, 3, -1, 0.5, 7, 1e-4, 1e5}; for (i = 0; i < 4; ++i) A[i] = al[mc_choose(9)]; for (i = 0; i < 2; ++i) b[i] = al[mc_choose(4)];
  mc_note("A = [%g %g; %g %g] b = [%g %g]", A[0], A[2], A[1], A[3], b[0], b[1]);
  err = vl_solve_linear_system_2(x, A, b); mc_op(); d = A[0]*A[3] - A[1]*A[2];
  if (d == 0) { MC_CHECK("singular", err != VL_ERR_OK, "singular 2x2 system reported as solved"); mc_state(1); return; }
  { double m = fabs(A[0]*A[3]) + fabs(A[1]*A[2]); if (fabs(d) < 1e-9*m) { mc_state(2); return; } }
  MC_CHECK("solve", err == VL_ERR_OK || fabs(d) < 1e-4, "regular 2x2 system reported as singular (det %g)", d); if (err) return;
  MC_CHECK("solve", mc_close(x[0], (b[0]*A[3]-b[1]*A[2])/d, 1e-9, 1e-7) && mc_close(x[1], (A[0]*b[1]-A[1]*b[0])/d, 1e-9, 1e-7), "2x2 system: %g %g", x[0], x[1]);
  mc_state(mc_hash(0, x, sizeof x)); }
/* inverse and several right-hand sides, up to 4x4; the first nr columns are what elimination leaves */
static void gauss(void) { int n = 1 + mc_choose(4), extra = 1 + mc_choose(2) * (n - 1), i, j, k, err, na = n == 4 ? 2 : 3; double A[16], *M = mc_galloc(8*n*(n+extra)), B[4][4]; long idet; static const double al[] = {0, 1, -2};
  if (n == 1 && extra > 1) mc_skip();
  for (i = 0; i < n*n; ++i) A[i] = al[mc_choose(na)];
  for (i = 0; i < n; ++i) for (j = 0; j < extra; ++j) B[i][j] = extra == n && n > 1 ? (i == j) : i + 1 - 2*j;
  for (i = 0; i < n; ++i) { for (j = 0; j < n; ++j) M[i + j*n] = A[i+j*n]; for (j = 0; j < extra; ++j) M[i + (n+j)*n] = B[i][j]; }
  { /* exact determinant by cofactor recursion over permutations */ int p[4] = {0,1,2,3}; idet = 0; int c[4], total = 1; for (i = 2; i <= n; ++i) total *= i;
    for (k = 0; k < total; ++k) { int kk = k, sg = 1, left[4], m = n; long t = 1; for (i = 0; i < n; ++i) left[i] = i; for (i = 0; i < n; ++i) { int q = kk % m; kk /= m; c[i] = left[q]; if (q & 1) sg = -sg; for (j = q; j + 1 < m; ++j) left[j] = left[j+1]; --m; t *= (long)A[i + c[i]*n]; } idet += sg * t; } (void)p; }
  mc_note("n %d, %d right sides, det %ld", n, extra, idet);
  err = vl_gaussian_elimination(M, n, n + extra); mc_op(); mc_gcheck(M);
  if (idet == 0) MC_CHECK("singular", err != VL_ERR_OK, "singular %dx%d system reported as solved", n, n);
  else { MC_CHECK("solve", err == VL_ERR_OK, "regular %dx%d system (det %ld) reported as singular", n, n, idet);
    for (k = 0; k < extra; ++k) for (i = 0; i < n; ++i) { double r = 0; for (j = 0; j < n; ++j) r += A[i + j*n] * M[j + (n+k)*n]; MC_CHECK("solve", fabs(r - B[i][k]) < 1e-9, "%dx%d system, right side %d, row %d: %g instead of %g", n, n, k, i, r, B[i][k]); } }
  mc_state(mc_mix(idet, mc_hash(0, M, 8*n*(n+extra)))); mc_gfree(M); }
mc_suite mc_suites[] = {
  {"isqrt-16", isqrt8_16, "all 8- and 16-bit integers", MC_SHARD1},
  {"isqrt-32", isqrt32, "all integers within 2 of each of the 65536 squares below 2^32", MC_SHARD1},
  {"isqrt-32-all", isqrt32all, "all 2^32 integers", MC_SHARD1|MC_THOROUGH|MC_NOASAN},
  {"isqrt-64", isqrt64, "all integers within 3 of the squares of all k = a*2^i+b, a in 1..16, |b| <= 16", 0},
  {"rounding", rounding, "2049 mantissas x 20 exponents x 7 neighbours, float and double", 0},
  {"special", special, "10 special values", MC_SHARD1},
  {"mod-2pi", mod2pi, "401 x 41 grid x 4 neighbours", 0},
  {"fast-roots", resqrt, "all 252 float exponents x 64/1024/65536 mantissas, and double exponents to 1e300", MC_SHARD1},
  {"fast-atan2", atan2_, "360/3600/36000 angles x 5 radii", MC_SHARD1},
  {"fast-atan2-axes", atanaxes, "the four axes", MC_SHARD1},
  {"svd2", svd, "all matrices over 6/12/12 values (zeros, signs, 1e-20..1e20)", 0},
  {"dlasv2", dlasv2, "all triangular matrices over 11 values (1e-30..1e30)", 0},
  {"solve-3", solve3, "all 3x3 matrices over 3/4/5 values x 3 scales", 0},
  {"solve-2", solve2, "all 2x2 matrices over 9 values x 16 right sides", 0},
  {"gauss", gauss, "all systems up to 3x3 over 3 values and 4x4 over 2, with one or n right sides", 0},
  {0}};
