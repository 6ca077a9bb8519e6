/* C37: Rodrigues' formula, its inverse and their derivatives over a grid of axes and angles. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/rodrigues.h>
#define PI 3.14159265358979323846
typedef long double LD;
static void expo(LD const *w, LD *R) { /* from the series of the exponential map: I + A sin(t)/t + A^2 (1-cos t)/t^2 */
  LD t = sqrtl(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]), a, b, A[9] = {0, w[2], -w[1], -w[2], 0, w[0], w[1], -w[0], 0}; int i, j, k; if (t < 1e-4L) { LD q = t*t; a = 1-q/6+q*q/120; b = .5L-q/24+q*q/720; } else { a = sinl(t)/t; b = 2*sinl(t/2)*sinl(t/2)/(t*t); } for (j = 0; j < 3; ++j) for (i = 0; i < 3; ++i) { LD s = 0; for (k = 0; k < 3; ++k) s += A[i+3*k]*A[k+3*j]; R[i+3*j] = (i == j) + a*A[i+3*j] + b*s; } }
static void describe(double const *om) { mc_note("vector (%.12g, %.12g, %.12g), angle %.12g", om[0], om[1], om[2], sqrt(om[0]*om[0]+om[1]*om[1]+om[2]*om[2])); }
/* the inverse of a rotation matrix, however obtained */
static void inverse(double const *R, double tolR, char const *key) { double om[4], D[28], R2[9], t, om2[3]; LD w[3], E[9]; int i; om[3] = D[27] = -7; for (i = 0; i < 27; ++i) D[i] = -7; vl_irodrigues(om, D, R); mc_op(); mc_case(1); MC_CHECK("overflow", om[3] == -7 && D[27] == -7, "written out of bounds"); for (i = 0; i < 3; ++i) MC_CHECK("nan", om[i] == om[i] && fabs(om[i]) <= PI+1e-2, "the inverse is (%g,%g,%g) for R = [%.17g %.17g %.17g; %.17g %.17g %.17g; %.17g %.17g %.17g]", om[0], om[1], om[2], R[0], R[3], R[6], R[1], R[4], R[7], R[2], R[5], R[8]); t = sqrt(om[0]*om[0]+om[1]*om[1]+om[2]*om[2]); MC_CHECK("angle", t <= PI+1e-3, "angle %g", t);
  for (i = 0; i < 3; ++i) w[i] = om[i]; expo(w, E); { double q = hypot(hypot(R[5]-R[7], R[6]-R[2]), R[1]-R[3])/2, d = R[0]+R[4]+R[8] < 0 ? asin(q < 1 ? q : 1) : PI-t, tol = tolR + (fabs(d) < 1e-2 ? 4e-15/(d*d+1e-13) + 3e-6 : 1e-9); if (tol > .02) tol = .02; for (i = 0; i < 9; ++i) MC_CHECK(key, fabs((double)E[i]-R[i]) < tol, "the rotation of the inverse (%.9g,%.9g,%.9g) has entry (%d,%d) %.12g instead of %.12g", om[0], om[1], om[2], i%3, i/3, (double)E[i], R[i]); }
  vl_irodrigues(om2, NULL, R); MC_CHECK("null", !memcmp(om, om2, sizeof(om2)), "without derivatives the result is other"); vl_rodrigues(R2, NULL, om); mc_state(mc_hash(3, om, 24)); }
static void rotation(double const *om) { double R[10], D[28], R2[9], t = sqrt(om[0]*om[0]+om[1]*om[1]+om[2]*om[2]), det, o2[3], DO[27]; LD w[3], E[9], Ep[9], Em[9]; int i, j, k; R[9] = D[27] = -7; for (i = 0; i < 27; ++i) D[i] = -7; describe(om); vl_rodrigues(R, D, om); mc_op(); mc_case(1); MC_CHECK("overflow", R[9] == -7 && D[27] == -7, "written out of bounds"); vl_rodrigues(R2, NULL, om); MC_CHECK("null", !memcmp(R, R2, sizeof(R2)), "without derivatives the result is other");
  for (i = 0; i < 3; ++i) w[i] = om[i]; expo(w, E); for (i = 0; i < 9; ++i) MC_CHECK("map", fabs(R[i]-(double)E[i]) < 2e-12 + (t < 2e-6 ? 1.1e-6 : 0), "entry (%d,%d) is %.15g, expected %.15g", i%3, i/3, R[i], (double)E[i]);
  for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) { double s = 0; for (k = 0; k < 3; ++k) s += R[k+3*i]*R[k+3*j]; MC_CHECK("orthonormal", fabs(s-(i == j)) < 1e-12, "columns %d and %d", i, j); } det = R[0]*(R[4]*R[8]-R[7]*R[5]) - R[3]*(R[1]*R[8]-R[7]*R[2]) + R[6]*(R[1]*R[5]-R[4]*R[2]); MC_CHECK("determinant", fabs(det-1) < 1e-12, "determinant %g", det);
  for (j = 0; j < 3; ++j) { LD h = 1e-5L; w[j] = om[j]+h; expo(w, Ep); w[j] = om[j]-h; expo(w, Em); w[j] = om[j]; for (i = 0; i < 9; ++i) MC_CHECK("derivative", fabs(D[i+9*j] - (double)((Ep[i]-Em[i])/(2*h))) < 1e-8 + (t < 2e-6 ? 2e-6 : 0), "derivative of the entry (%d,%d) by the coordinate %d is %.12g, expected %.12g", i%3, i/3, j, D[i+9*j], (double)((Ep[i]-Em[i])/(2*h))); }
  inverse(R, t < 2e-6 ? 1.1e-6 : 0, "inverse");
  vl_irodrigues(o2, DO, R); if (t < PI-1e-2) { for (i = 0; i < 3; ++i) MC_CHECK("recover", fabs(o2[i]-om[i]) < 1e-9 + (t < 2e-6 ? 1.1e-6 : 0), "coordinate %d is recovered as %.12g", i, o2[i]); for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) { double s = 0; for (k = 0; k < 9; ++k) s += DO[i+3*k]*D[k+9*j]; MC_CHECK("dinverse", fabs(s-(i == j)) < 1e-7 + (t < 1e-3 ? 4e-3*t+4e-6 : 0), "derivatives of the inverse and of the map compose to %g at (%d,%d)", s, i, j); } }
  else if (t > PI+1e-2 && t < 2*PI-1e-2) for (i = 0; i < 3; ++i) MC_CHECK("recover", fabs(o2[i]+om[i]/t*(2*PI-t)) < 1e-9, "coordinate %d is recovered as %.12g, expected %.12g", i, o2[i], -om[i]/t*(2*PI-t)); }
static int gcd_(int a, int b) { a = abs(a); b = abs(b); while (b) { int c = a % b; a = b; b = c; } return a; }
static int axis(double *r) { int n = MC_TIER(2,4), x = mc_choose(2*n+1)-n, y = mc_choose(2*n+1)-n, z = mc_choose(2*n+1)-n; double m = sqrt(x*x+y*y+z*z); if (!m || gcd_(gcd_(x,y),z) != 1) mc_skip(); r[0] = x/m; r[1] = y/m; r[2] = z/m; return 1; }
static void grid(void) { double r[3], om[3]; int k, i, N = MC_BOUND(48,96,720); axis(r); for (k = 0; k <= 2*N; ++k) { double t = 2*PI*k/N; for (i = 0; i < 3; ++i) om[i] = r[i]*t; rotation(om); } }
static void tiny(void) { double r[3], om[3], b; int e, k, i, c = mc_choose(5); axis(r); b = c*PI/2; for (e = -16; e <= 0; ++e) for (k = 1; k < 10; k += MC_TIER(4,1)) { double d = k*pow(10,e), s; for (s = -1; s <= 1; s += 2) { for (i = 0; i < 3; ++i) om[i] = r[i]*(b+s*d); rotation(om); } } }
static void axes(void) { double r[3], om[3]; int i, j; double t = 0.1+mc_choose(MC_TIER(12,30))*.25; axis(r); /* an angle about an axis, then slight changes of the axis */ for (j = 0; j < 27; ++j) { double d[3] = {j%3-1, j/3%3-1, j/9-1}; int e; for (e = 2; e < 14; e += 3) { for (i = 0; i < 3; ++i) om[i] = r[i]*t + d[i]*pow(10,-e); rotation(om); } } }
static void rounded(void) { /* rotation matrices with rounding errors: products, entries off by an ulp, exact half turns and permutations */
  int m = mc_choose(4), i, j, k; double R[9], A[9], B[9], r[3], om[3]; if (m == 0) { int p = mc_choose(24), f[3], n, inv, a, b, s, det; int pe[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; (void)a; (void)b; n = p/4; s = p%4; for (i = 0; i < 3; ++i) f[i] = pe[n][i]; inv = (f[0] > f[1])+(f[0] > f[2])+(f[1] > f[2]); memset(R, 0, sizeof(R)); for (i = 0; i < 3; ++i) R[i+3*f[i]] = i < 2 ? (s >> i & 1 ? -1 : 1) : 1; det = (inv%2 ? -1 : 1)*(s == 1 || s == 2 ? -1 : 1); R[2+3*f[2]] *= det; for (k = 0; k < 729; ++k) { int q = k; memcpy(A, R, sizeof(R)); /* each diagonal entry and three others off by an ulp */ for (i = 0; i < 6; ++i, q /= 3) { static int const e[] = {0,4,8,1,2,5}; double *x = A+e[i]; if (q%3 == 1) *x = nextafter(*x, 9); else if (q%3 == 2) *x = nextafter(*x, -9); } inverse(A, 1e-12, "rounded"); } return; }
  axis(r); for (k = 0; k <= 96; ++k) { double t = 2*PI*k/96; for (i = 0; i < 3; ++i) om[i] = r[i]*t; vl_rodrigues(A, NULL, om); mc_note("axis (%g,%g,%g) angle %g, product %d", r[0], r[1], r[2], t, m); if (m == 1) for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) B[i+3*j] = A[j+3*i]; else if (m == 2) memcpy(B, A, sizeof(A)); else { om[0] = .3*t; om[1] = -.2; om[2] = .1*k; vl_rodrigues(B, NULL, om); } for (i = 0; i < 3; ++i) for (j = 0; j < 3; ++j) { int l; R[i+3*j] = 0; for (l = 0; l < 3; ++l) R[i+3*j] += A[i+3*l]*B[l+3*j]; } inverse(R, 1e-11, "rounded"); } }
mc_suite mc_suites[] = {
 {"grid", grid, "all axes with coordinates -2..2 (-4..4) x 193 (1441) angles from 0 to 4 pi"},
 {"tiny", tiny, "all axes x multiples of a quarter turn and 17 decades around them, both sides"},
 {"axes", axes, "all axes x 12 (30) angles x 26 slight changes in 4 decades"},
 {"rounded", rounded, "the 24 signed permutations with six entries off by an ulp, products of rotations with their inverses, themselves and others"},
 {0}};
