/* C41: distance matrices and image operators of the toolbox equal their definitions. */
#include "mc.h"
#include "mex.h"
#include "zoo.h"
#include <vl/generic.h>
#define F(n) extern void mex_##n(int, mxArray **, int, const mxArray **);
F(vl_alldist) F(vl_alldist2) F(vl_tpsumx) F(vl_imwbackwardmx) F(vl_imsmooth) F(vl_imdisttf)

/* ---- distances ---- */
static const char *MET[] = {"linf", "L2", "l1", "L0", "chi2", "HELL", "kl2", "KL1", "kchi2", "khell", "min", "js", "kjs"};
enum { LINF, L2, L1, L0, CHI2, HELL, KL2, KL1, KCHI2, KHELL, MIN, JS, KJS };
static double term(int m, int isint, double x, double y) {
  double d = fabs(x - y), s = x + y;
  switch (m) {
    case LINF: case L1: return d; case L2: return d * d; case L0: return x != y; case CHI2: return s == 0 ? 0 : isint ? floor(d * d / s) : d * d / s;
    case HELL: return isint ? s - 2 * floor(sqrt(x * y)) : s - 2 * sqrt(x * y); case KL2: return x * y; case KL1: case MIN: return x < y ? x : y;
    case KCHI2: if (isint) s = floor(s / 2) * 2; return s == 0 ? 0 : isint ? floor(x * y / (s / 2)) : 2 * x * y / s;
    case KHELL: return isint ? floor(sqrt(x * y)) : sqrt(x * y);
    case JS: return (x > 0 ? x * log2(2 * x / s) : 0) + (y > 0 ? y * log2(2 * y / s) : 0); default: return .5 * ((x > 0 ? x * log2(s / x) : 0) + (y > 0 ? y * log2(s / y) : 0));
  }
}
static const mxClassID DC[8] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxUINT8_CLASS, mxINT8_CLASS, mxUINT16_CLASS, mxINT16_CLASS, mxUINT32_CLASS, mxINT32_CLASS};
static const mxClassID AC[8] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxUINT32_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT32_CLASS};
/* for the metrics of non-negative values the last two are left out */
static const double DV[8][7] = {{0, 2, 1, 0.25, 3, -1, -4.5}, {0, 2, 1, 0.25, 3, -1, -4.5}, {0, 2, 1, 255, 100, 3, 7}, {0, 2, 1, 127, 100, -1, -128}, {0, 2, 1, 30000, 300, 3, 255}, {0, 2, 1, 16000, 300, -1, -200}, {0, 2, 1, 30000, 300, 3, 255}, {0, 2, 1, 16000, 300, -1, -9000}};
static int pure(int m) { return m == CHI2 || m == HELL || m == KCHI2 || m == KHELL || m == JS || m == KJS; }
static void cmp(const char *fn, mxArray *A, mxArray *B, const double *a, const double *b, int L, int n, int m, int met, int cls, int cs, mxArray *D) {
  MC_CHECK("dist", mx_is(D, AC[cls], n, m), "%s: class or size of the result of %s", fn, MET[met]);
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) {
    double e = 0, mag = 0; for (int l = 0; l < L; l++) { double x = a[i * L + l], y = b[j * L + l], t = term(met, cs, x, y); if (met == LINF) e = t > e ? t : e; else e += t; mag += fabs(x) + fabs(y) + fabs(t); }
    double g = mxv(D, j * n + i); MC_CHECK("dist", cls > 1 ? g == e : fabs(g - e) <= mag * (cls ? 2e-6 : 1e-14), "%s(%s, %s, %s) = %s: entry (%d, %d) should be %.12g", fn, show(A), B ? show(B) : "self", MET[met], show(D), i + 1, j + 1, e);
  }
  mc_state(mx_hash(D));
}
static void s_alldist(void) {
  mx_release(); static const int sh[][4] = {{0, 1, 2, 3}, {1, 0, 2, 3}, {2, 1, 0, 3}, {1, 1, 1, 7}, {1, 2, 1, 7}, {2, 1, 1, 7}, {1, 1, 3, 4}, {3, 1, 1, 4}, {2, 2, 1, 4}, {2, 1, 2, 4}, {1, 3, 2, 3}, {2, 2, 2, 3}, {4, 1, 1, 4}, {3, 2, 1, 3}};
  int two = mc_choose(2), s = mc_choose(MC_BOUND(11, 12, 14)), c = mc_choose(two ? 8 : 2), met = mc_choose(two ? 11 : 13), self = mc_choose(2), L = sh[s][0], n = sh[s][1], m = self ? n : sh[s][2], nv = sh[s][3]; double a[16], b[16];
  if (nv > 5 && (pure(met) || (!two && met == KL1))) nv = 5;
  for (int i = 0; i < L * n; i++) a[i] = DV[c][mc_choose(nv)];
  for (int i = 0; i < L * m; i++) b[i] = self ? a[i] : DV[c][mc_choose(nv)];
  mxArray *A = mx2(DC[c], L, n, a), *B = self ? 0 : mx2(DC[c], L, m, b), *in[3] = {A}, *D; int k = 1; if (!self) in[k++] = B; if (met != L2 || s % 2) in[k++] = str(MET[met]);
  int r = mex_call(two ? mex_vl_alldist2 : mex_vl_alldist, 1, &D, k, in); const char *fn = two ? "vl_alldist2" : "vl_alldist";
  mc_note("%s(%s, %s, %s) -> %s", fn, show(A), B ? show(B) : "self", MET[met], r ? mex_message : show(D));
  if (!two && (met == LINF || met == L0 || met == MIN)) { MC_CHECK("dist", r == 1 || met == LINF || met == L0, "vl_alldist accepts %s", MET[met]); if (r) return; }
  MC_CHECK("dist", r == 0, "%s(%s, %s, %s): error '%s'", fn, show(A), B ? show(B) : "self", MET[met], mex_message);
  cmp(fn, A, B, a, b, L, n, m, met, c, c > 1, D);
}
/* long vectors take the paths that use vector instructions */
static void s_alldist_long(void) {
  mx_release(); int L = 1 + mc_choose(40), c = mc_choose(2), met = mc_choose(13), self = mc_choose(2), n = 1 + mc_choose(3), m = self ? n : 1 + mc_choose(2), p = mc_choose(4); double a[160], b[160];
  if (met == LINF || met == L0 || met == MIN) return;
  for (int i = 0; i < L * n; i++) { a[i] = (i * (7 + p) + i / 3) % 11 * 0.25; if (!pure(met) && met != KL1 && i % 3 == 1) a[i] = -a[i]; } for (int i = 0; i < L * m; i++) b[i] = self ? a[i] : (i * (5 + p) + i / 5) % 13 * 0.25;
  mxArray *A = mx2(DC[c], L, n, a), *B = mx2(DC[c], L, m, b), *in[3] = {A, B, str(MET[met])}, *D; if (self) in[1] = in[2];
  int r = mex_call(mex_vl_alldist, 1, &D, self ? 2 : 3, in); mc_note("vl_alldist of %d-vectors, %s", L, MET[met]); MC_CHECK("dist", r == 0, "vl_alldist: error '%s'", mex_message);
  cmp("vl_alldist", A, self ? 0 : B, a, b, L, n, m, met, c, 0, D);
}
static mxArray *sp(const int *k, const double *v, int L, int n) {   /* k: 0 absent */
  int nz = 0; for (int i = 0; i < L * n; i++) nz += k[i] > 0; mxArray *a = mxCreateSparse(L, n, nz ? nz : 1, mxREAL); double *p = mxGetPr(a); mwIndex *ir = mxGetIr(a), *jc = mxGetJc(a); nz = 0;
  for (int j = 0; j < n; j++) { jc[j] = nz; for (int i = 0; i < L; i++) if (k[j * L + i]) { ir[nz] = i; p[nz++] = v[j * L + i]; } } jc[n] = nz; return a;
}
static void s_alldist_sparse(void) {
  mx_release(); static const int sh[][3] = {{0, 1, 2}, {2, 0, 1}, {2, 1, 0}, {1, 1, 1}, {1, 2, 2}, {2, 1, 1}, {2, 1, 2}, {3, 1, 1}, {2, 2, 1}, {2, 2, 2}, {3, 2, 1}, {4, 1, 1}}; static const double V[] = {0, 2, 0.25, 0, -1.5};
  int s = mc_choose(MC_BOUND(9, 9, 12)), met = mc_choose(11), self = mc_choose(2), L = sh[s][0], n = sh[s][1], m = self ? n : sh[s][2], nv = pure(met) ? 4 : 5, k[2][16]; double v[2][16];
  for (int i = 0; i < L * n; i++) v[0][i] = V[k[0][i] = mc_choose(nv)];
  for (int i = 0; i < L * m; i++) v[1][i] = self ? v[0][i] : V[k[1][i] = mc_choose(nv)];
  mxArray *A = sp(k[0], v[0], L, n), *B = self ? 0 : sp(k[1], v[1], L, m), *in[3] = {A}, *D; int q = 1; if (!self) in[q++] = B; in[q++] = str(MET[met]);
  int r = mex_call(mex_vl_alldist2, 1, &D, q, in); mc_note("vl_alldist2 of sparse %dx%d, %d columns, %s", L, n, m, MET[met]);
  MC_CHECK("sparse", r == 0, "vl_alldist2 of sparse matrices: error '%s'", mex_message);
  cmp("vl_alldist2", mx2(mxDOUBLE_CLASS, L, n, v[0]), self ? 0 : mx2(mxDOUBLE_CLASS, L, m, v[1]), v[0], v[1], L, n, m, met, 0, 0, D);
  if (!self) { mxArray *f = mx2(mxDOUBLE_CLASS, L, m, v[1]); in[1] = f; r = mex_call(mex_vl_alldist2, 1, &D, q, in); mc_case(1); MC_CHECK("sparse", r == 1 || !L || !m || !n, "vl_alldist2 accepts a sparse and a full matrix"); in[0] = f; in[1] = A; r = mex_call(mex_vl_alldist2, 1, &D, q, in); mc_case(1); MC_CHECK("sparse", r == 1 || !L || !m || !n, "vl_alldist2 accepts a full and a sparse matrix"); }
}
/* ---- thin plate splines ---- */
static void s_tps(void) {
  mx_release(); static const double V[] = {0, 1, -2, 0.5, 1e-9, 100}; int n = mc_choose(MC_BOUND(3, 3, 4)), m = mc_choose(3), nv = n + m > 3 ? 3 : n + m > 2 ? 4 : 6; mxArray *X = mx2(mxDOUBLE_CLASS, 2, n, 0), *Y = mx2(mxDOUBLE_CLASS, 2, m, 0), *in[2] = {X, Y}, *U;
  for (int i = 0; i < 2 * n; i++) mxsv(X, i, V[mc_choose(nv)]); for (int i = 0; i < 2 * m; i++) mxsv(Y, i, V[mc_choose(nv)]);
  int r = mex_call(mex_vl_tpsumx, 1, &U, 2, in); mc_note("vl_tpsumx(%s, %s) -> %s", show(X), show(Y), r ? mex_message : show(U));
  MC_CHECK("tps", r == 0 && mx_is(U, mxDOUBLE_CLASS, n, m), "vl_tpsumx: error '%s'", mex_message);
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double dx = mxv(X, 2 * i) - mxv(Y, 2 * j), dy = mxv(X, 2 * i + 1) - mxv(Y, 2 * j + 1), r2 = dx * dx + dy * dy, e = r2 > 0 ? r2 * log(r2) : 0; MC_CHECK("tps", fabs(mxv(U, j * n + i) - e) <= 1e-14 + 1e-12 * fabs(e), "vl_tpsumx(%s, %s) = %s: entry (%d, %d) should be %g", show(X), show(Y), show(U), i + 1, j + 1, e); }
  mc_state(mx_hash(U));
}
/* ---- backward warping ---- */
static void s_warp(void) {
  mx_release(); static const double G[3][4] = {{1, 2, 3, 4}, {-1, 0.5, 2, 10}, {0, 4, 5, 5.25}}; static const double IV[] = {1, 3, -2, 0, 10, 0.5};
  int N = mc_choose(MC_BOUND(4, 4, 5)), M = mc_choose(MC_BOUND(4, 4, 5)), gx = mc_choose(3), gy = mc_choose(3), pat = mc_choose(MC_BOUND(4, 6, 8)), nout = 1 + mc_choose(3), col = mc_choose(2);
  mxArray *X = mx2(mxDOUBLE_CLASS, col ? N : 1, col ? 1 : N, G[gx]), *Y = mx2(mxDOUBLE_CLASS, col ? M : 1, col ? 1 : M, G[gy]), *I = mx2(mxDOUBLE_CLASS, M, N, 0), *out[3]; for (int i = 0; i < M * N; i++) mxsv(I, i, pat < 2 ? i == pat * 3 : IV[(i * (pat + 1) + i / 4) % 6]);
  double qx[40], qy[40]; int a = 0, b = 0;
  for (int i = 0; i < N; i++) { qx[a++] = G[gx][i]; if (i < N - 1) { qx[a++] = .5 * (G[gx][i] + G[gx][i + 1]); qx[a++] = .9 * G[gx][i] + .1 * G[gx][i + 1]; } } qx[a++] = G[gx][0] - .25; qx[a++] = NAN; qx[a++] = G[gx][N ? N - 1 : 0] + 1e-6; qx[a++] = -INFINITY; qx[a++] = 1e300;
  for (int i = 0; i < M; i++) { qy[b++] = G[gy][i]; if (i < M - 1) qy[b++] = .25 * G[gy][i] + .75 * G[gy][i + 1]; } qy[b++] = G[gy][0] - 1; qy[b++] = NAN; qy[b++] = INFINITY;
  mxArray *QX = mx2(mxDOUBLE_CLASS, b, a, 0), *QY = mx2(mxDOUBLE_CLASS, b, a, 0), *in[5] = {X, Y, I, QX, QY}; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { mxsv(QX, i * b + j, qx[i]); mxsv(QY, i * b + j, qy[j]); }
  int r = mex_call(mex_vl_imwbackwardmx, nout, out, 5, in); mc_note("vl_imwbackwardmx(%s, %s, %s), %d results", show(X), show(Y), show(I), nout);
  if (N && M) MC_CHECK("warp", r == 0, "vl_imwbackwardmx(%s, %s, %s): error '%s'", show(X), show(Y), show(I), mex_message); if (r) return;
  for (int k = 0; k < nout; k++) MC_CHECK("warp", mx_is(out[k], mxDOUBLE_CLASS, b, a), "vl_imwbackwardmx: size of result %d", k + 1);
  for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) {
    double x = qx[i], y = qy[j], e[3] = {NAN, NAN, NAN}; int kx = -1, ky = -1, in1 = N && M && x >= G[gx][0] && x <= G[gx][N - 1] && y >= G[gy][0] && y <= G[gy][M - 1], amb = 0;
    if (in1) {
      for (kx = 0; kx < N - 2 && x >= G[gx][kx + 1]; kx++); for (ky = 0; ky < M - 2 && y >= G[gy][ky + 1]; ky++);
      double hx = N > 1 ? G[gx][kx + 1] - G[gx][kx] : 1, hy = M > 1 ? G[gy][ky + 1] - G[gy][ky] : 1, wx = (x - G[gx][kx]) / hx, wy = (y - G[gy][ky]) / hy; int nx = N > 1, ny = M > 1;
      double z00 = mxv(I, kx * M + ky), z10 = ny ? mxv(I, kx * M + ky + 1) : z00, z01 = nx ? mxv(I, (kx + 1) * M + ky) : z00, z11 = nx ? mxv(I, (kx + nx) * M + ky + ny) : z10;
      e[0] = (1 - wy) * ((1 - wx) * z00 + wx * z01) + wy * ((1 - wx) * z10 + wx * z11); e[1] = ((1 - wy) * (z01 - z00) + wy * (z11 - z10)) / hx; e[2] = ((1 - wx) * (z10 - z00) + wx * (z11 - z01)) / hy; amb = (N == 1) | (M == 1) << 1;
    }
    for (int k = 0; k < nout; k++) { double g = mxv(out[k], i * b + j); if (k && amb) continue; MC_CHECK(k ? "warp-derivative" : "warp", isnan(e[k]) ? isnan(g) : fabs(g - e[k]) <= 1e-12 * (1 + fabs(e[k])), "vl_imwbackwardmx(%s, %s, %s): at (%g, %g) result %d is %g rather than %g", show(X), show(Y), show(I), x, y, k + 1, g, e[k]); }
  }
  mc_state(mx_hash(out[0]));
}
/* ---- smoothing ---- */
static int kern(int tri, double s, double *f) { int W; double acc = 0; if (tri) { W = s < 1 ? 1 : (int)s; for (int i = -W; i <= W; i++) f[i + 40] = W - abs(i); W -= 1; } else { W = ceil(4 * s); for (int i = -W; i <= W; i++) f[i + 40] = i ? exp(-.5 * (i / s) * (i / s)) : 1; } for (int i = -W; i <= W; i++) acc += f[i + 40]; for (int i = -W; i <= W; i++) f[i + 40] /= acc; return W; }
static void s_smooth(void) {
  mx_release(); static const int sh[][3] = {{1, 1, 1}, {1, 4, 1}, {5, 1, 1}, {3, 2, 1}, {2, 3, 2}, {4, 5, 1}, {6, 3, 3}, {7, 9, 1}, {0, 3, 1}, {3, 0, 1}, {2, 2, 0}, {0, 0, 1}, {9, 6, 2}, {1, 17, 1}, {17, 2, 1}}; static const double S[] = {0.5, 1, 1.3, 2.2, 0, 0.005, 0.3, 4, 6.7};
  int s = mc_choose(MC_BOUND(13, 13, 15)), c = mc_choose(2), si = mc_choose(MC_BOUND(6, 9, 9)), tri = mc_choose(3), pad = mc_choose(3), step = mc_choose(MC_BOUND(3, 4, 5)), M = sh[s][0], N = sh[s][1], K = sh[s][2], n = M * N * K, pat = mc_choose(MC_BOUND(n < 7 ? n + 2 : 8, n < 14 ? n + 2 : 16, n + 4)), nd = K == 1 ? 2 : 3;
  mxArray *I = mxn(DC[c], nd, M, N, K), *in[8] = {I, sc(S[si])}, *J; int k = 2; if (n && pat >= n + 4) return;
  for (int i = 0; i < n; i++) mxsv(I, i, pat == 0 ? 1 : pat & 1 ? (i * (pat + 4) + i / 5) % 9 : i == (pat * 3 + n / 2) % n);
  if (tri) { in[k++] = str(tri == 1 ? "Kernel" : "kernel"); in[k++] = str(tri == 1 ? "triangular" : "GAUSSIAN"); } if (pad) { in[k++] = str("padding"); in[k++] = str(pad == 1 ? "Zero" : "continuity"); } if (step) { in[k++] = str("Subsample"); in[k++] = sc(step); }
  int r = mex_call(mex_vl_imsmooth, 1, &J, k, in), st = step ? step : 1; mc_note("vl_imsmooth(%s, %g, %s, %s, step %d) -> %s", show(I), S[si], tri == 1 ? "triangular" : "gaussian", pad == 1 ? "zero" : "continuity", st, r ? mex_message : show(J));
  if (!n && r) return; MC_CHECK("smooth", r == 0, "vl_imsmooth(%s, %g): error '%s'", show(I), S[si], mex_message);
  int Mo = (M + st - 1) / st, No = (N + st - 1) / st; const mwSize *d = mxGetDimensions(J); MC_CHECK("smooth", mxGetClassID(J) == DC[c] && mxGetNumberOfDimensions(J) == mxGetNumberOfDimensions(I) && d[0] == Mo && d[1] == No && (nd < 3 || d[2] == K), "vl_imsmooth(%s, %g, step %d): class or size of the result %s", show(I), S[si], st, show(J)); if (!n) return;
  double f[81]; int W = S[si] == 0 ? 0 : kern(tri == 1, S[si], f); if (S[si] == 0) f[40] = 1;
  for (int q = 0; q < K; q++) for (int x = 0; x < No; x++) for (int y = 0; y < Mo; y++) {
    double e = 0; for (int dx = -W; dx <= W; dx++) for (int dy = -W; dy <= W; dy++) { int u = x * st + dx, v = y * st + dy; if (pad == 1 && (u < 0 || u >= N || v < 0 || v >= M)) continue; u = u < 0 ? 0 : u >= N ? N - 1 : u; v = v < 0 ? 0 : v >= M ? M - 1 : v; e += f[dx + 40] * f[dy + 40] * mxv(I, (q * N + u) * M + v); }
    double g = mxv(J, (q * No + x) * Mo + y); MC_CHECK("smooth", fabs(g - e) <= 2e-6 * (1 + fabs(e)), "vl_imsmooth(%s, %g, %s, %s, step %d): pixel (%d, %d) of channel %d is %.9g rather than %.9g", show(I), S[si], tri == 1 ? "triangular" : "gaussian", pad == 1 ? "zero" : "continuity", st, y + 1, x + 1, q + 1, g, e);
  }
  mc_state(mx_hash(J));
}
static void s_smooth_odd(void) {   /* unusual values of the parameters: an error or a sensible result, never harm */
  mx_release(); static const double V[] = {1, 0, -1, -0.001, NAN, INFINITY, -INFINITY, 1e300, 0.5, 3, 1e6, 4294967297.0}; mxArray *I = mx2(mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS, 3, 4, 0), *in[6] = {I, sc(V[mc_choose(11)]), str("subsample"), sc(V[mc_choose(12)]), str("kernel"), str(mc_choose(2) ? "triangular" : "gaussian")}, *J; for (int i = 0; i < 12; i++) mxsv(I, i, i * i % 7);
  double s = mxv(in[1], 0), st = mxv(in[3], 0); mc_note("vl_imsmooth with sigma %g and step %g", s, st); int r = mex_call(mex_vl_imsmooth, 1, &J, 6, in);
  if (isnan(s) || s < 0) MC_CHECK("smooth-arguments", r == 1, "vl_imsmooth accepts a standard deviation of %g", s);
  if (!(st >= 1)) MC_CHECK("smooth-arguments", r == 1, "vl_imsmooth accepts a step of %g", st);
}
/* ---- distance transform ---- */
static void s_dtf(void) {
  mx_release(); static const int sh[][3] = {{0, 2, 1}, {2, 0, 1}, {1, 1, 4}, {1, 3, 5}, {3, 1, 5}, {2, 2, 5}, {2, 3, 3}, {3, 2, 3}, {1, 5, 3}, {4, 2, 2}, {3, 3, 2}, {1, 6, 3}, {3, 3, 3}}; static const double V[] = {0, 1, 2.5, 20, -3}; static const double P[][4] = {{1, 0, 1, 0}, {0.5, 1, 2, -0.5}, {2, 0, 0.25, 3}, {0.1, 0.5, 0.1, 0}, {0, 0, 1, 0}, {1, 0, 0, 0.5}, {0, 0, 0, 0}, {3, -5, 1, 100}};
  int s = mc_choose(MC_BOUND(10, 11, 13)), c = mc_choose(2), p = mc_choose(9) - 1, nout = 1 + mc_choose(2), col = mc_choose(2), M = sh[s][0], N = sh[s][1]; mxArray *I = mx2(DC[c], M, N, 0), *in[2] = {I, p < 0 ? 0 : mx2(mxDOUBLE_CLASS, col ? 4 : 1, col ? 1 : 4, P[p])}, *out[2]; for (int i = 0; i < M * N; i++) mxsv(I, i, V[mc_choose(sh[s][2])]);
  if (p < 0) p = 0; int r = mex_call(mex_vl_imdisttf, nout, out, in[1] ? 2 : 1, in); mc_note("vl_imdisttf(%s, [%g %g %g %g]) -> %s", show(I), P[p][0], P[p][1], P[p][2], P[p][3], r ? mex_message : show(out[0]));
  MC_CHECK("dtf", r == 0 && mx_is(out[0], DC[c], M, N) && (nout < 2 || mx_is(out[1], mxDOUBLE_CLASS, M, N)), "vl_imdisttf(%s): error '%s' or size", show(I), mex_message);
  for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) {
    double e = INFINITY; for (int u = 0; u < N; u++) for (int v = 0; v < M; v++) { double t = mxv(I, u * M + v) + P[p][0] * (x - u - P[p][1]) * (x - u - P[p][1]) + P[p][2] * (y - v - P[p][3]) * (y - v - P[p][3]); if (t < e) e = t; }
    double g = mxv(out[0], x * M + y), tol = 1e-5 * (1 + fabs(e)); MC_CHECK("dtf", fabs(g - e) <= tol, "vl_imdisttf(%s, [%g %g %g %g]) = %s: pixel (%d, %d) should be %g", show(I), P[p][0], P[p][1], P[p][2], P[p][3], show(out[0]), y + 1, x + 1, e);
    if (nout > 1) { double id = mxv(out[1], x * M + y); int q = id - 1; MC_CHECK("dtf-index", id == q + 1 && q >= 0 && q < M * N, "vl_imdisttf(%s): index %g", show(I), id); int u = q / M, v = q % M; double t = mxv(I, q) + P[p][0] * (x - u - P[p][1]) * (x - u - P[p][1]) + P[p][2] * (y - v - P[p][3]) * (y - v - P[p][3]); MC_CHECK("dtf-index", fabs(t - e) <= tol, "vl_imdisttf(%s, [%g %g %g %g]): pixel (%d, %d) comes from %d, which gives %g rather than %g", show(I), P[p][0], P[p][1], P[p][2], P[p][3], y + 1, x + 1, q + 1, t, e); }
  }
  mc_state(mx_hash(out[0]));
}
static void s_odd(void) {         /* not-a-number, infinite and huge values: termination and memory */
  mx_release(); static const double V[] = {0, NAN, INFINITY, -INFINITY, 1e300, 1, -1}; mxArray *I = mx2(DC[mc_choose(2)], 1, 3, 0), *P = mx2(mxDOUBLE_CLASS, 1, 4, 0), *in[5] = {I, P}, *out[3]; mxsv(P, 0, V[mc_choose(7)]), mxsv(P, 1, V[mc_choose(7)]); mxsv(P, 2, 1); mxsv(P, 3, V[mc_choose(7)]);
  for (int i = 0; i < 3; i++) mxsv(I, i, V[mc_choose(7)]); mc_note("vl_imdisttf(%s, %s)", show(I), show(P));
  int r = mex_call(mex_vl_imdisttf, 2, out, 2, in); if (r == 0) for (int i = 0; i < 3; i++) MC_CHECK("dtf-index", mxv(out[1], i) >= 1 && mxv(out[1], i) <= 3, "vl_imdisttf(%s, %s): index %g", show(I), show(P), mxv(out[1], i));
  mxArray *G = mx2(mxDOUBLE_CLASS, 1, 3, 0), *y = sc(1), *Q = mx2(mxDOUBLE_CLASS, 1, 3, 0); for (int i = 0; i < 3; i++) mxsv(G, i, mxv(P, i)), mxsv(Q, i, mxv(I, i)); in[0] = G; in[1] = y; in[2] = mx2(mxDOUBLE_CLASS, 1, 3, 0); in[3] = Q; in[4] = mx2(mxDOUBLE_CLASS, 1, 3, 0); for (int i = 0; i < 3; i++) mxsv(in[4], i, 1);
  mc_note("vl_imwbackwardmx(%s, 1, 1x3, %s, ones)", show(G), show(Q)); mex_call(mex_vl_imwbackwardmx, 3, out, 5, in); mc_case(1);
}
/* ---- arguments of every kind ---- */
static void s_args(void) {
  mx_release(); static const double v[] = {1, 2, 3, 2, 1, 1, 4, 0, 2}; mxArray *in[12] = {0}, *m = mx2(mxDOUBLE_CLASS, 3, 3, v);
  switch (mc_choose(6)) {
    case 0: in[0] = m; in[1] = m; in[2] = str("l1"); try_all("vl_alldist", mex_vl_alldist, 1, -1, 1, in, 3, 0); break;
    case 1: in[0] = m; in[1] = m; in[2] = str("l1"); try_all("vl_alldist2", mex_vl_alldist2, 1, -1, 1, in, 3, 7); break;
    case 2: in[0] = mx2(mxDOUBLE_CLASS, 2, 3, v); in[1] = mx2(mxDOUBLE_CLASS, 2, 2, v); try_all("vl_tpsumx", mex_vl_tpsumx, 2, 2, 1, in, 2, 0); break;
    case 3: in[0] = mx2(mxDOUBLE_CLASS, 1, 3, v); in[1] = mx2(mxDOUBLE_CLASS, 3, 1, v); in[2] = m; in[3] = m; in[4] = m; try_all("vl_imwbackwardmx", mex_vl_imwbackwardmx, 5, 5, 3, in, 5, 0); break;
    case 4: in[0] = m; in[1] = sc(1); in[2] = str("padding"); in[3] = str("zero"); in[4] = str("subsample"); in[5] = sc(2); try_all("vl_imsmooth", mex_vl_imsmooth, 2, -1, 1, in, 6, 0); break;
    case 5: in[0] = m; in[1] = mx2(mxDOUBLE_CLASS, 1, 4, v); try_all("vl_imdisttf", mex_vl_imdisttf, 1, 2, 2, in, 2, 0); break;
  }
}
mc_suite mc_suites[] = {
  {"alldist", s_alldist, "full matrices of up to 2x3, 8 classes, 13 metrics"}, {"alldist-long", s_alldist_long, "columns of 1-40 values"}, {"alldist-sparse", s_alldist_sparse, "every sparsity pattern of up to 2x2, explicit zeros"},
  {"tps", s_tps, "up to 3 points and 2 control points"}, {"warp", s_warp, "grids of up to 4x4, locations on, between and outside the samples"}, {"smooth", s_smooth, "up to 7x9 pixels, 9 deviations, kernels, paddings, steps"}, {"smooth-odd", s_smooth_odd, "unusual parameters"},
  {"odd", s_odd, "non-finite images, parameters, grids and locations"}, {"dtf", s_dtf, "every image of up to 3x3 over small alphabets, 8 parameters"}, {"args", s_args, "arguments of 30 kinds"}, {0}};
