/* C39: the counting and lookup functions of the toolbox equal their definitions.
   The MEX functions are run inside a small stand-in for MATLAB (lib/mexsim). */
#include "mc.h"
#include "mex.h"
#define F(n) extern void mex_##n(int, mxArray **, int, const mxArray **);
F(vl_binsum) F(vl_binsearch) F(vl_ihashsum) F(vl_ihashfind) F(vl_inthist) F(vl_sampleinthist) F(vl_localmax) F(vl_cummax) F(vl_imintegral)
static const mxClassID CL[10] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT8_CLASS, mxUINT8_CLASS};
static mxArray *sc(double v) { return mxCreateDoubleScalar(v); }
static mxArray *nd3(mxClassID c, const int *d) { return mxn(c, 3, d[0], d[1], d[2]); }
static int dim3(const mxArray *a, int k) { return k < (int)mxGetNumberOfDimensions(a) ? (int)mxGetDimensions(a)[k] : 1; }
static char *show(const mxArray *a) {
  static char b[4][400]; static int t; char *s = b[t++ & 3]; int n = 0; size_t k = mxGetNumberOfElements(a);
  for (mwSize i = 0; i < mxGetNumberOfDimensions(a); i++) n += snprintf(s + n, 400 - n, "%s%d", i ? "x" : "", (int)mxGetDimensions(a)[i]);
  n += snprintf(s + n, 400 - n, "["); for (size_t i = 0; i < k && n < 360; i++) n += snprintf(s + n, 400 - n, "%s%.9g", i ? " " : "", mxv(a, i)); snprintf(s + n, 400 - n, "]"); return s;
}
static uint64_t hs(const mxArray *a) { return mx_hash(a); }
/* addition in the class of the accumulator: modular for integers */
static double addc(mxClassID c, double a, double b) {
  switch (c) { case mxSINGLE_CLASS: return (float)((float)a + (float)b); case mxINT8_CLASS: return (int8_t)(int)(a + b); case mxUINT8_CLASS: return (uint8_t)(int)(a + b);
    case mxINT16_CLASS: return (int16_t)(int)(a + b); case mxUINT16_CLASS: return (uint16_t)(int)(a + b);
    case mxINT32_CLASS: return (int32_t)(long long)(a + b); case mxUINT32_CLASS: return (uint32_t)(long long)(a + b);
    case mxUINT64_CLASS: return (double)((uint64_t)(int64_t)a + (uint64_t)(int64_t)b); default: return a + b; }
}
static int isint(mxClassID c) { return c != mxDOUBLE_CLASS && c != mxSINGLE_CLASS; }
static int isuns(mxClassID c) { return c == mxUINT8_CLASS || c == mxUINT16_CLASS || c == mxUINT32_CLASS || c == mxUINT64_CLASS; }

/* ---- vl_binsum ---- */
static void check_binsum(mxArray *H, mxArray *X, mxArray *B, int dim, int legal) {
  mxArray *in[4] = {H, X, B, dim ? sc(dim) : 0}, *out = 0; mxClassID c = mxGetClassID(H);
  size_t nh = mxGetNumberOfElements(H), nx = mxGetNumberOfElements(X), nb = mxGetNumberOfElements(B);
  int same = mxGetNumberOfDimensions(X) == mxGetNumberOfDimensions(B); for (int k = 0; k < 4; k++) same = same && dim3(X, k) == dim3(B, k);
  int ok = legal && (nx == 1 || (dim ? same : nx == nb)), vague = !dim && nx != 1 && nx == nb && !same;
  int KH = (int)nh; size_t srd = 1;
  if (dim) {
    if (dim > (int)mxGetNumberOfDimensions(H)) ok = 0;
    for (int k = 0; k < 4; k++) if (k != dim - 1 && dim3(H, k) != dim3(B, k)) ok = 0;
    KH = dim3(H, dim - 1); for (int k = 0; k < dim - 1; k++) srd *= dim3(H, k);
  }
  double *e = malloc((nh + 1) * sizeof *e); for (size_t i = 0; i < nh; i++) e[i] = mxv(H, i);
  if (ok) for (size_t i = 0; i < nb; i++) {
    double b = mxv(B, i); if (b < 0 || b > KH) { ok = 0; break; }
    if (b == 0) continue;
    size_t p = (size_t)b - 1;
    if (dim) { size_t lo = i % srd, hi = i / (srd * dim3(B, dim - 1)); p = lo + srd * ((size_t)b - 1) + srd * dim3(H, dim - 1) * hi; }
    e[p] = addc(c, e[p], mxv(X, nx == 1 ? 0 : i));
  }
  int r = mex_call(mex_vl_binsum, 1, &out, dim ? 4 : 3, in);
  mc_note("vl_binsum(%s, %s, %s, %d) -> %d %s", show(H), show(X), show(B), dim, r, r ? mex_message : show(out));
  if (r && vague) { free(e); return; }   /* same number of elements in another shape may be refused */
  if (!ok) MC_CHECK("binsum", r == 1, "vl_binsum(%s, %s, %s, DIM=%d) is not an error: result %s", show(H), show(X), show(B), dim, out ? show(out) : "none");
  else {
    MC_CHECK("binsum", r == 0, "vl_binsum(%s, %s, %s, DIM=%d): error '%s'", show(H), show(X), show(B), dim, mex_message);
    MC_CHECK("binsum", mxGetClassID(out) == c && mxGetNumberOfElements(out) == nh, "vl_binsum(%s, ...) returned %s", show(H), show(out));
    for (size_t i = 0; i < nh; i++) MC_CHECK("binsum", mxv(out, i) == e[i], "vl_binsum(%s, %s, %s, DIM=%d) = %s, element %zu should be %g", show(H), show(X), show(B), dim, show(out), i + 1, e[i]);
    mc_state(hs(out));
  }
  free(e);
}
static void s_binsum(void) {       /* no DIM: every list of indexes, every pair of classes */
  mx_release(); int ci = mc_choose(10), cj = mc_choose(10), nh = mc_choose(4), nb = mc_choose(MC_BOUND(4, 4, 5)), scal = mc_choose(2), sh = mc_choose(2);
  mxArray *H = mx2(CL[ci], sh ? nh : 1, sh ? 1 : nh, 0), *X = mx2(CL[ci], 1, scal ? 1 : nb, 0), *B = mx2(CL[cj], 1, nb, 0);
  for (int i = 0; i < nh; i++) mxsv(H, i, 100 + i);
  for (int i = 0; i < (scal ? 1 : nb); i++) mxsv(X, i, isint(CL[ci]) ? (isuns(CL[ci]) || i != 1 ? 60 + 3 * i : -5) : 0.25 + 1.5 * i);
  int lo = isuns(CL[cj]) ? 0 : -1;
  if (ci != cj && nb > 2) lo = 0;
  for (int i = 0; i < nb; i++) { int v = mc_choose(nh + 2 - lo) + lo; mxsv(B, i, v); }
  check_binsum(H, X, B, 0, 1);
}
static void s_binsum_dim(void) {
  mx_release(); int hd[3], bd[3], xd[3], top = 3;
  for (int k = 0; k < 3; k++) hd[k] = mc_choose(top);
  int dim = 1 + mc_choose(4), xs = mc_choose(4);
  for (int k = 0; k < 3; k++) bd[k] = mc_choose(top);
  for (int k = 0; k < 3; k++) xd[k] = xs == 0 ? 1 : bd[k];
  if (xs == 2) xd[2] = 3 - xd[2]; if (xs == 3) { int t = xd[0]; xd[0] = xd[1]; xd[1] = t; if (xd[0] == xd[1]) mc_skip(); }
  mxArray *H = nd3(mxDOUBLE_CLASS, hd), *X = nd3(mxDOUBLE_CLASS, xd), *B = nd3(mxINT32_CLASS, bd);
  for (size_t i = 0; i < mxGetNumberOfElements(H); i++) mxsv(H, i, 1000 * (i + 1));
  for (size_t i = 0; i < mxGetNumberOfElements(X); i++) mxsv(X, i, 1 << i);
  int pat = mc_choose(5), n = mxGetNumberOfElements(B), K = dim <= 3 ? hd[dim - 1] : 1;
  if (pat == 4 && !n) mc_skip();
  int bad = pat == 4 ? mc_choose(2 * n) : 0;
  for (int i = 0; i < n; i++) mxsv(B, i, pat == 0 ? 1 : pat == 1 ? i % (K + 1) : pat == 2 ? (i * 2 + 1) % (K + 1) : pat == 3 ? K : 0);
  if (pat == 4) mxsv(B, bad / 2, bad % 2 ? K + 1 : -1);
  check_binsum(H, X, B, dim, 1);
}
/* ---- vl_binsearch ---- */
static void s_binsearch(void) {
  mx_release(); static const double A[] = {-INFINITY, -1, 0, 0.5, 2, INFINITY}, XV[] = {-INFINITY, -1.5, -1, -0.25, 0, 0.25, 0.5, 1, 2, 3, INFINITY};
  int n = mc_choose(MC_BOUND(5, 6, 8)), v = 0, sh = mc_choose(4); mxArray *B = mx2(mxDOUBLE_CLASS, sh & 1 ? n : 1, sh & 1 ? 1 : n, 0), *X, *out;
  for (int i = 0; i < n; i++) { v += mc_choose(6 - v); mxsv(B, i, A[v]); }
  X = sh & 2 ? mxn(mxDOUBLE_CLASS, 3, 1, 11, 2) : mx2(mxDOUBLE_CLASS, 11, 1, 0);
  for (int i = 0; i < (int)mxGetNumberOfElements(X); i++) mxsv(X, i, XV[i % 11]);
  mxArray *in[2] = {B, X}; int r = mex_call(mex_vl_binsearch, 1, &out, 2, in);
  MC_CHECK("binsearch", r == 0, "vl_binsearch(%s): error '%s'", show(B), mex_message);
  MC_CHECK("binsearch", mxGetClassID(out) == mxDOUBLE_CLASS, "vl_binsearch: class of the result");
  for (int k = 0; k < 3; k++) MC_CHECK("binsearch", dim3(out, k) == dim3(X, k), "vl_binsearch: size of the result");
  for (int i = 0; i < (int)mxGetNumberOfElements(X); i++) { int e = 0; for (int j = 0; j < n; j++) e += mxv(B, j) <= mxv(X, i); MC_CHECK("binsearch", mxv(out, i) == e, "vl_binsearch(%s, %g) = %g, the bin is %d", show(B), mxv(X, i), mxv(out, i), e); }
  mc_case(mxGetNumberOfElements(X)); mc_state(hs(out));
}
/* ---- hash tables ---- */
static void check_table(mxArray *H, mxArray *ID, mxArray *NX, int D, const int *cnt, int nlab, const int (*lab)[2], int K) {
  int C = mxGetN(H);
  MC_CHECK("hash", mx_is(H, mxUINT32_CLASS, 1, C) && mx_is(NX, mxUINT32_CLASS, 1, C) && mx_is(ID, mxUINT8_CLASS, D, C) && C >= K, "vl_ihashsum: sizes of the table");
  for (int l = 0; l < nlab; l++) {
    int at = -1, many = 0; for (int j = 0; j < C; j++) { int q = 1; for (int d = 0; d < D; d++) q = q && mxv(ID, j * D + d) == lab[l][d]; if (q) { many++; at = j; } }
    MC_CHECK("hash", many == (cnt[l] > 0), "label [%d %d] seen %d times has %d entries in the table %s, K=%d", lab[l][0], lab[l][1], cnt[l], many, show(ID), K);
    if (cnt[l]) MC_CHECK("hash", mxv(H, at) == cnt[l], "label [%d %d] seen %d times has count %g; ID %s H %s NEXT %s, K=%d", lab[l][0], lab[l][1], cnt[l], mxv(H, at), show(ID), show(H), show(NX), K);
    mxArray *X = mx2(mxUINT8_CLASS, D, 1, 0), *in[4] = {ID, NX, sc(K), X}, *out; for (int d = 0; d < D; d++) mxsv(X, d, lab[l][d]);
    int r = mex_call(mex_vl_ihashfind, 1, &out, 4, in);
    MC_CHECK("hash", r == 0 && mx_is(out, mxUINT32_CLASS, 1, 1) && mxv(out, 0) == at + 1, "vl_ihashfind([%d %d]) = %s, the entry is %d; ID %s NEXT %s, K=%d", lab[l][0], lab[l][1], r ? mex_message : show(out), at + 1, show(ID), show(NX), K);
  }
  double tot = 0; int t = 0; for (int j = 0; j < C; j++) tot += mxv(H, j); for (int l = 0; l < nlab; l++) t += cnt[l];
  MC_CHECK("hash", tot == t, "the counts add up to %g after %d labels", tot, t);
}
static void s_hash(void) {         /* every sequence of labels, in one or several calls */
  mx_release(); int K = 1 + mc_choose(MC_BOUND(3, 5, 6)), D = 1 + mc_choose(2), extra = mc_choose(2) * 2, step = 1 + mc_choose(3), n = MC_BOUND(4, 5, 6);
  static const int L[][2] = {{1, 0}, {2, 1}, {0, 3}, {200, 1}, {7, 7}, {1, 2}, {3, 0}, {255, 255}}; int l1[8][2], nl = MC_BOUND(5, 6, 7), cnt[8] = {0};
  for (int i = 0; i < 8; i++) { l1[i][0] = D == 1 ? i + 1 + 40 * (i & 1) : L[i][0]; l1[i][1] = D == 1 ? 0 : L[i][1]; }
  mxArray *H = mx2(mxUINT32_CLASS, 1, K + extra, 0), *ID = mx2(mxUINT8_CLASS, D, K + extra, 0), *NX = mx2(mxUINT32_CLASS, 1, K + extra, 0), *out[3];
  for (int i = 0; i < n; i += step) {
    int m = i + step > n ? n - i : step; mxArray *X = mx2(mxUINT8_CLASS, D, m, 0);
    for (int j = 0; j < m; j++) { int l = mc_choose(nl); cnt[l]++; for (int d = 0; d < D; d++) mxsv(X, j * D + d, l1[l][d]); }
    mxArray *in[5] = {H, ID, NX, sc(K), X}; int r = mex_call(mex_vl_ihashsum, 3, out, 5, in);
    MC_CHECK("hash", r == 0, "vl_ihashsum: error '%s'", mex_message); H = out[0]; ID = out[1]; NX = out[2];
    mc_note("ihashsum K=%d X=%s -> H %s ID %s NEXT %s", K, show(X), show(H), show(ID), show(NX));
  }
  check_table(H, ID, NX, D, cnt, nl, (const int (*)[2])l1, K); mc_state(mc_mix(hs(H), mc_mix(hs(ID), hs(NX))));
}
static void s_hash_many(void) {    /* many labels: the overflow area grows several times */
  mx_release(); int K = 1 + mc_choose(MC_BOUND(7, 17, 40)), n = 1 + mc_choose(MC_BOUND(24, 60, 120)), rep = 1 + mc_choose(3), parts = 1 + mc_choose(3);
  static int cnt[256], lab[256][2]; for (int i = 0; i < n; i++) { cnt[i] = 0; lab[i][0] = 1 + (i * 7) % 251; lab[i][1] = (i * 13) % 256; }
  mxArray *H = mx2(mxUINT32_CLASS, 1, K, 0), *ID = mx2(mxUINT8_CLASS, 2, K, 0), *NX = mx2(mxUINT32_CLASS, 1, K, 0), *out[3];
  for (int p = 0; p < parts; p++) {
    int m = n * rep; mxArray *X = mx2(mxUINT8_CLASS, 2, m, 0);
    for (int j = 0; j < m; j++) { int l = (j * (2 * p + 1)) % n; cnt[l]++; mxsv(X, 2 * j, lab[l][0]); mxsv(X, 2 * j + 1, lab[l][1]); }
    mxArray *in[5] = {H, ID, NX, sc(K), X}; int r = mex_call(mex_vl_ihashsum, 3, out, 5, in); MC_CHECK("hash", r == 0, "vl_ihashsum: error '%s'", mex_message); H = out[0]; ID = out[1]; NX = out[2];
  }
  check_table(H, ID, NX, 2, cnt, n, (const int (*)[2])lab, K);
}
static void s_hash_bad(void) {     /* tables and arguments that are not well formed: an error, and no access outside them */
  mx_release(); static const double KS[] = {0, -1, 1, 2, 3, 4, 1e9}; int C = mc_choose(4), D = mc_choose(3), k = mc_choose(7), N = mc_choose(3), XD = mc_choose(3), nextv = mc_choose(5), full = mc_choose(2), find = mc_choose(2);
  mxArray *H = mx2(mxUINT32_CLASS, 1, C, 0), *ID = mx2(mxUINT8_CLASS, D, C, 0), *NX = mx2(mxUINT32_CLASS, 1, C, 0), *X = mx2(mxUINT8_CLASS, XD, N, 0), *out[3];
  for (int i = 0; i < C; i++) { for (int d = 0; d < D; d++) mxsv(ID, i * D + d, full ? 9 : 0); mxsv(H, i, full); mxsv(NX, i, nextv == 4 ? 4000000 : nextv == 3 ? (i + 1 < C ? i + 2 : 0) : nextv == 2 ? (i + 1) % C + 1 : nextv); }
  for (int i = 0; i < XD * N; i++) mxsv(X, i, 1 + i);
  int bad = KS[k] < 1 || KS[k] > C || XD != D || (nextv == 4 && C) || (nextv == 1 && C < 1), r;
  int cyc = C && (nextv == 2 || nextv == 1);
  if (find) { mxArray *in[4] = {ID, NX, sc(KS[k]), X}; r = mex_call(mex_vl_ihashfind, 1, out, 4, in); }
  else { mxArray *in[5] = {H, ID, NX, sc(KS[k]), X}; r = mex_call(mex_vl_ihashsum, 3, out, 5, in); }
  if (bad) MC_CHECK("hash", r == 1, "%s with C=%d, K=%g, D=%d, rows of X %d, NEXT %s is not an error", find ? "vl_ihashfind" : "vl_ihashsum", C, KS[k], D, XD, show(NX));
  else if (!cyc && D) MC_CHECK("hash", r == 0, "%s with C=%d, K=%g: error '%s'", find ? "vl_ihashfind" : "vl_ihashsum", C, KS[k], mex_message);
}
/* ---- integral histograms ---- */
static void s_inthist(void) {
  mx_release(); int d[3]; for (int k = 0; k < 3; k++) d[k] = mc_choose(3 + (k < 2));
  int n = d[0] * d[1] * d[2], pat = mc_choose(6), opt = mc_choose(4), mass = mc_choose(4), maxl = 0; if (pat > 1 && n > 4 && pat < 3) ;
  mxArray *L = nd3(mxUINT32_CLASS, d), *in[6], *out; int ni = 0; in[ni++] = L;
  for (int i = 0; i < n; i++) { int l = pat == 0 ? 0 : pat == 1 ? i % 3 : pat == 2 ? mc_choose(n > 6 ? 1 : 3) : pat == 3 ? n - i : pat == 4 ? (i >= d[0] * d[1] ? 4 : 1) : 1 + (i * 5 + 2) % 3; mxsv(L, i, l); if (l > maxl) maxl = l; }
  if (pat == 2 && n > 6) mc_skip();
  int nl = maxl, bad = 0; mxArray *Mm = 0;
  if (opt) { int q = opt == 1 ? maxl : opt == 2 ? maxl + 2 : maxl - 1; if (q < 1) mc_skip(); in[ni++] = mxCreateString("NumLabels"); in[ni++] = sc(q); nl = q; if (q < maxl) bad = 1; }
  if (mass) { int md[3] = {d[0], d[1], d[2]}; if (mass == 3) { if (d[2] < 2) mc_skip(); md[2] = 1; bad = 1; }
    Mm = nd3(mass == 2 ? mxUINT32_CLASS : mxDOUBLE_CLASS, md); for (int i = 0; i < (int)mxGetNumberOfElements(Mm); i++) mxsv(Mm, i, mass == 2 ? 1 + i * i : 0.5 + 1.25 * i); in[ni++] = mxCreateString(mass == 1 ? "Mass" : "MASS"); in[ni++] = Mm; }
  int r = mex_call(mex_vl_inthist, 1, &out, ni, in);
  mc_note("vl_inthist(%s) opt %d mass %d -> %s", show(L), opt, mass, r ? mex_message : show(out));
  if (bad) { MC_CHECK("inthist", r == 1, "vl_inthist(%s, NumLabels %d, mass %s) is not an error", show(L), opt ? nl : -1, Mm ? show(Mm) : "-"); return; }
  MC_CHECK("inthist", r == 0, "vl_inthist(%s): error '%s'", show(L), mex_message);
  mxClassID c = mass == 1 ? mxDOUBLE_CLASS : mxUINT32_CLASS;
  MC_CHECK("inthist", mxGetClassID(out) == c && dim3(out, 0) == d[0] && dim3(out, 1) == d[1] && dim3(out, 2) == nl, "vl_inthist(%s): the result is %s, NumLabels %d", show(L), show(out), nl);
  for (int k = 0; k < nl; k++) for (int j = 0; j < d[1]; j++) for (int i = 0; i < d[0]; i++) {
    double e = 0; for (int q = 0; q < d[2]; q++) for (int b = 0; b <= j; b++) for (int a = 0; a <= i; a++) { int p = a + d[0] * (b + d[1] * q); if (mxv(L, p) == k + 1) e += Mm ? mxv(Mm, p) : 1; }
    MC_CHECK("inthist", mxv(out, i + d[0] * (j + d[1] * k)) == e, "vl_inthist(%s, mass %s)(%d,%d,%d) = %g, not %g", show(L), Mm ? show(Mm) : "-", i + 1, j + 1, k + 1, mxv(out, i + d[0] * (j + d[1] * k)), e);
    mc_case(1);
  }
  mc_state(hs(out));
}
static void s_sample(void) {       /* every box on every small integral histogram */
  mx_release(); int d[3]; for (int k = 0; k < 3; k++) d[k] = mc_choose(4); int dbl = mc_choose(2), nb = mc_choose(3);
  mxArray *I = nd3(dbl ? mxDOUBLE_CLASS : mxUINT32_CLASS, d), *B = mx2(mxUINT32_CLASS, 4, nb, 0), *in[2] = {I, B}, *out; int n = d[0] * d[1] * d[2], bad = 0;
  for (int i = 0; i < n; i++) { int a = i % d[0], b = i / d[0] % d[1], k = i / d[0] / d[1]; double s = 0; for (int y = 0; y <= b; y++) for (int x = 0; x <= a; x++) s += 1 + ((x * 3 + y * 5 + k * 7) % 11) * (dbl ? 0.5 : 1); mxsv(I, i, s); }
  int bx[2][4]; for (int q = 0; q < nb; q++) for (int e = 0; e < 4; e++) { bx[q][e] = q == 0 ? mc_choose(d[e & 1] + 2) : (e < 2 ? 1 : d[e & 1]); if (q == 0 && nb == 2 && e == 3 && bx[0][3] != d[1]) mc_skip(); mxsv(B, 4 * q + e, bx[q][e]); }
  for (int q = 0; q < nb; q++) { int *b = bx[q]; if (b[0] > b[2] || b[1] > b[3]) continue; if (b[0] < 1 || b[1] < 1 || b[2] > d[0] || b[3] > d[1]) bad = 1; }
  int r = mex_call(mex_vl_sampleinthist, 1, &out, 2, in);
  mc_note("vl_sampleinthist(%s, %s) -> %s", show(I), show(B), r ? mex_message : show(out));
  if (bad) { MC_CHECK("sample", r == 1, "vl_sampleinthist of a %dx%dx%d histogram, boxes %s, is not an error", d[0], d[1], d[2], show(B)); return; }
  MC_CHECK("sample", r == 0, "vl_sampleinthist(%s, %s): error '%s'", show(I), show(B), mex_message);
  MC_CHECK("sample", mx_is(out, dbl ? mxDOUBLE_CLASS : mxUINT32_CLASS, d[2], nb), "vl_sampleinthist: the result is %s", show(out));
  for (int q = 0; q < nb; q++) for (int k = 0; k < d[2]; k++) {
    double e = 0; int *b = bx[q]; if (b[0] <= b[2] && b[1] <= b[3]) for (int y = b[1]; y <= b[3]; y++) for (int x = b[0]; x <= b[2]; x++) e += 1 + (((x - 1) * 3 + (y - 1) * 5 + k * 7) % 11) * (dbl ? 0.5 : 1);
    MC_CHECK("sample", mxv(out, k + d[2] * q) == e, "vl_sampleinthist of a %dx%dx%d histogram, box %d of %s, bin %d = %g, not %g", d[0], d[1], d[2], q + 1, show(B), k + 1, mxv(out, k + d[2] * q), e);
    mc_case(1);
  }
}
/* ---- vl_localmax ---- */
static void check_localmax(mxArray *A, int nargs, double th, int P) {
  mxArray *in[3] = {A, sc(th), sc(P)}, *out; int nd = mxGetNumberOfDimensions(A), n = mxGetNumberOfElements(A), d[4], p = nargs > 2 ? P : nd;
  for (int k = 0; k < 4; k++) d[k] = dim3(A, k);
  if (nargs < 3 && nd == 2 && (d[0] == 1 || d[1] == 1)) { d[0] = d[0] > d[1] ? d[0] : d[1]; d[1] = 1; p = 1; if (n == 0) d[0] = 0; }
  int r = mex_call(mex_vl_localmax, 1, &out, nargs, in);
  if (p > nd || p < 0) { MC_CHECK("localmax", r == 1, "vl_localmax(%s, %g, %d) is not an error", show(A), th, P); return; }
  MC_CHECK("localmax", r == 0, "vl_localmax(%s, %g, %d) of %d arguments: error '%s'", show(A), th, P, nargs, mex_message);
  MC_CHECK("localmax", mxGetClassID(out) == mxDOUBLE_CLASS && (mxGetM(out) == 1 || mxGetNumberOfElements(out) == 0), "vl_localmax: the result is %s", show(out));
  if (p == 0) return;
  static char sel[100000]; memset(sel, 0, n + 1); int m = mxGetNumberOfElements(out), want = 0;
  for (int i = 0; i < m; i++) { double v = mxv(out, i); MC_CHECK("localmax", v >= 1 && v <= n && v == floor(v) && !sel[(int)v - 1], "vl_localmax(%s, %g, P=%d) = %s", show(A), th, p, show(out)); sel[(int)v - 1] = 1; }
  for (int i = 0; i < n; i++) {
    int x[4], q = i, is = !(nargs > 1) || mxv(A, i) >= th; for (int k = 0; k < 4; k++) { x[k] = q % d[k]; q /= d[k]; }
    for (int k = 0; k < p; k++) if (x[k] == 0 || x[k] == d[k] - 1) is = 0;
    int tot = 1; for (int k = 0; k < p; k++) tot *= 3;
    for (int t = 0; is && t < tot; t++) { int o = 0, s = 1, u = t; for (int k = 0; k < p; k++) { o += (u % 3 - 1) * s; u /= 3; s *= d[k]; } if (o && !(mxv(A, i) > mxv(A, i + o))) is = 0; }
    want += is;
    MC_CHECK("localmax", is == sel[i], "vl_localmax(%s, %g, P=%d) = %s: element %d is %s local maximizer", show(A), nargs > 1 ? th : -INFINITY, p, show(out), i + 1, is ? "a" : "no");
  }
  mc_state(hs(out)); mc_case(n);
}
static void s_max1(void) {
  mx_release(); int n = mc_choose(MC_BOUND(7, 8, 9)), row = mc_choose(2), a = mc_choose(4); mxArray *A = mx2(mxDOUBLE_CLASS, row ? 1 : n, row ? n : 1, 0);
  for (int i = 0; i < n; i++) mxsv(A, i, mc_choose(3) - 1);
  check_localmax(A, a == 3 ? 3 : a + 1 > 2 ? 2 : a + 1, a == 1 ? 0 : a == 2 ? 1 : -5, row ? 2 : 1);
}
static void s_max2(void) {         /* 3x4 and 4x3 with every pattern of three values inside */
  mx_release(); int sh = mc_choose(4), d0 = sh == 0 ? 3 : sh == 1 ? 4 : sh == 2 ? 4 : 3, d1 = sh == 0 ? 3 : sh == 1 ? 3 : sh == 2 ? 4 : 5, th = mc_choose(2); mxArray *A = mx2(mxDOUBLE_CLASS, d0, d1, 0);
  if (sh == 0) { for (int i = 0; i < 9; i++) mxsv(A, i, mc_choose(mc_asan ? 2 : 3)); }
  else { for (int j = 0; j < d1; j++) for (int i = 0; i < d0; i++) mxsv(A, i + d0 * j, i && j && i < d0 - 1 && j < d1 - 1 ? mc_choose(4) : (i * 5 + j * 3) % 3); }
  for (int p = 0; p <= 2; p++) check_localmax(A, p ? 3 : 1 + th, th ? 2 : -INFINITY, p);
}
static void s_max3(void) {         /* arrays of three and four dimensions, every P; sizes down to zero */
  mx_release(); int d[4]; for (int k = 0; k < 4; k++) d[k] = mc_choose(k < 2 ? 5 : 4); int pat = mc_choose(6), n = d[0] * d[1] * d[2] * d[3], P = mc_choose(7);
  mxArray *A = mxn(mxDOUBLE_CLASS, 4, d[0], d[1], d[2], d[3]); uint32_t s = 7 + pat;
  for (int i = 0; i < n; i++) mxsv(A, i, pat == 0 ? 0 : pat == 1 ? (i * 7919) % 101 : pat == 2 ? ((i % (d[0] + 1)) * 3) % 4 : pat == 3 ? (i % d[0] == 1) : pat == 4 ? -fabs(i - n / 2.0) : mc_lcg(&s) % 50);
  check_localmax(A, P == 6 ? 1 : 3, pat == 5 ? 25 : -INFINITY, P);
}
/* ---- vl_cummax ---- */
static void s_cummax(void) {
  mx_release(); int c = mc_choose(10), d[3]; for (int k = 0; k < 3; k++) d[k] = mc_choose(k == 0 ? 5 : 4); int dim = mc_choose(5), n = d[0] * d[1] * d[2], pat = mc_choose(4);
  mxArray *X = nd3(CL[c], d), *in[2] = {X, sc(dim)}, *out; int nd = mxGetNumberOfDimensions(X);
  for (int i = 0; i < n; i++) mxsv(X, i, pat == 3 ? mc_choose(n > 6 ? 1 : 3) : (pat == 0 ? i * 37 % 101 : pat == 1 ? 100 - i : (i * 5) % 7) - (isuns(CL[c]) ? 0 : 50));
  if (pat == 3 && n > 6) mc_skip();
  int r = mex_call(mex_vl_cummax, 1, &out, dim ? 2 : 1, in), k = dim - 1;
  if (dim > nd) { MC_CHECK("cummax", r == 1, "vl_cummax(%s, %d) is not an error", show(X), dim); return; }
  if (!dim) for (k = 0; k < nd - 1 && d[k] == 1; k++) ;
  MC_CHECK("cummax", r == 0, "vl_cummax(%s, %d): error '%s'", show(X), dim, mex_message);
  MC_CHECK("cummax", mxGetClassID(out) == CL[c] && dim3(out, 0) == d[0] && dim3(out, 1) == d[1] && dim3(out, 2) == d[2], "vl_cummax(%s): the result is %s", show(X), show(out));
  int st = 1; for (int q = 0; q < k; q++) st *= d[q];
  for (int i = 0; i < n; i++) { double e = mxv(X, i); int x = i / st % d[k]; for (int q = 1; q <= x; q++) e = fmax(e, mxv(X, i - q * st)); MC_CHECK("cummax", mxv(out, i) == e, "vl_cummax(%s, %d) = %s: element %d should be %g", show(X), dim, show(out), i + 1, e); }
  mc_case(n); mc_state(hs(out));
}
/* ---- vl_imintegral ---- */
static void s_integral(void) {
  mx_release(); int c = mc_choose(10), d[3]; for (int k = 0; k < 3; k++) d[k] = mc_choose(k < 2 ? 5 : 4); int pat = mc_choose(4), n = d[0] * d[1] * d[2];
  mxArray *X = nd3(CL[c], d), *in[1] = {X}, *out; mxClassID k = CL[c]; int ok = c == 0 || c == 1 || c == 4 || c == 5;
  for (int i = 0; i < n; i++) mxsv(X, i, pat == 0 ? 1 : pat == 1 ? i + 1 : pat == 2 ? (i * 37) % 11 : (isuns(k) ? 3 : -3 + i));
  int r = mex_call(mex_vl_imintegral, 1, &out, 1, in);
  if (!ok) { MC_CHECK("integral", r == 1, "vl_imintegral accepts an unsupported class"); return; }
  MC_CHECK("integral", r == 0, "vl_imintegral(%s): error '%s'", show(X), mex_message);
  MC_CHECK("integral", mxGetClassID(out) == k && dim3(out, 0) == d[0] && dim3(out, 1) == d[1] && dim3(out, 2) == d[2], "vl_imintegral(%s): the result is %s", show(X), show(out));
  for (int q = 0; q < d[2]; q++) for (int j = 0; j < d[1]; j++) for (int i = 0; i < d[0]; i++) { double e = 0; for (int b = 0; b <= j; b++) for (int a = 0; a <= i; a++) e += mxv(X, a + d[0] * (b + d[1] * q)); double g = mxv(out, i + d[0] * (j + d[1] * q)); MC_CHECK("integral", g == e, "vl_imintegral(%s)(%d,%d,%d) = %g, not %g", show(X), i + 1, j + 1, q + 1, g, e); }
  mc_case(n); mc_state(hs(out));
}
/* ---- arguments of every kind, one or two at a time ---- */
enum { NZOO = 26 };
static mxArray *zoo(int k) {
  static const double v[] = {1, 2, 3, 2, 1, 1}; mxArray *a; const char *nm[] = {"a", "b"};
  switch (k) {
    case 0: return sc(1); case 1: return sc(-1); case 2: return sc(0); case 3: return sc(2.5); case 4: return mx2(mxDOUBLE_CLASS, 0, 0, 0); case 5: return mx2(mxDOUBLE_CLASS, 2, 3, v); case 6: return mx2(mxDOUBLE_CLASS, 3, 1, v);
    case 7: return mx2(mxSINGLE_CLASS, 1, 3, v); case 8: return mx2(mxUINT8_CLASS, 2, 2, v); case 9: return mx2(mxUINT32_CLASS, 1, 3, v); case 10: return mx2(mxUINT32_CLASS, 4, 1, v); case 11: return mx2(mxINT8_CLASS, 1, 1, v);
    case 12: return mxCreateString("NumLabels"); case 13: return mxCreateString("Mass"); case 14: return mxCreateString(""); case 15: return mxCreateLogicalScalar(1); case 16: return mxCreateCellMatrix(1, 2); case 17: return mxCreateStructMatrix(1, 1, 2, nm);
    case 18: a = mxCreateSparse(4, 5, 3, mxREAL); { double *p = mxGetPr(a); mwIndex *ir = mxGetIr(a), *jc = mxGetJc(a); for (int i = 0; i < 3; i++) { p[i] = 1 + i; ir[i] = i; } for (int j = 0; j <= 5; j++) jc[j] = j > 3 ? 3 : j; } return a;
    case 19: a = mxCreateNumericMatrix(2, 2, mxDOUBLE_CLASS, mxCOMPLEX); return a; case 20: a = mxn(mxDOUBLE_CLASS, 3, 3, 3, 3); mxsv(a, 13, 5); return a; case 21: return mxn(mxUINT32_CLASS, 3, 2, 2, 2); case 22: return mxn(mxUINT32_CLASS, 4, 2, 1, 2, 2); case 23: return mx2(mxINT64_CLASS, 2, 2, v); case 24: return mx2(mxUINT32_CLASS, 0, 3, 0); default: return mxCreateSparse(1, 1, 0, mxREAL);
  }
}
static void s_args(void) {
  mx_release(); int f = mc_choose(9), nin, nout = mc_choose(5); mexfn fn; static const double v[] = {1, 2, 1, 3, 2, 1}; mxArray *in[7], *out[4]; static const mexfn FN[] = {mex_vl_binsum, mex_vl_binsearch, mex_vl_ihashsum, mex_vl_ihashfind, mex_vl_inthist, mex_vl_sampleinthist, mex_vl_localmax, mex_vl_cummax, mex_vl_imintegral};
  static const int lo[] = {3, 2, 5, 4, 1, 2, 1, 1, 1}, hi[] = {4, 2, 5, 4, 5, 2, 3, 2, 1}, no[] = {1, 1, 3, 1, 1, 1, 1, 1, 1}; fn = FN[f];
  switch (f) {
    case 0: in[0] = mx2(mxDOUBLE_CLASS, 3, 2, v); in[1] = mx2(mxDOUBLE_CLASS, 1, 2, v); in[2] = mx2(mxDOUBLE_CLASS, 1, 2, v); in[3] = sc(1); break;
    case 1: in[0] = mx2(mxDOUBLE_CLASS, 1, 2, v); in[1] = mx2(mxDOUBLE_CLASS, 1, 3, v); break;
    case 2: in[0] = mx2(mxUINT32_CLASS, 1, 3, 0); in[1] = mx2(mxUINT8_CLASS, 2, 3, 0); in[2] = mx2(mxUINT32_CLASS, 1, 3, 0); in[3] = sc(3); in[4] = mx2(mxUINT8_CLASS, 2, 3, v); break;
    case 3: in[0] = mx2(mxUINT8_CLASS, 2, 3, v); in[1] = mx2(mxUINT32_CLASS, 1, 3, 0); in[2] = sc(3); in[3] = mx2(mxUINT8_CLASS, 2, 3, v); break;
    case 4: in[0] = mx2(mxUINT32_CLASS, 2, 3, v); in[1] = mxCreateString("numlabels"); in[2] = sc(4); in[3] = mxCreateString("mass"); in[4] = mx2(mxDOUBLE_CLASS, 2, 3, v); break;
    case 5: in[0] = mxn(mxDOUBLE_CLASS, 3, 2, 3, 2); in[1] = mx2(mxUINT32_CLASS, 4, 1, v); mxsv(in[1], 3, 2); break;
    case 6: in[0] = mx2(mxDOUBLE_CLASS, 3, 2, v); in[1] = sc(1); in[2] = sc(2); break;
    case 7: in[0] = mx2(mxDOUBLE_CLASS, 3, 2, v); in[1] = sc(2); break;
    default: in[0] = mx2(mxDOUBLE_CLASS, 3, 2, v); break;
  }
  for (int i = hi[f]; i < hi[f] + 2; i++) in[i] = sc(1);
  nin = mc_choose(hi[f] + 2); if (nout > no[f] + 1) mc_skip();
  int r0 = mex_call(fn, nout, out, nin, in);
  if (nin < lo[f] || nin > hi[f] || nout > no[f]) MC_CHECK("arguments", r0 == 1, "function %d accepts %d arguments and %d results", f, nin, nout);
  if (nin < lo[f] || nin > hi[f] || nout != no[f]) return;
  for (int a = 0; a < nin; a++) for (int x = 0; x < NZOO; x++) for (int b = a; b < nin; b++) for (int y = 0; y < (b == a ? 1 : mc_asan && !mc_thorough ? 1 : NZOO); y++) {
    mxArray *sa = in[a], *sb = in[b]; in[a] = zoo(x); if (b > a) in[b] = zoo(mc_asan && !mc_thorough ? (x * 7 + 3 * b + a) % NZOO : y);
    int r = mex_call(fn, nout, out, nin, in); mc_case(1);
    int sp = 0; for (int i = 0; i < nin; i++) sp |= mxIsSparse(in[i]) || mxIsStruct(in[i]) || mxIsCell(in[i]);
    if (sp) MC_CHECK("arguments", r == 1, "function %d accepts a sparse array, a structure or a cell array (arguments %d and %d: kinds %d and %d)", f, a, b, x, y);
    in[a] = sa; in[b] = sb;
  }
}
mc_suite mc_suites[] = {
  {"binsum", s_binsum, "vl_binsum without DIM: all pairs of classes, accumulators of up to 3 elements, every list of up to 3 (4) indexes in [-1, n+1], scalar or vector values"},
  {"binsum-dim", s_binsum_dim, "vl_binsum along DIM 1..4: all sizes 0..2 in three dimensions of accumulator and indexes, values of the right and of wrong sizes, five patterns of indexes and every single index out of range"},
  {"binsearch", s_binsearch, "every non-decreasing vector of up to 5 (7) edges over 6 values with infinities x 11 points, two shapes each"},
  {"hash", s_hash, "vl_ihashsum/vl_ihashfind: every sequence of 5 (6) labels over 6 (7), tables of 1..5 (6) buckets, in calls of 1..3 labels, checked against counts"},
  {"hash-many", s_hash_many, "tables of 1..17 (40) buckets with up to 60 (120) labels, repeated and in several calls"},
  {"hash-bad", s_hash_bad, "malformed tables: all sizes 0..3, K from -1 to beyond the table, wrong NEXT (too large, cyclic), wrong number of rows"},
  {"inthist", s_inthist, "vl_inthist: label maps of all sizes 0..3 x 0..3 x 0..2, labels exhaustively up to 6 pixels and 5 patterns, NumLabels and Mass in both classes and wrong sizes"},
  {"sample", s_sample, "vl_sampleinthist: every box (also empty and outside) on every size 0..3 x 0..3 x 0..3, both classes"},
  {"localmax-1", s_max1, "vl_localmax: every vector of up to 7 (8) elements over 3 values, rows and columns, thresholds"},
  {"localmax-2", s_max2, "every 3x3 matrix over 3 values, every interior of 4x3, 4x4, 3x5 over 4 values, P in 0..2"},
  {"localmax-3", s_max3, "arrays of sizes 0..4 x 0..4 x 0..3 x 0..3, six patterns, every P in 0..5"},
  {"cummax", s_cummax, "vl_cummax: all ten classes, sizes 0..4 x 0..3 x 0..3, every DIM, all arrays of up to 6 elements over 3 values"},
  {"integral", s_integral, "vl_imintegral: all ten classes, sizes 0..4 x 0..4 x 0..3, four patterns"},
  {"arguments", s_args, "every number of arguments and results; every argument, and every pair of arguments, replaced by 26 kinds of array (sparse, complex, empty, N-d, strings, cells, structures...)"},
  {0}
};
