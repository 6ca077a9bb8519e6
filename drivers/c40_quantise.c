/* C40: merge trees, integer quantisers and descriptor matching of the toolbox equal their definitions. */
#include "mc.h"
#include "mex.h"
#include "zoo.h"
#include <vl/generic.h>
#include <vl/random.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#define F(n) extern void mex_##n(int, mxArray **, int, const mxArray **);
F(vl_aib) F(vl_aibhist) F(vl_ikmeans) F(vl_ikmeanspush) F(vl_hikmeans) F(vl_hikmeanspush) F(vl_ubcmatch)

/* ---- vl_ubcmatch ---- */
static void check_match(mxArray *A, mxArray *B, int tk) {
  static const double T[] = {1.5, 0, 0.5, 1, 1.25, 2, 4, 9}; double t = tk < 0 ? 1.5 : T[tk]; mxArray *in[3] = {A, B, tk < 0 ? 0 : sc(t)}, *out[2];
  int D = mxGetM(A), n = mxGetN(A), m = mxGetN(B), nout = mc_choose(2) + 1;
  int r = mex_call(mex_vl_ubcmatch, nout, out, tk < 0 ? 2 : 3, in);
  mc_note("vl_ubcmatch(%s, %s, %g) -> %s", show(A), show(B), t, r ? mex_message : show(out[0]));
  MC_CHECK("match", r == 0, "vl_ubcmatch(%s, %s): error '%s'", show(A), show(B), mex_message);
  int c = mxGetN(out[0]); MC_CHECK("match", mx_is(out[0], mxDOUBLE_CLASS, 2, c) && (nout == 1 || mx_is(out[1], mxDOUBLE_CLASS, 1, c)), "vl_ubcmatch: sizes of the results");
  int got[8] = {0};
  for (int k = 0; k < c; k++) {
    int i = mxv(out[0], 2 * k) - 1, j = mxv(out[0], 2 * k + 1) - 1; MC_CHECK("match", i >= 0 && i < n && j >= 0 && j < m && !got[i], "vl_ubcmatch(%s, %s, %g) = %s", show(A), show(B), t, show(out[0]));
    got[i] = j + 1; if (nout > 1) { double d = 0; for (int q = 0; q < D; q++) { double e = mxv(A, i * D + q) - mxv(B, j * D + q); d += e * e; } MC_CHECK("score", mxv(out[1], k) == d, "vl_ubcmatch(%s, %s, %g): pair (%d, %d) has score %g, distance %g", show(A), show(B), t, i + 1, j + 1, mxv(out[1], k), d); }
  }
  for (int i = 0; i < n; i++) {
    double best = INFINITY, second = INFINITY, mine = 0;
    for (int j = 0; j < m; j++) { double d = 0; for (int q = 0; q < D; q++) { double e = mxv(A, i * D + q) - mxv(B, j * D + q); d += e * e; } if (got[i] == j + 1) mine = d; if (d < best) { second = best; best = d; } else if (d < second) second = d; }
    if (got[i]) MC_CHECK("match", mine == best && t * best <= second, "vl_ubcmatch(%s, %s, %g) matches %d to %d at distance %g; the closest two are at %g and %g", show(A), show(B), t, i + 1, got[i], mine, best, second);
    else MC_CHECK("match", !m || t * best >= second, "vl_ubcmatch(%s, %s, %g) does not match %d, whose closest two are at %g and %g", show(A), show(B), t, i + 1, best, second);
  }
  mc_state(mx_hash(out[0]));
}
static const mxClassID UC[4] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS};
static const double UV[4][6] = {{0, 1, -2, 3, 0.5, 100}, {0, 1, -2, 3, 0.5, 100}, {0, 1, -2, 3, -128, 127}, {0, 1, 2, 4, 200, 255}};
static void s_match(void) {
  mx_release(); static const int sh[][4] = {{0, 1, 2, 6}, {1, 0, 2, 6}, {1, 1, 0, 6}, {1, 1, 1, 6}, {1, 1, 2, 6}, {1, 1, 3, 6}, {1, 2, 2, 6}, {2, 1, 2, 4}, {2, 1, 3, 2}, {1, 1, 4, 4}, {2, 2, 2, 2}, {3, 1, 2, 3}, {1, 3, 2, 3}, {1, 1, 5, 3}, {2, 1, 3, 3}, {2, 2, 3, 2}};
  int s = mc_choose(MC_BOUND(12, 14, 16)), c = mc_choose(4), tk = mc_choose(9) - 1, D = sh[s][0], n = sh[s][1], m = sh[s][2];
  mxArray *A = mx2(UC[c], D, n, 0), *B = mx2(UC[c], D, m, 0);
  for (int i = 0; i < D * n; i++) mxsv(A, i, UV[c][mc_choose(sh[s][3])]);
  for (int i = 0; i < D * m; i++) mxsv(B, i, UV[c][mc_choose(sh[s][3])]);
  check_match(A, B, tk);
}
static void s_match_long(void) {   /* SIFT-like descriptors of 128 bytes: distances above 2^16 */
  mx_release(); int c = mc_choose(4), tk = mc_choose(9) - 1, p = mc_choose(4), q = mc_choose(4), n = 2, m = 1 + mc_choose(4); mxArray *A = mx2(UC[c], 128, n, 0), *B = mx2(UC[c], 128, m, 0);
  for (int i = 0; i < 128 * n; i++) mxsv(A, i, UV[c][(i * (p + 1) + i / 7) % 6]);
  for (int i = 0; i < 128 * m; i++) mxsv(B, i, UV[c][(i * (q + 1) + i / 128 * (p + 2) + i / (3 + q)) % 6]);
  check_match(A, B, tk);
}
/* ---- vl_aib ---- */
#define MV 8
static double plogp(double x) { return x > 0 ? x * log(x) : 0; }
static double MI(const double *p, int n, int C) { double I = 0, pc[8] = {0}; for (int i = 0; i < n; i++) { double px = 0; for (int c = 0; c < C; c++) { px += p[i * C + c]; pc[c] += p[i * C + c]; I += plogp(p[i * C + c]); } I -= plogp(px); } for (int c = 0; c < C; c++) I -= plogp(pc[c]); return I; }
/* merges of a tree in the order of its nodes: [lo, hi) nodes, checked to be binary with earlier children */
static void check_aib(int N, int C, const double *cnt) {
  double P[2 * MV * 4], tot = 0; mxArray *A = mx2(mxDOUBLE_CLASS, C, N, cnt); for (int i = 0; i < N * C; i++) tot += cnt[i];
  int nullv[MV], nz = 0; for (int i = 0; i < N; i++) { double s = 0; for (int c = 0; c < C; c++) s += cnt[i * C + c]; nullv[i] = s == 0; nz += s > 0; }
  int plain[2 * MV]; 
  for (int cl = 0; cl < 2; cl++) for (int nout = 1; nout < 3; nout++) {
    mxArray *in[2] = {A, cl ? str("ClusterNull") : 0}, *out[2]; int r = mex_call(mex_vl_aib, nout, out, 1 + cl, in); mc_case(1);
    mc_note("vl_aib(%s%s) -> %s", show(A), cl ? ", ClusterNull" : "", r ? mex_message : show(out[0]));
    MC_CHECK("aib", r == 0, "vl_aib(%s): error '%s'", show(A), mex_message);
    MC_CHECK("aib", mx_is(out[0], mxUINT32_CLASS, 1, 2 * N - 1) && (nout < 2 || mx_is(out[1], mxDOUBLE_CLASS, 1, N)), "vl_aib: sizes of the results");
    if (tot == 0 && !cl) { for (int i = 0; i < 2 * N - 1; i++) MC_CHECK("aib-null", mxv(out[0], i) == 0, "vl_aib(%s) = %s for a null table", show(A), show(out[0])); continue; }
    int par[2 * MV], many = cl ? N : nz, first = 0, nn = N - nz; for (int i = 0; i < 2 * N - 1; i++) par[i] = mxv(out[0], i);
    if (!cl && nz < 2) { for (int i = 0; i < 2 * N - 1; i++) MC_CHECK("aib-null", par[i] == 0 || (par[i] == 1 && i < N && !nullv[i]), "vl_aib(%s) = %s: nothing can be merged", show(A), show(out[0])); }
    int alive[2 * MV] = {0}, isn[2 * MV] = {0}; for (int i = 0; i < N; i++) { alive[i] = cl || !nullv[i]; isn[i] = nullv[i]; for (int c = 0; c < C; c++) P[i * C + c] = tot > 0 ? cnt[i * C + c] / tot : 0; if (!cl && nullv[i]) MC_CHECK("aib-null", par[i] == 0, "vl_aib(%s) = %s: value %d is null", show(A), show(out[0]), i + 1); }
    if (nout > 1 && tot > 0) MC_CHECK("aib-cost", mc_close(mxv(out[1], 0), MI(P, N, C), 1e-12, 1e-12), "vl_aib(%s): the first cost is %g", show(A), mxv(out[1], 0));
    int map[2 * MV]; for (int i = 0; i < N; i++) map[i] = i;   /* node of this tree -> node of the tree without nulls */
    for (int k = 0; k < N - 1; k++) {
      int node = N + k, ch[3], nch = 0; for (int i = 0; i < 2 * N - 1; i++) if (par[i] == node + 1) { if (nch < 3) ch[nch] = i; nch++; }
      if (k >= many - 1) { MC_CHECK("aib-tree", nch == 0 && par[node] == 0, "vl_aib(%s%s) = %s: node %d should not be there", show(A), cl ? ", ClusterNull" : "", show(out[0]), node + 1); if (nout > 1) MC_CHECK("aib-cost", isnan(mxv(out[1], k + 1)), "vl_aib(%s): cost %d is %g rather than NaN", show(A), k + 2, mxv(out[1], k + 1)); continue; }
      MC_CHECK("aib-tree", nch == 2 && ch[0] < node && ch[1] < node && alive[ch[0]] && alive[ch[1]], "vl_aib(%s%s) = %s: node %d joins %d nodes", show(A), cl ? ", ClusterNull" : "", show(out[0]), node + 1, nch);
      MC_CHECK("aib-tree", k == many - 2 ? par[node] == 1 : par[node] > node + 1 && par[node] <= N + many - 1, "vl_aib(%s%s) = %s: parent of node %d of %d", show(A), cl ? ", ClusterNull" : "", show(out[0]), node + 1, N + many - 1);
      for (int c = 0; c < C; c++) P[node * C + c] = P[ch[0] * C + c] + P[ch[1] * C + c];
      alive[ch[0]] = alive[ch[1]] = 0; alive[node] = 1; isn[node] = isn[ch[0]] && isn[ch[1]];
      if (cl && nz >= 1 && k < nn - 1) MC_CHECK("aib-null", isn[node] || nz == 1, "vl_aib(%s, ClusterNull) = %s: node %d is merged before the null values are", show(A), show(out[0]), node + 1);
      if (nout > 1 && tot > 0) { double Q[2 * MV * 4]; int n = 0; for (int i = 0; i <= node; i++) if (alive[i]) { memcpy(Q + n * C, P + i * C, 8 * C); n++; } double e = MI(Q, n, C); MC_CHECK("aib-cost", mc_close(mxv(out[1], k + 1), e, 1e-12, 1e-12), "vl_aib(%s%s): cost %d is %g, the information is %g", show(A), cl ? ", ClusterNull" : "", k + 2, mxv(out[1], k + 1), e); }
      /* apart from the null values the tree is that of the algorithm */
      map[node] = isn[ch[0]] ? map[ch[1]] : isn[ch[1]] ? map[ch[0]] : N + first++;
      if (cl && nz > 1 && !isn[ch[0]] && !isn[ch[1]]) MC_CHECK("aib-null", plain[map[ch[0]]] == map[node] + 1 && plain[map[ch[1]]] == map[node] + 1, "vl_aib(%s, ClusterNull) = %s: node %d is not a merge of the tree without null values", show(A), show(out[0]), node + 1);
    }
    if (!cl) memcpy(plain, par, sizeof plain);
    mc_state(mx_hash(out[0]));
  }
}
static void s_aib(void) {
  mx_release(); static const int sh[][3] = {{1, 1, 3}, {1, 3, 3}, {2, 1, 4}, {2, 2, 4}, {3, 1, 5}, {3, 2, 4}, {4, 1, 4}, {4, 2, 3}, {5, 1, 4}, {6, 1, 4}, {3, 3, 2}, {5, 2, 2}, {7, 1, 3}, {5, 2, 3}, {6, 2, 2}, {4, 3, 2}};
  int s = mc_choose(MC_BOUND(10, 14, 16)), N = sh[s][0], C = sh[s][1], k = sh[s][2], first = N * C < 4 ? N * C : 4, j; double cnt[MV * 4];
  for (int i = 0; i < N * C; i++) cnt[i] = i < first ? mc_choose(k) : 0;
  do { check_aib(N, C, cnt); mx_release(); for (j = first; j < N * C; j++) { if (++cnt[j] < k) break; cnt[j] = 0; } } while (j < N * C);
}
/* ---- vl_aibhist ---- */
static void check_aibhist(mxArray *PA, int M, int wellformed) {
  int P = mxGetNumberOfElements(PA), mode = mc_choose(3), n = mc_choose(MC_BOUND(4, 4, 5)); static const double W[] = {0, 1, 3}; mxArray *X = mx2(mxDOUBLE_CLASS, mode == 1 ? n : 1, mode == 1 ? 1 : n, 0), *in[3] = {PA, X, mode ? str(mode == 1 ? "hist" : "HIST") : 0}, *out;
  if (n > 2 && mode == 0 && M > 3) n = 2, X = in[1] = mx2(mxDOUBLE_CLASS, 1, 2, 0);
  for (int i = 0; i < n; i++) mxsv(X, i, mode ? W[mc_choose(3)] : mc_choose(M + 3) - (i == 0));
  int bad = mode && n > M; for (int i = 0; !mode && i < n; i++) bad |= mxv(X, i) < 1 || mxv(X, i) > M;
  int r = mex_call(mex_vl_aibhist, 1, &out, mode ? 3 : 2, in); double e[32] = {0};
  mc_note("vl_aibhist(%s, %s%s) -> %s", show(PA), show(X), mode ? ", hist" : "", r ? mex_message : show(out));
  if (!wellformed) return;
  if (bad) { MC_CHECK("aibhist", r == 1, "vl_aibhist(%s, %s%s) = %s: the tree has %d leaves", show(PA), show(X), mode ? ", hist" : "", show(out), M); return; }
  MC_CHECK("aibhist", r == 0, "vl_aibhist(%s, %s%s): error '%s'", show(PA), show(X), mode ? ", hist" : "", mex_message);
  MC_CHECK("aibhist", mx_is(out, mxUINT32_CLASS, 1, P) || mx_is(out, mxUINT32_CLASS, mxGetM(PA), mxGetN(PA)), "vl_aibhist: size of the result");
  for (int i = 0; i < n; i++) for (int x = mode ? i + 1 : mxv(X, i), g = 0; g < P; g++) { e[x] += mode ? mxv(X, i) : 1; int y = mxv(PA, x - 1); if (y <= 1) break; x = y; }
  for (int i = 0; i < P; i++) MC_CHECK("aibhist", mxv(out, i) == e[i + 1], "vl_aibhist(%s, %s%s) = %s: node %d should have %g", show(PA), show(X), mode ? ", hist" : "", show(out), i + 1, e[i + 1]);
  mc_state(mx_hash(out));
}
static void s_aibhist(void) {      /* every merge tree with null values */
  mx_release(); int M = 1 + mc_choose(MC_BOUND(3, 4, 5)), nulls = mc_choose(1 << M), act[10], na = 0, node = M + 1, col = mc_choose(2); mxArray *PA = mx2(mxUINT32_CLASS, col ? 2 * M - 1 : 1, col ? 1 : 2 * M - 1, 0);
  for (int i = 0; i < M; i++) if (!(nulls >> i & 1)) act[na++] = i + 1;
  while (na > 1) { int b = 1 + mc_choose(na - 1), a = mc_choose(b); mxsv(PA, act[a] - 1, node); mxsv(PA, act[b] - 1, node); act[a] = node; act[b] = act[--na]; mxsv(PA, node - 1, 1); node++; }
  check_aibhist(PA, M, 1);
}
static void s_aibhist_bad(void) {  /* every vector of parents */
  mx_release(); int P = mc_choose(MC_BOUND(5, 6, 6)), M = (P + 1) / 2; mxArray *PA = mx2(mxUINT32_CLASS, 1, P, 0);
  for (int i = 0; i < P; i++) mxsv(PA, i, mc_choose(P + 2)); check_aibhist(PA, M, 0);
}
/* ---- integer k-means ---- */
static const double KV[] = {0, 1, 9, 4, 255, 200}; static const char *METH[] = {"lloyd", "elkan"};
static void dist_check(const char *what, const mxArray *X, int i, const int *C, int M, int K, int got) {
  double b = INFINITY, g = 0; for (int k = 0; k < K; k++) { double d = 0; for (int q = 0; q < M; q++) { double e = mxv(X, i * M + q) - C[k * M + q]; d += e * e; } if (d < b) b = d; if (k == got) g = d; }
  MC_CHECK("nearest", got >= 0 && got < K && g == b, "%s: datum %d is assigned to cluster %d at distance %g, the closest is at %g", what, i + 1, got + 1, g, b);
}
static void s_ikmeans(void) {
  mx_release(); static const int sh[][3] = {{1, 1, 6}, {1, 2, 6}, {1, 3, 6}, {1, 4, 4}, {2, 2, 4}, {2, 3, 3}, {1, 5, 4}, {3, 2, 3}, {1, 6, 3}, {2, 4, 3}};
  int s = mc_choose(MC_BOUND(6, 8, 10)), M = sh[s][0], N = sh[s][1], K = 1 + mc_choose(N), meth = mc_choose(3), it = mc_choose(4), seed = mc_choose(MC_BOUND(1, 2, 3)); mxArray *X = mx2(mxUINT8_CLASS, M, N, 0), *in[6] = {X, sc(K)}, *out[2]; int nin = 2;
  for (int i = 0; i < M * N; i++) mxsv(X, i, KV[mc_choose(sh[s][2])]);
  if (meth) { in[nin++] = str(seed ? "method" : "Method"); in[nin++] = str(METH[meth - 1]); }
  if (it) { in[nin++] = str("MaxIters"); in[nin++] = sc(it); }
  vl_rand_seed(vl_get_rand(), 7 + seed); int r = mex_call(mex_vl_ikmeans, 2, out, nin, in);
  mc_note("vl_ikmeans(%s, %d, %s, iters %d) -> %s", show(X), K, meth ? METH[meth - 1] : "", it, r ? mex_message : show(out[0]));
  MC_CHECK("ikmeans", r == 0, "vl_ikmeans(%s, %d): error '%s'", show(X), K, mex_message);
  MC_CHECK("ikmeans", mx_is(out[0], mxINT32_CLASS, M, K) && mx_is(out[1], mxUINT32_CLASS, 1, N), "vl_ikmeans: sizes of the results");
  for (int i = 0; i < N; i++) dist_check("vl_ikmeans", X, i, mxGetData(out[0]), M, K, mxv(out[1], i) - 1);
  /* the library with the same random numbers */
  VlIKMFilt *f = vl_ikm_new(meth == 2 ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_rand_seed(vl_get_rand(), 7 + seed); vl_ikm_set_max_niters(f, it ? it : 200); vl_ikm_init_rand_data(f, mxGetData(X), M, N, K); vl_ikm_train(f, mxGetData(X), N);
  MC_CHECK("ikmeans", !memcmp(vl_ikm_get_centers(f), mxGetData(out[0]), 4 * M * K), "vl_ikmeans(%s, %d, %s, MaxIters %d): centers %s are not those of the library", show(X), K, meth ? METH[meth - 1] : "lloyd", it ? it : 200, show(out[0])); vl_ikm_delete(f);
  /* push data that it was not trained with */
  { mxArray *Y = mx2(mxUINT8_CLASS, M, 6, 0), *pin[4] = {Y, out[0], str("method"), str(METH[mc_choose(2)])}, *po; for (int i = 0; i < 6 * M; i++) mxsv(Y, i, KV[(i + i / 6) % 6]);
    r = mex_call(mex_vl_ikmeanspush, 1, &po, 4, pin); MC_CHECK("push", r == 0 && mx_is(po, mxUINT32_CLASS, 1, 6), "vl_ikmeanspush: error '%s'", mex_message); for (int i = 0; i < 6; i++) dist_check("vl_ikmeanspush", Y, i, mxGetData(out[0]), M, K, mxv(po, i) - 1); }
  mc_state(mx_hash(out[0]));
}
static void s_push(void) {         /* any centers, also negative, equal and none */
  mx_release(); static const int CV[] = {0, 1, -3, 200, 9}; int M = mc_choose(3), K = 1 + mc_choose(MC_BOUND(3, 3, 4)), N = mc_choose(4), meth = mc_choose(3); mxArray *X = mx2(mxUINT8_CLASS, M, N, 0), *C = mx2(mxINT32_CLASS, M, K, 0), *in[4] = {X, C, str("METHOD"), meth ? str(METH[meth - 1]) : 0}, *out;
  if (M * K > 6) mc_skip();
  for (int i = 0; i < M * K; i++) mxsv(C, i, CV[mc_choose(5)]); for (int i = 0; i < M * N; i++) mxsv(X, i, KV[(i * 5 + i / 3) % 6]);
  int r = mex_call(mex_vl_ikmeanspush, 1, &out, meth ? 4 : 2, in); MC_CHECK("push", r == 0 && mx_is(out, mxUINT32_CLASS, 1, N), "vl_ikmeanspush(%s, %s): error '%s'", show(X), show(C), mex_message);
  for (int i = 0; i < N; i++) dist_check("vl_ikmeanspush", X, i, mxGetData(C), M, K, mxv(out, i) - 1); mc_case(N); mc_state(mx_hash(out));
}
/* ---- hierarchical integer k-means ---- */
static int same_tree(const mxArray *s, int i, const VlHIKMNode *n, int M) {
  mxArray *c = mxGetField(s, i, "centers"), *sub = mxGetField(s, i, "sub"); int K = vl_ikm_get_K(n->filter);
  if (!c || !mx_is(c, mxINT32_CLASS, M, K) || memcmp(mxGetData(c), vl_ikm_get_centers(n->filter), 4 * M * K)) return 0;
  if (!n->children) return !sub || mxIsEmpty(sub);
  if (!sub || !mxIsStruct(sub) || (int)mxGetNumberOfElements(sub) != K) return 0;
  for (int k = 0; k < K; k++) if (!same_tree(sub, k, n->children[k], M)) return 0;
  return 1;
}
static void walk(const char *what, const mxArray *tree, const mxArray *X, const mxArray *A, int M, int depth) {
  for (int i = 0; i < (int)mxGetN(X); i++) { const mxArray *s = tree; int at = 0;
    for (int d = 0; d < depth; d++) { mxArray *c; int k = mxv(A, i * depth + d) - 1; MC_CHECK("hpath", s && (c = mxGetField(s, at, "centers")), "%s: path %s leaves the tree", what, show(A)); dist_check(what, X, i, mxGetData(c), M, mxGetN(c), k); s = mxGetField(s, at, "sub"); at = k; } }
}
static void s_hikmeans(void) {
  mx_release(); static const int sh[][4] = {{1, 2, 2, 4}, {1, 3, 3, 6}, {1, 4, 3, 4}, {2, 3, 2, 3}, {2, 4, 2, 2}, {1, 5, 3, 3}, {1, 6, 3, 3}, {2, 5, 3, 2}}; int s = mc_choose(MC_BOUND(4, 6, 8)), M = sh[s][0], N = sh[s][1], K = 2 + mc_choose(sh[s][2] - 1), meth = mc_choose(3), it = mc_choose(3), L = mc_choose(7); static const int LV[] = {1, 2, 3, 4, 8, 9, 17};
  int leaves = LV[L], depth = 1, nin = 3, nout = 1 + mc_choose(2); mxArray *X = mx2(mxUINT8_CLASS, M, N, 0), *in[8] = {X, sc(K), sc(leaves)}, *out[2];
  for (double n = K; n < leaves; n *= K) depth++;
  for (int i = 0; i < M * N; i++) mxsv(X, i, KV[mc_choose(sh[s][3])]);
  if (meth) { in[nin++] = str("method"); in[nin++] = str(METH[meth - 1]); }
  if (it) { in[nin++] = str("MaxIters"); in[nin++] = sc(it); }
  vl_rand_seed(vl_get_rand(), 5); int r = mex_call(mex_vl_hikmeans, nout, out, nin, in);
  mc_note("vl_hikmeans(%s, %d, %d, %s, iters %d) -> %s", show(X), K, leaves, meth ? METH[meth - 1] : "", it, r ? mex_message : "tree");
  if (K > N) { MC_CHECK("hikmeans", r == 1, "vl_hikmeans makes %d clusters of %d data", K, N); return; }
  MC_CHECK("hikmeans", r == 0, "vl_hikmeans(%s, %d, %d): error '%s'", show(X), K, leaves, mex_message);
  MC_CHECK("hikmeans", mxIsStruct(out[0]) && mxGetField(out[0], 0, "K") && mxv(mxGetField(out[0], 0, "K"), 0) == K && mxGetField(out[0], 0, "depth") && mxv(mxGetField(out[0], 0, "depth"), 0) == depth, "vl_hikmeans(%s, K=%d, NLEAVES=%d): the depth is %g, should be %d", show(X), K, leaves, mxv(mxGetField(out[0], 0, "depth"), 0), depth);
  VlHIKMTree *t = vl_hikm_new(meth == 2 ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_rand_seed(vl_get_rand(), 5); vl_hikm_set_max_niters(t, it ? it : 200); vl_hikm_init(t, M, K, depth); vl_hikm_train(t, mxGetData(X), N);
  MC_CHECK("hikmeans", same_tree(out[0], 0, vl_hikm_get_root(t), M), "vl_hikmeans(%s, %d, %d, %s, MaxIters %d): the tree is not that of the library", show(X), K, leaves, meth ? METH[meth - 1] : "lloyd", it ? it : 200); vl_hikm_delete(t);
  if (nout > 1) { MC_CHECK("hikmeans", mx_is(out[1], mxUINT32_CLASS, depth, N), "vl_hikmeans: size of ASGN"); walk("vl_hikmeans", out[0], X, out[1], M, depth); }
  { mxArray *Y = mx2(mxUINT8_CLASS, M, 8, 0), *pin[4] = {out[0], Y, str("Method"), meth ? str(METH[meth - 1]) : 0}, *po; for (int i = 0; i < 8 * M; i++) mxsv(Y, i, KV[(i + i / 6) % 6]);
    r = mex_call(mex_vl_hikmeanspush, 1, &po, meth ? 4 : 2, pin); MC_CHECK("hpush", r == 0 && mx_is(po, mxUINT32_CLASS, depth, 8), "vl_hikmeanspush: error '%s'", mex_message); walk("vl_hikmeanspush", out[0], Y, po, M, depth);
    if (nout > 1) { pin[1] = X; r = mex_call(mex_vl_hikmeanspush, 1, &po, meth ? 4 : 2, pin); MC_CHECK("hpush", r == 0 && mx_hash(po) == mx_hash(out[1]), "vl_hikmeanspush of the training data %s is %s, vl_hikmeans gave %s", show(X), show(po), show(out[1])); } }
}
static void s_hik_depth(void) {    /* depth of the tree for every K and number of leaves */
  mx_release(); int K = 2 + mc_choose(9), e = mc_choose(7), off = mc_choose(3) - 1, N = 12, depth = 1; double leaves = 1; for (int i = 0; i < e; i++) leaves *= K; leaves += off; if (leaves < 1 || leaves > 1500) mc_skip();
  for (double n = K; n < leaves; n *= K) depth++;
  mxArray *X = mx2(mxUINT8_CLASS, 1, N, 0), *in[3] = {X, sc(K), sc(leaves)}, *out; for (int i = 0; i < N; i++) mxsv(X, i, 20 * i);
  int r = mex_call(mex_vl_hikmeans, 1, &out, 3, in); MC_CHECK("depth", r == 0 && mxv(mxGetField(out, 0, "depth"), 0) == depth, "vl_hikmeans with K=%d and NLEAVES=%g makes a tree of depth %g, the smallest with so many leaves is %d", K, leaves, r ? -1 : mxv(mxGetField(out, 0, "depth"), 0), depth);
}
static mxArray *node(int M, int K, int depth, int bad, int *at) {  /* a tree; at place number *at (counted down) something is wrong */
  const char *nm[] = {"K", "depth", "centers", "sub"}; static const double v[16] = {1, 200, 30, 4, 90, 17, 3, 8, 250, 60, 7, 11}; mxArray *s = mxCreateStructMatrix(1, 1, 4, nm), *sub = 0;
  mxSetField(s, 0, "centers", mx2(mxINT32_CLASS, M, K, v)); mxSetField(s, 0, "K", sc(K)); mxSetField(s, 0, "depth", sc(depth));
  int me = (*at)-- == 0;
  if (depth > 1) { sub = mxCreateStructMatrix(1, K, 4, nm); for (int k = 0; k < K; k++) { mxArray *c = node(M, K, depth - 1, bad, at); for (int f = 0; f < 4; f++) { mxArray *q = mxGetField(c, 0, nm[f]); if (q) mxSetField(sub, k, nm[f], mxDuplicateArray(q)); } } }
  if (sub) mxSetField(s, 0, "sub", sub);
  if (me) switch (bad) {
    case 1: mxSetField(s, 0, "centers", mx2(mxINT32_CLASS, M + 1, K, v)); break; case 2: mxSetField(s, 0, "centers", mx2(mxINT32_CLASS, M, K + 1, v)); break; case 3: mxSetField(s, 0, "centers", mx2(mxINT32_CLASS, M, 0, v)); break;
    case 4: mxSetField(s, 0, "centers", mx2(mxDOUBLE_CLASS, M, K, v)); break; case 5: mxSetField(s, 0, "centers", mx2(mxINT32_CLASS, M - 1, K, v)); break; case 6: mxSetField(s, 0, "sub", mx2(mxDOUBLE_CLASS, 0, 0, 0)); break;
    case 7: mxSetField(s, 0, "sub", sc(1)); break; case 8: mxSetField(s, 0, "sub", mxCreateStructMatrix(1, K, 4, nm)); break; case 9: { int far = -1; mxArray *deep = mxCreateStructMatrix(1, K, 4, nm); for (int k = 0; k < K; k++) { mxArray *c = node(M, K, 3, 0, &far); for (int f = 0; f < 4; f++) { mxArray *q = mxGetField(c, 0, nm[f]); if (q) mxSetField(deep, k, nm[f], mxDuplicateArray(q)); } } mxSetField(s, 0, "sub", deep); break; }
    case 10: mxSetField(s, 0, "sub", mxCreateStructMatrix(1, K + 1, 4, nm)); break; case 11: mxSetField(s, 0, "K", sc(K + 1)); break; case 12: mxSetField(s, 0, "K", sc(K - 1)); break; case 13: mxSetField(s, 0, "depth", sc(depth + 1)); break; case 14: mxSetField(s, 0, "depth", sc(depth - 1)); break; case 15: mxSetField(s, 0, "K", sc(0)); break; case 16: mxSetField(s, 0, "depth", mx2(mxDOUBLE_CLASS, 1, 2, v)); break;
    case 17: mxSetField(s, 0, "centers", mxn(mxINT32_CLASS, 3, M, K, 2)); break;
  }
  return s;
}
static void s_hpush_bad(void) {
  mx_release(); int M = 1 + mc_choose(2), K = 1 + mc_choose(3), depth = 1 + mc_choose(3), bad = mc_choose(18), where = mc_choose(4), rows = mc_choose(4), N = mc_choose(3), at = where; if (!bad && where) mc_skip(); if (M * K > 6) mc_skip();
  mxArray *T = node(M, K, depth, bad, &at), *X = mx2(mxUINT8_CLASS, rows, N, 0), *in[4] = {T, X, str("method"), str(METH[mc_choose(2)])}, *out; for (int i = 0; i < rows * N; i++) mxsv(X, i, KV[i % 6]);
  int hit = at < 0, root = where == 0, fine = !bad || !hit || (bad == 6 && (root ? depth == 1 : -1)) || ((bad == 11 || bad == 13 || (bad >= 12 && bad <= 16)) && !root) || (bad == 11 && root);
  int r = mex_call(mex_vl_hikmeanspush, 1, &out, 4, in); mc_note("bad %d at %d, %d rows, M=%d K=%d depth=%d -> %s", bad, where, rows, M, K, depth, r ? mex_message : show(out));
  if (rows != M && (!hit || (bad != 1 && bad != 5))) { MC_CHECK("hpush-bad", r == 1, "vl_hikmeanspush accepts data of %d rows for a tree of dimension %d", rows, M); return; }
  if (bad == 0) { MC_CHECK("hpush-bad", r == 0, "vl_hikmeanspush: error '%s'", mex_message); walk("vl_hikmeanspush", T, X, out, M, depth); }
  if (hit && root && (bad == 2 && K > 0 || bad == 3 || bad == 4 || bad == 7 || bad == 10 && depth > 0 || bad == 12 || bad == 14 && depth == 1 || bad == 15 || bad == 16)) MC_CHECK("hpush-bad", r == 1, "vl_hikmeanspush accepts a malformed tree (%d)", bad);
  if (bad == 6 && root && depth == 1) MC_CHECK("hpush-empty", r == 0, "vl_hikmeanspush rejects a leaf whose field SUB is empty: '%s'", mex_message);
  (void)fine; if (!r && N) for (int i = 0; i < (int)mxGetNumberOfElements(out); i++) MC_CHECK("hpush-bad", mxv(out, i) >= 1 && mxv(out, i) <= K + 1, "vl_hikmeanspush gives cluster %g", mxv(out, i));
}
static void s_args(void) {
  mx_release(); int f = mc_choose(7), at = -1; static const double v[] = {1, 2, 1, 3, 2, 1, 5, 7}; mxArray *in[10];
  switch (f) {
    case 0: in[0] = mx2(mxDOUBLE_CLASS, 2, 3, v); in[1] = str("verbose"); in[2] = str("clusternull"); try_all("vl_aib", mex_vl_aib, 1, -1, 2, in, 3, 0); break;
    case 1: { static const double p[] = {4, 4, 5, 5, 1}; in[0] = mx2(mxUINT32_CLASS, 1, 5, p); in[1] = mx2(mxDOUBLE_CLASS, 1, 3, v); mxsv(in[1], 2, 3); in[2] = str("hist"); try_all("vl_aibhist", mex_vl_aibhist, 2, 3, 1, in, 3, 0); break; }
    case 2: in[0] = mx2(mxUINT8_CLASS, 2, 4, v); in[1] = sc(2); in[2] = str("MaxIters"); in[3] = sc(5); in[4] = str("method"); in[5] = str("elkan"); try_all("vl_ikmeans", mex_vl_ikmeans, 2, -1, 2, in, mc_asan ? 4 : 6, 0); break;
    case 3: in[0] = mx2(mxUINT8_CLASS, 2, 4, v); in[1] = mx2(mxINT32_CLASS, 2, 3, v); in[2] = str("method"); in[3] = str("elkan"); try_all("vl_ikmeanspush", mex_vl_ikmeanspush, 2, -1, 1, in, 4, 0); break;
    case 4: in[0] = mx2(mxUINT8_CLASS, 2, 4, v); in[1] = sc(2); in[2] = sc(4); in[3] = str("MaxIters"); in[4] = sc(5); try_all("vl_hikmeans", mex_vl_hikmeans, 3, -1, 2, in, 5, 0); break;
    case 5: in[0] = node(2, 2, 2, 0, &at); in[1] = mx2(mxUINT8_CLASS, 2, 4, v); in[2] = str("method"); in[3] = str("elkan"); try_all("vl_hikmeanspush", mex_vl_hikmeanspush, 2, -1, 1, in, 4, 1); break;
    case 6: in[0] = mx2(mxDOUBLE_CLASS, 2, 3, v); in[1] = mx2(mxDOUBLE_CLASS, 2, 2, v); in[2] = sc(1.5); try_all("vl_ubcmatch", mex_vl_ubcmatch, 2, 3, 2, in, 3, 0); break;
  }
}
mc_suite mc_suites[] = {
  {"match", s_match, "vl_ubcmatch: every pair of descriptor sets of 14 (16) shapes up to 3x2, 1x4 over 2..6 values, four classes, nine thresholds"},
  {"match-long", s_match_long, "descriptors of 128 components in four classes, 16 patterns, nine thresholds"},
  {"aib", s_aib, "vl_aib: every table of counts of 14 (16) shapes up to 7x1, 5x2, 3x3, with and without ClusterNull: every merge, its cost, null values"},
  {"aibhist", s_aibhist, "vl_aibhist: every merge tree of up to 4 (5) leaves with any null values x data lists and histograms of up to 3 (4) elements, also outside the leaves"},
  {"aibhist-bad", s_aibhist_bad, "every vector of up to 5 parents in 0..P+1: termination and no access outside the arguments"},
  {"ikmeans", s_ikmeans, "vl_ikmeans: every data set of 8 (10) shapes, every K, both methods, MaxIters 1..3 and the default; equal to the library; pushed data go to the closest center"},
  {"push", s_push, "vl_ikmeanspush: every set of centers over five values (negative, equal), up to 3 (4) centers of up to 2 dimensions, both methods"},
  {"hikmeans", s_hikmeans, "vl_hikmeans: every data set of 6 (8) shapes, every K, seven numbers of leaves, both methods, MaxIters; equal to the library; paths follow the closest centers"},
  {"hik-depth", s_hik_depth, "K in 2..10 x numbers of leaves around every power of K up to 1500"},
  {"hpush-bad", s_hpush_bad, "vl_hikmeanspush: 17 defects at each of the first four nodes of trees of up to 3 levels, data of 0..3 rows"},
  {"arguments", s_args, "every number of arguments and results; every argument, and every pair of arguments, replaced by 30 kinds of array"},
  {0}
};
