/* C47: the learning functions of the toolbox give the library's answers in MATLAB's conventions. */
#include "mc.h"
#include "mex.h"
#include "zoo.h"
#include <vl/generic.h>
#include <vl/random.h>
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/kdtree.h>
#include <vl/svm.h>
#include <vl/svmdataset.h>
#include <vl/homkermap.h>
#include <vl/slic.h>
#include <vl/quickshift.h>
#include <vl/rodrigues.h>
#define F(n) extern void mex_##n(int, mxArray **, int, const mxArray **);
F(vl_kmeans) F(vl_gmm) F(vl_fisher) F(vl_vlad) F(vl_kdtreebuild) F(vl_kdtreequery) F(vl_svmtrain) F(vl_homkermap) F(vl_slic) F(vl_quickshift) F(vl_twister) F(vl_rodr) F(vl_irodr)
#define seed(s) vl_rand_seed(vl_get_rand(), (s))

/* Two calls with different remains on the stack and the same random numbers must agree. */
static void __attribute__((noinline)) dirty(int c) { volatile char b[40000]; for (size_t i = 0; i < sizeof b; i++) b[i] = c; }
static int twice(const char *fn, mexfn f, int nout, mxArray **out, int nin, mxArray **in, int skip) {
  mxArray *o[8]; dirty(0x3e); seed(7); int r = mex_call(f, nout, out, nin, in); char m[200]; snprintf(m, sizeof m, "%s", mex_message); dirty(0x41); seed(7); int q = mex_call(f, nout, o, nin, in);
  MC_CHECK("repeat", r == q, "%s: the same call gives '%s' and then '%s'", fn, m, mex_message); if (r) return r;
  for (int i = 0; i < (nout ? nout : 1); i++) if (!(skip >> i & 1)) MC_CHECK("repeat", mx_hash(out[i]) == mx_hash(o[i]), "%s: the same call gives two different results (result %d): %s and %s", fn, i + 1, out[i] ? show(out[i]) : "", o[i] ? show(o[i]) : ""); return 0;
}
static int same(const mxArray *a, const void *p) { if (mxGetNumberOfElements(a) == 0) return 1; size_t n = mxGetNumberOfElements(a); int s = mxGetClassID(a) == mxSINGLE_CLASS; for (size_t i = 0; i < n; i++) { double x = mxv(a, i), y = s ? ((const float *)p)[i] : ((const double *)p)[i]; if (!(x == y || (isnan(x) && isnan(y)) || fabs(x - y) <= (s ? 1e-4 : 1e-9) * (1 + fabs(y)))) return 0; } return 1; }
static const double VAL[] = {0, 1, 3, -2, .5};
/* D x N data: every value is chosen */
static mxArray *anydata(mxClassID c, int D, int N, int nv) { mxArray *a = mx2(c, D, N, 0); for (int i = 0; i < D * N; i++) mxsv(a, i, VAL[mc_choose(nv)]); return a; }
static mxArray *somedata(mxClassID c, int D, int N, unsigned k) { mxArray *a = mx2(c, D, N, 0); for (int i = 0; i < D * N; i++) { unsigned h = (i + 1) * 2654435761u + k * 40503u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; mxsv(a, i, (h % 97) / 16. - (k % 3) * (i / D % 2 ? 3 : 0)); } return a; }
static vl_type vt(mxClassID c) { return c == mxSINGLE_CLASS ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; }

/* ---- k-means ---- */
static void s_kmeans(void) {
  mx_release(); int D = 1 + mc_choose(2), N = 1 + mc_choose(D == 1 ? MC_BOUND(4, 4, 5) : MC_BOUND(2, 3, 3)), K = 1 + mc_choose(N), k = 0, v; mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS;
  VlKMeansAlgorithm al = VlKMeansLloyd; VlVectorComparisonType di = VlDistanceL2; VlKMeansInitialization ini = VlKMeansPlusPlus; int it = 100, rep = 1, tr = 3, cmp = 100; double mev = -1; mxArray *in[24], *out[3]; in[k++] = 0; in[k++] = sc(K);
  if ((v = mc_choose(3))) { al = v == 1 ? VlKMeansElkan : VlKMeansANN; in[k++] = str("algorithm"); in[k++] = str(v == 1 ? "ELKAN" : "ann"); } else if (mc_dev(2)) { in[k++] = str("Algorithm"); in[k++] = str("Lloyd"); }
  if ((v = mc_choose(3))) { di = v == 1 ? VlDistanceL1 : VlDistanceL2; in[k++] = str("Distance"); in[k++] = str(v == 1 ? "l1" : "L2"); }
  if ((v = mc_dev(5))) { ini = v & 1 ? VlKMeansRandomSelection : VlKMeansPlusPlus; in[k++] = str(v < 3 ? "Initialization" : "INITIALISATION"); in[k++] = str(v & 1 ? "RandSel" : v == 2 ? "plusplus" : "++"); }
  if ((v = mc_dev(4))) { it = v == 1 ? 0 : v == 2 ? 1 : 3; in[k++] = str("MaxNumIterations"); in[k++] = sc(it); } if ((v = mc_dev(3))) { rep = v + 1; in[k++] = str("NumRepetitions"); in[k++] = sc(rep); } if ((v = mc_dev(3))) { tr = v == 1 ? 1 : 5; in[k++] = str("NumTrees"); in[k++] = sc(tr); }
  if ((v = mc_dev(3))) { cmp = v == 1 ? 0 : 2; in[k++] = str("MaxNumComparisons"); in[k++] = sc(cmp); } if ((v = mc_dev(3))) { mev = v == 1 ? 0 : .4; in[k++] = str("MinEnergyVariation"); in[k++] = sc(mev); } if (mc_dev(2)) in[k++] = str("verbose"); int nout = 3 - mc_dev(4); in[0] = anydata(c, D, N, D * N > 4 ? 2 : 3);
  mc_note("vl_kmeans of %s, %d centers, algorithm %d, distance %d, initialisation %d, %d iterations, %d repetitions", show(in[0]), K, al, di, ini, it, rep); int r = twice("vl_kmeans", mex_vl_kmeans, nout, out, k, in, 0); MC_CHECK("kmeans", r == 0, "vl_kmeans: error '%s'", mex_message);
  VlKMeans *m = vl_kmeans_new(vt(c), di); vl_kmeans_set_algorithm(m, al); vl_kmeans_set_initialization(m, ini); vl_kmeans_set_max_num_iterations(m, it); vl_kmeans_set_num_repetitions(m, rep); vl_kmeans_set_num_trees(m, tr); vl_kmeans_set_max_num_comparisons(m, cmp); if (mev >= 0) vl_kmeans_set_min_energy_variation(m, mev); seed(7); double E = vl_kmeans_cluster(m, mxGetData(in[0]), D, N, K);
  MC_CHECK("kmeans", mx_is(out[0], c, D, K) && same(out[0], vl_kmeans_get_centers(m)), "vl_kmeans: centers %s rather than those of the library", show(out[0]));
  if (nout > 1) { vl_uint32 a[8]; vl_kmeans_quantize(m, a, 0, mxGetData(in[0]), N); MC_CHECK("kmeans", mx_is(out[1], mxUINT32_CLASS, 1, N), "vl_kmeans: class or size of the assignments"); for (int i = 0; i < N; i++) { double d[8], best = INFINITY; for (int j = 0; j < K; j++) { d[j] = 0; for (int q = 0; q < D; q++) { double e = mxv(in[0], i * D + q) - mxv(out[0], j * D + q); d[j] += di == VlDistanceL2 ? e * e : fabs(e); } best = fmin(best, d[j]); } int z = mxv(out[1], i); MC_CHECK("kmeans", z >= 1 && z <= K && d[z - 1] <= best + 1e-4, "vl_kmeans: point %d is given to center %d (distance %g, best %g)", i + 1, z, z >= 1 && z <= K ? d[z - 1] : NAN, best); MC_CHECK("kmeans", z == (int)a[i] + 1, "vl_kmeans: point %d is given to center %d rather than %d", i + 1, z, a[i] + 1); } }
  if (nout > 2) MC_CHECK("kmeans", mx_is(out[2], mxDOUBLE_CLASS, 1, 1) && (mxv(out[2], 0) == E || fabs(mxv(out[2], 0) - E) <= 1e-5 * (1 + fabs(E))), "vl_kmeans: energy %g rather than %g", mxv(out[2], 0), E);
  vl_kmeans_delete(m); mc_state(mc_mix(mx_hash(out[0]), nout > 1 ? mx_hash(out[1]) : 0));
}
/* ---- Gaussian mixtures ---- */
static void s_gmm(void) {
  mx_release(); int D = 1 + mc_choose(3), N = 1 + mc_choose(MC_BOUND(5, 6, 8)), K = 1 + mc_choose(VL_MIN(N, 3)), pat = mc_choose(MC_BOUND(2, 4, 5)), k = 0, v; mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS; mxArray *in[24], *out[5], *m0 = 0, *c0 = 0, *p0 = 0; VlGMMInitialization ini = VlGMMRand; int it = 100, rep = 1; double cb = -1, cbv[3] = {.1, .5, 2}; int hv = 0; in[k++] = somedata(c, D, N, pat); in[k++] = sc(K);
  if ((v = mc_choose(4))) { if (v < 3) { ini = v == 1 ? VlGMMRand : VlGMMKMeans; in[k++] = str(v == 1 ? "Initialization" : "initialisation"); in[k++] = str(v == 1 ? "RAND" : "KMeans"); } else { ini = VlGMMCustom; m0 = somedata(c, D, K, 9); c0 = mx2(c, D, K, 0); p0 = mx2(c, mc_choose(2) ? 1 : K, mxGetNumberOfElements(c0) ? 1 : 1, 0); if (mxGetM(p0) == 1) p0 = mx2(c, 1, K, 0); for (int i = 0; i < D * K; i++) mxsv(c0, i, 1 + i % 3); for (int i = 0; i < K; i++) mxsv(p0, i, (i + 1.) / (K * (K + 1) / 2)); if (mc_dev(2)) { in[k++] = str("Initialization"); in[k++] = str("custom"); } in[k++] = str("InitMeans"); in[k++] = m0; in[k++] = str("InitCovariances"); in[k++] = c0; in[k++] = str("INITPRIORS"); in[k++] = p0; } }
  if ((v = mc_dev(4))) { it = v == 1 ? 0 : v == 2 ? 1 : 3; in[k++] = str("MaxNumIterations"); in[k++] = sc(it); } if ((v = mc_dev(3))) { rep = v + 1; in[k++] = str("NumRepetitions"); in[k++] = sc(rep); }
  if ((v = mc_dev(4))) { in[k++] = str("CovarianceBound"); if (v < 3) { cb = v == 1 ? .5 : 2; in[k++] = sc(cb); } else { hv = 1; in[k++] = mx2(mxDOUBLE_CLASS, D, 1, cbv); } } if (mc_dev(2)) in[k++] = str("verbose"); int nout = 5 - mc_dev(6); if (hv && D == 1) hv = 0, cb = cbv[0];
  mc_note("vl_gmm of %s, %d modes, initialisation %d, %d iterations, %d repetitions, %d results", show(in[0]), K, ini, it, rep, nout); int r = twice("vl_gmm", mex_vl_gmm, nout, out, k, in, 0); MC_CHECK("gmm", r == 0, "vl_gmm: error '%s'", mex_message);
  VlGMM *g = vl_gmm_new(vt(c), D, K); vl_gmm_set_num_repetitions(g, rep); vl_gmm_set_max_num_iterations(g, it); vl_gmm_set_initialization(g, ini); if (cb >= 0) vl_gmm_set_covariance_lower_bound(g, cb); if (hv) vl_gmm_set_covariance_lower_bounds(g, cbv); if (m0) { vl_gmm_set_priors(g, mxGetData(p0)); vl_gmm_set_means(g, mxGetData(m0)); vl_gmm_set_covariances(g, mxGetData(c0)); } seed(7); double L = vl_gmm_cluster(g, mxGetData(in[0]), N);
  MC_CHECK("gmm", mx_is(out[0], c, D, K) && same(out[0], vl_gmm_get_means(g)), "vl_gmm: means %s", show(out[0])); if (nout > 1) MC_CHECK("gmm", mx_is(out[1], c, D, K) && same(out[1], vl_gmm_get_covariances(g)), "vl_gmm: covariances %s", show(out[1])); if (nout > 2) MC_CHECK("gmm", mx_is(out[2], c, K, 1) && same(out[2], vl_gmm_get_priors(g)), "vl_gmm: priors %s", show(out[2]));
  if (nout > 3) MC_CHECK("gmm", mx_is(out[3], mxDOUBLE_CLASS, 1, 1) && (mxv(out[3], 0) == L || fabs(mxv(out[3], 0) - L) <= 1e-4 * (1 + fabs(L)) || (isnan(L) && isnan(mxv(out[3], 0)))), "vl_gmm: log-likelihood %g rather than %g", mxv(out[3], 0), L); if (nout > 4) MC_CHECK("gmm", mx_is(out[4], c, K, N) && same(out[4], vl_gmm_get_posteriors(g)), "vl_gmm: posteriors %s", show(out[4]));
  vl_gmm_delete(g); mc_state(mc_mix(mx_hash(out[0]), nout > 4 ? mx_hash(out[4]) : 0));
}
/* ---- Fisher and VLAD ---- */
static void s_fisher(void) {
  mx_release(); int D = 1 + mc_choose(3), N = mc_choose(MC_BOUND(3, 5, 6)), K = 1 + mc_choose(MC_BOUND(2, 3, 4)), pat = mc_choose(MC_BOUND(3, 5, 5)), k = 4, v, fl = 0; mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS; mxArray *in[12], *out; in[0] = somedata(c, D, N, pat); in[1] = somedata(c, D, K, pat + 11); in[2] = mx2(c, D, K, 0); in[3] = mx2(c, mc_choose(2) ? 1 : K, 1, 0); if (mxGetM(in[3]) == 1) in[3] = mx2(c, 1, K, 0); for (int i = 0; i < D * K; i++) mxsv(in[2], i, 1 + (i + pat) % 3); for (int i = 0; i < K; i++) mxsv(in[3], i, 1. / K);
  static const struct { const char *n; int f; } O[] = {{"Normalized", VL_FISHER_FLAG_NORMALIZED}, {"squareroot", VL_FISHER_FLAG_SQUARE_ROOT}, {"IMPROVED", VL_FISHER_FLAG_IMPROVED}, {"Fast", VL_FISHER_FLAG_FAST}, {"verbose", 0}}; for (v = 0; v < 5; v++) if (mc_choose(2)) { fl |= O[v].f; in[k++] = str(O[v].n); }
  mc_note("vl_fisher of %s, means %s, flags %d", show(in[0]), show(in[1]), fl); int r = twice("vl_fisher", mex_vl_fisher, mc_dev(2) ? 0 : 1, &out, k, in, 0); if (r && N == 0) return; MC_CHECK("fisher", r == 0 && mx_is(out, c, 2 * D * K, 1), "vl_fisher: error '%s' or size", mex_message); double e[64]; memset(e, 0, sizeof e); vl_fisher_encode(e, vt(c), mxGetData(in[1]), D, K, mxGetData(in[2]), mxGetData(in[3]), mxGetData(in[0]), N, fl); MC_CHECK("fisher", same(out, e), "vl_fisher gives %s rather than the library's encoding", show(out)); mc_state(mx_hash(out));
}
static void s_vlad(void) {
  mx_release(); int D = 1 + mc_choose(3), N = mc_choose(MC_BOUND(3, 5, 6)), K = 1 + mc_choose(MC_BOUND(2, 3, 4)), pat = mc_choose(MC_BOUND(3, 5, 5)), k = 3, v, fl = 0, cols = N + mc_choose(3) - 1; mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS; mxArray *in[12], *out; if (cols < 0) mc_skip(); in[0] = somedata(c, D, N, pat); in[1] = somedata(c, D, K, pat + 11); in[2] = mx2(c, K, cols, 0); for (int j = 0; j < cols; j++) { if ((pat + j) & 1) mxsv(in[2], j * K + (j * 7 + pat) % K, 1); else for (int i = 0; i < K; i++) mxsv(in[2], j * K + i, 1. / K); }
  static const struct { const char *n; int f; } O[] = {{"unnormalized", VL_VLAD_FLAG_UNNORMALIZED}, {"NormalizeComponents", VL_VLAD_FLAG_NORMALIZE_COMPONENTS}, {"NORMALIZEMASS", VL_VLAD_FLAG_NORMALIZE_MASS}, {"SquareRoot", VL_VLAD_FLAG_SQUARE_ROOT}, {"Verbose", 0}}; for (v = 0; v < 5; v++) if (mc_choose(2)) { fl |= O[v].f; in[k++] = str(O[v].n); }
  mc_note("vl_vlad of %s, means %s, %d columns of assignments, flags %d", show(in[0]), show(in[1]), cols, fl); int r = twice("vl_vlad", mex_vl_vlad, 1, &out, k, in, 0); if (cols != N) { MC_CHECK("vlad", r == 1, "vl_vlad accepts %d columns of assignments for %d data", cols, N); return; } if (r && N == 0) return; MC_CHECK("vlad", r == 0 && mx_is(out, c, D * K, 1), "vl_vlad: error '%s' or size", mex_message); double e[64]; memset(e, 0, sizeof e); vl_vlad_encode(e, vt(c), mxGetData(in[1]), D, K, mxGetData(in[0]), N, mxGetData(in[2]), fl); MC_CHECK("vlad", same(out, e), "vl_vlad gives %s rather than the library's encoding", show(out)); mc_state(mx_hash(out));
}
/* ---- kd-trees ---- */
static double dist(const mxArray *X, int i, const mxArray *Q, int j, int D, int l1) { double s = 0; for (int q = 0; q < D; q++) { double e = mxv(X, i * D + q) - mxv(Q, j * D + q); s += l1 ? fabs(e) : e * e; } return s; }
static void s_kdtree(void) {
  mx_release(); int D = 1 + mc_choose(2), N = 1 + mc_choose(D == 1 ? MC_BOUND(4, 5, 6) : MC_BOUND(3, 3, 4)), k = 1, v, l1 = 0, tr = 1, me = VL_KDTREE_MEDIAN, nn = 1, cmp = 0, NQ = mc_choose(3); mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS; mxArray *in[16], *T, *out[2];
  if ((v = mc_choose(2))) { l1 = 1; in[k++] = str("Distance"); in[k++] = str("L1"); } if ((v = mc_choose(3))) { tr = v == 1 ? 2 : 3; in[k++] = str("NUMTREES"); in[k++] = sc(tr); } if ((v = mc_choose(3))) { me = v == 1 ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN; in[k++] = str("ThresholdMethod"); in[k++] = str(v == 1 ? "mean" : "MEDIAN"); } if (mc_dev(2)) in[k++] = str("verbose");
  if ((v = mc_choose(MC_BOUND(3, 3, 4)))) nn = v == 1 ? 2 : v == 2 ? N : N + 2; int hc = mc_dev(3); if (hc) cmp = hc == 1 ? 1 : 2; mxArray *X = anydata(c, D, N, D * N > 4 ? 2 : 3); in[0] = X; mc_note("vl_kdtreebuild of %s, %s, %d trees, method %d, then %d neighbours with %d comparisons of %d queries", show(X), l1 ? "l1" : "l2", tr, me, nn, cmp, NQ);
  int r = twice("vl_kdtreebuild", mex_vl_kdtreebuild, mc_dev(2) ? 0 : 1, &T, k, in, 0); MC_CHECK("kdtreebuild", r == 0, "vl_kdtreebuild: error '%s'", mex_message); MC_CHECK("kdtreebuild", mxIsStruct(T) && mxv(mxGetField(T, 0, "dimension"), 0) == D && mxv(mxGetField(T, 0, "numData"), 0) == N && (int)mxGetNumberOfElements(mxGetField(T, 0, "trees")) == tr, "vl_kdtreebuild: fields of the forest");
  char b[8] = ""; mxGetString(mxGetField(T, 0, "distance"), b, 8); MC_CHECK("kdtreebuild", !strcmp(b, l1 ? "l1" : "l2"), "vl_kdtreebuild: distance '%s'", b); for (int t = 0; t < tr; t++) { int seen[16] = {0}; mxArray *di = mxGetField(mxGetField(T, 0, "trees"), t, "dataIndex"); MC_CHECK("kdtreebuild", mx_is(di, mxUINT32_CLASS, 1, N), "data index"); for (int i = 0; i < N; i++) { int z = mxv(di, i); MC_CHECK("kdtreebuild", z >= 1 && z <= N && !seen[z]++, "vl_kdtreebuild: the data index of tree %d is not a permutation: %s", t + 1, show(di)); } }
  mxArray *Q = mx2(c, D, NQ, 0); static const double qv[] = {.4, 2.2, -1, 1.6, 9, 0}; for (int i = 0; i < D * NQ; i++) mxsv(Q, i, qv[i % 6]); k = 0; in[k++] = T; in[k++] = X; in[k++] = Q; if (nn != 1 || mc_dev(2)) { in[k++] = str("NumNeighbors"); in[k++] = sc(nn); } if (hc) { in[k++] = str(hc == 1 ? "MaxComparisons" : "MAXNUMCOMPARISONS"); in[k++] = sc(cmp); } if (mc_dev(2)) in[k++] = str("Verbose"); int nout = 2 - mc_dev(3);
  r = twice("vl_kdtreequery", mex_vl_kdtreequery, nout, out, k, in, 0); MC_CHECK("kdtreequery", r == 0, "vl_kdtreequery: error '%s'", mex_message); MC_CHECK("kdtreequery", mx_is(out[0], mxUINT32_CLASS, nn, NQ) && (nout < 2 || mx_is(out[1], c, nn, NQ)), "vl_kdtreequery: class or size of the results");
  VlKDForest *f = vl_kdforest_new(vt(c), D, tr, l1 ? VlDistanceL1 : VlDistanceL2); vl_kdforest_set_thresholding_method(f, me); seed(7); vl_kdforest_build(f, N, mxGetData(X)); vl_kdforest_set_max_num_comparisons(f, cmp); vl_uint32 ix[64]; double ds[64]; if (NQ) vl_kdforest_query_with_array(f, ix, nn, NQ, ds, mxGetData(Q));
  for (int j = 0; j < NQ; j++) { double all[16]; for (int i = 0; i < N; i++) { double d = dist(X, i, Q, j, D, l1); int p = i; while (p > 0 && all[p - 1] > d) all[p] = all[p - 1], p--; all[p] = d; } for (int q = 0; q < nn; q++) { int z = mxv(out[0], j * nn + q); double d = nout > 1 ? mxv(out[1], j * nn + q) : NAN, e = c == mxSINGLE_CLASS ? ((float *)ds)[j * nn + q] : ds[j * nn + q]; MC_CHECK("kdtreequery", z == (int)(ix[j * nn + q] + 1), "vl_kdtreequery: neighbour %d of query %d is %d rather than %d", q + 1, j + 1, z, ix[j * nn + q] + 1); if (nout > 1) MC_CHECK("kdtreequery", fabs(d - e) <= 1e-5 || (isnan(d) && isnan(e)), "vl_kdtreequery: distance %g rather than %g", d, e); if (!cmp && q < N) { MC_CHECK("kdtreequery", z >= 1 && z <= N && fabs(dist(X, z - 1, Q, j, D, l1) - all[q]) <= 1e-4, "vl_kdtreequery: neighbour %d of query %d is %d, which is not at distance %g", q + 1, j + 1, z, all[q]); if (nout > 1) MC_CHECK("kdtreequery", fabs(d - all[q]) <= 1e-4, "vl_kdtreequery: distance %g rather than %g", d, all[q]); } } }
  vl_kdforest_delete(f); mc_state(mc_mix(mx_hash(T), mx_hash(out[0])));
}
/* forests altered at one or two places: an error, or an answer within the data */
static mxArray *clone(const mxArray *a) { /* deep copy of a forest */
  if (!a) return 0; if (mxIsStruct(a)) { static const char *nm[] = {"dimension", "numData", "trees", "distance", "nodes", "dataIndex", "lowerChild", "upperChild", "splitDimension", "splitThreshold", "lowerBound", "upperBound"}; const char *u[12]; int n = 0; for (int i = 0; i < 12; i++) if (mxGetFieldNumber(a, nm[i]) >= 0) u[n++] = nm[i]; mxArray *b = mxCreateStructMatrix(mxGetM(a), mxGetN(a), n, u); for (size_t e = 0; e < mxGetNumberOfElements(a); e++) for (int i = 0; i < n; i++) mxSetField(b, e, u[i], clone(mxGetField(a, e, u[i]))); return b; }
  if (mxIsChar(a)) { char s[16]; mxGetString(a, s, 16); return str(s); } mxArray *b = mx2(mxGetClassID(a), mxGetM(a), mxGetN(a), 0); for (size_t i = 0; i < mxGetNumberOfElements(a); i++) mxsv(b, i, mxv(a, i)); return b;
}
static const char *PATHS[] = {"dimension", "numData", "distance", "trees", "nodes", "dataIndex", "lowerChild", "upperChild", "splitDimension", "splitThreshold", "lowerBound", "upperBound"};
static mxArray *holder(mxArray *f, int p, int t) { return p < 4 ? f : p < 6 ? mxGetField(f, 0, "trees") : mxGetField(mxGetField(f, 0, "trees"), t, "nodes"); }
static int hidx(int p, int t) { return p == 4 || p == 5 ? t : 0; }
static void s_forest(void) {
  mx_release(); int D = 1 + mc_choose(MC_BOUND(1, 2, 2)), N = 1 + mc_choose(MC_BOUND(3, 4, 4)), tr = 1 + mc_choose(2), what = mc_choose(4); mxArray *in[5], *T, *out[2]; in[0] = somedata(mxDOUBLE_CLASS, D, N, N); in[1] = str("NumTrees"); in[2] = sc(tr); seed(3); MC_CHECK("harness", mex_call(mex_vl_kdtreebuild, 1, &T, 3, in) == 0, "%s", mex_message); T = clone(T); int t = mc_choose(tr), bad = 0; in[1] = in[0]; in[0] = T; in[2] = somedata(mxDOUBLE_CLASS, D, 2, 5); in[3] = str("NumNeighbors"); in[4] = sc(2); seed(3); MC_CHECK("harness", mex_call(mex_vl_kdtreequery, 2, out, 5, in) == 0, "a copy of the forest is rejected: %s", mex_message);
  if (what < 2) { /* one or two numbers of one tree */
    for (int w = 0; w <= what; w++) { int p = mc_choose(what ? 4 : 9); p = what ? 5 + p : p == 0 ? 0 : p == 1 ? 1 : p + 3; mxArray *h = holder(T, p, t), *f = mxGetField(h, hidx(p, t), PATHS[p]); if (!f || mxIsStruct(f)) mc_skip(); int i = mc_choose((int)mxGetNumberOfElements(f)), n = N + 4, v = mc_choose(2 * n + 1 + (what ? 0 : 4)) - n; double x = v <= n ? v : v == n + 1 ? NAN : v == n + 2 ? 1e20 : v == n + 3 ? -2147483648. : 2147483647.; mxsv(f, i, x); mc_note("forest of %d points in %d dimensions, %s(%d) of tree %d set to %g", N, D, PATHS[p], i + 1, t + 1, x); }
  } else { int p = mc_choose(12), z = mc_choose(NZOO + 2); mxArray *h = holder(T, p, t); if (what == 3) { /* another length */ mxArray *f = mxGetField(h, hidx(p, t), PATHS[p]); int d = mc_choose(3); if (!f || mxIsStruct(f) || z) mc_skip(); mxSetField(h, hidx(p, t), PATHS[p], d == 2 ? mx2(mxGetClassID(f), 0, 0, 0) : mx2(mxGetClassID(f), 1, mxGetN(f) + (d ? 1 : -1), 0)); } else if (z == NZOO + 1) { mxSetField(h, hidx(p, t), PATHS[p], 0); bad = p != 2; } else mxSetField(h, hidx(p, t), PATHS[p], z == NZOO ? sc(NAN) : zoo(z)); mc_note("forest of %d points in %d dimensions, field %s of tree %d replaced (%d, kind %d)", N, D, PATHS[p], t + 1, what, z); }
  seed(3); int r = mex_call(mex_vl_kdtreequery, 2, out, 5, in); mc_case(1); if (bad) MC_CHECK("forest", r == 1, "vl_kdtreequery accepts a forest without a field"); if (r) return; for (size_t i = 0; i < mxGetNumberOfElements(out[0]); i++) MC_CHECK("forest", mxv(out[0], i) <= N, "vl_kdtreequery answers with point %g of %d", mxv(out[0], i), N);
}
/* ---- SVM ---- */
static int ndiag; static mxArray *dh; static void diag(int no, mxArray **o, int ni, mxArray **i, const char *f) { MC_CHECK("svm", ni == 2 && no == 0 && !strcmp(f, "feval") && i[0] == dh && mxIsStruct(i[1]) && mxGetField(i[1], 0, "objective"), "vl_svmtrain: arguments of the diagnostic function"); ndiag++; }
static int ldiag; static void ldiagf(VlSvm *s, void *d) { ldiag++; }
static void s_svm(void) {
  mx_release(); int D = 1 + mc_choose(2), N = 1 + mc_choose(MC_BOUND(2, 3, 5)), pat = mc_choose(MC_BOUND(2, 2, 3)), k = 0, v, ds = mc_choose(3), so = mc_choose(3), lo = mc_choose(6), lab = mc_choose(1 << VL_MIN(N, 4)); mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS; mxArray *in[40], *out[4], *X = somedata(c, D, N, pat); double y[8], w[8], m0[20]; for (int i = 0; i < 20; i++) m0[i] = .3 * i - 1; static const double LA[] = {.1, 1, .01}; double la = LA[mc_choose(MC_BOUND(2, 2, 3))], eps = -1, bm = -1, bl = -1, b0 = NAN; int it = -1, df = -1, si = -1, hw = 0, hm = 0; VlHomogeneousKernelMap *hom = 0; for (size_t i = 0; i < mxGetNumberOfElements(X); i++) if (ds == 2 && mxv(X, i) < 0) mxsv(X, i, -mxv(X, i));
  for (int i = 0; i < N; i++) y[i] = lab >> i & 1 ? 1 : -1, w[i] = 1 + (i % 3) * .5; in[k++] = X; if (ds) { static const char *nm[] = {"data", "homkermap"}, *hn[] = {"order", "kernel", "window", "gamma", "period"}; in[0] = mxCreateStructMatrix(1, 1, ds, nm); mxSetField(in[0], 0, "data", X); if (ds == 2) { int hv = mc_choose(MC_BOUND(2, 4, 6)); mxArray *h = mxCreateStructMatrix(1, 1, 5, hn); if (hv) { mxSetField(h, 0, "order", sc(hv % 3)); mxSetField(h, 0, "kernel", str(hv == 1 ? "kl1" : hv == 2 ? "KCHI2" : hv == 3 ? "kjs" : "KInters")); if (hv > 1) mxSetField(h, 0, "window", str(hv == 2 ? "uniform" : "Rectangular")); if (hv == 3) mxSetField(h, 0, "gamma", sc(.5)); if (hv == 4) mxSetField(h, 0, "period", sc(5)); } mxSetField(in[0], 0, "homkermap", h); hom = vl_homogeneouskernelmap_new(hv == 1 || hv >= 4 ? VlHomogeneousKernelIntersection : hv == 3 ? VlHomogeneousKernelJS : VlHomogeneousKernelChi2, hv == 3 ? .5 : 1, hv ? hv % 3 : 1, hv == 4 ? 5 : -1, hv == 2 ? VlHomogeneousKernelMapWindowUniform : VlHomogeneousKernelMapWindowRectangular); } }
  in[k++] = mx2(mxDOUBLE_CLASS, mc_dev(2) ? N : 1, 1, 0); if (mxGetM(in[1]) != N || N == 1) in[1] = mx2(mxDOUBLE_CLASS, 1, N, 0); for (int i = 0; i < N; i++) mxsv(in[1], i, y[i]); in[k++] = sc(la); static const char *SN[] = {"SDCA", "sgd", "None"}, *LN[] = {"", "hinge", "Hinge2", "l1", "L2", "logistic"}; static const VlSvmSolverType SV[] = {VlSvmSolverSdca, VlSvmSolverSgd, VlSvmSolverNone}; static const VlSvmLossType LV[] = {VlSvmLossHinge, VlSvmLossHinge, VlSvmLossHinge2, VlSvmLossL1, VlSvmLossL2, VlSvmLossLogistic};
  if (so || mc_dev(2)) { in[k++] = str("solver"); in[k++] = str(SN[so]); } if (lo) { in[k++] = str("Loss"); in[k++] = str(LN[lo]); } it = 20; if ((v = mc_dev(3))) it = v == 1 ? 0 : 1; in[k++] = str("MaxNumIterations"); in[k++] = sc(it);
  if ((v = mc_dev(3))) { eps = v == 1 ? 0 : .5; in[k++] = str("Epsilon"); in[k++] = sc(eps); } if ((v = mc_dev(3))) { bm = v == 1 ? 0 : 2; in[k++] = str("BiasMultiplier"); in[k++] = sc(bm); } if ((v = mc_dev(3))) { df = v == 1 ? 1 : 3; in[k++] = str("DiagnosticFrequency"); in[k++] = sc(df); } if (so == 1 && (v = mc_dev(3))) { si = v == 1 ? 0 : 5; in[k++] = str("StartingIteration"); in[k++] = sc(si); } if (so == 1 && (v = mc_dev(2))) { bl = .1; in[k++] = str("BiasLearningRate"); in[k++] = sc(bl); }
  if (mc_dev(2)) { hw = 1; in[k++] = str("Weights"); in[k++] = mx2(mxDOUBLE_CLASS, 1, N, w); } VlSvmDataset *data = vl_svmdataset_new(vt(c), mxGetData(X), D, N); if (hom) vl_svmdataset_set_homogeneous_kernel_map(data, hom); int DD = vl_svmdataset_get_dimension(data);
  if (so && mc_dev(2)) { hm = 1; in[k++] = str("Model"); in[k++] = mx2(mxDOUBLE_CLASS, DD, 1, m0); } if (so && mc_dev(2)) { b0 = .7; in[k++] = str("Bias"); in[k++] = sc(b0); } int hd = mc_dev(2); if (hd) { in[k++] = str("DiagnosticFunction"); in[k++] = dh = mxCreateNumericMatrix(1, 1, mxFUNCTION_CLASS, mxREAL); mex_callmatlab = diag; } else mex_callmatlab = 0; if (mc_dev(2)) in[k++] = str("verbose"); int nout = 4 - mc_dev(5);
  mc_note("vl_svmtrain of %s, labels %s, lambda %g, solver %s, loss %s, dataset %d", show(X), show(in[1]), la, SN[so], LN[lo], ds); ndiag = ldiag = 0; int r = twice("vl_svmtrain", mex_vl_svmtrain, nout, out, k, in, 4); MC_CHECK("svm", r == 0, "vl_svmtrain: error '%s'", mex_message);
  VlSvm *s = vl_svm_new_with_dataset(SV[so], data, y, la); if (hm) vl_svm_set_model(s, m0); if (!isnan(b0)) vl_svm_set_bias(s, b0); if (eps >= 0) vl_svm_set_epsilon(s, eps); vl_svm_set_max_num_iterations(s, it); if (bm >= 0) vl_svm_set_bias_multiplier(s, bm); if (bl >= 0) vl_svm_set_bias_learning_rate(s, bl); if (df >= 0) vl_svm_set_diagnostic_frequency(s, df); if (si >= 0) vl_svm_set_iteration_number(s, si); if (hw) vl_svm_set_weights(s, w); vl_svm_set_loss(s, LV[lo]); vl_svm_set_diagnostic_function(s, ldiagf, 0); seed(7); vl_svm_train(s); mex_callmatlab = 0;
  if (hd) MC_CHECK("svm", ndiag == 2 * ldiag, "vl_svmtrain calls the diagnostic function %d times rather than %d", ndiag / 2, ldiag);
  MC_CHECK("svm", mx_is(out[0], mxDOUBLE_CLASS, DD, 1) && same(out[0], vl_svm_get_model(s)), "vl_svmtrain: model %s", show(out[0])); double b = vl_svm_get_bias(s); if (nout > 1) MC_CHECK("svm", mx_is(out[1], mxDOUBLE_CLASS, 1, 1) && same(out[1], &b), "vl_svmtrain: bias %g rather than %g", mxv(out[1], 0), b);
  if (nout > 2) { const VlSvmStatistics *st = vl_svm_get_statistics(s); double e[] = {la, vl_svm_get_bias_multiplier(s), b, st->objective, st->regularizer, st->loss, so == 0 ? st->dualObjective : st->scoresVariation, st->iteration, st->epoch}; static const char *fn[] = {"lambda", "biasMultiplier", "bias", "objective", "regularizer", "loss", "", "iteration", "epoch"}; for (int i = 0; i < 9; i++) { if (so == 2 && i > 5) break; mxArray *q = mxGetField(out[2], 0, i == 6 ? so == 0 ? "dualObjective" : "scoreVariation" : fn[i]); MC_CHECK("svm", q && (same(q, e + i) || mxv(q, 0) == e[i]), "vl_svmtrain: field '%s' is %g rather than %g", fn[i], q ? mxv(q, 0) : NAN, e[i]); } char sn[8]; mxGetString(mxGetField(out[2], 0, "solver"), sn, 8); MC_CHECK("svm", !strcasecmp(sn, SN[so]), "vl_svmtrain: solver '%s'", sn); if (so == 0) { mxArray *q = mxGetField(out[2], 0, "dualityGap"); MC_CHECK("svm", q && same(q, &st->dualityGap), "dualityGap"); } }
  if (nout > 3) MC_CHECK("svm", mx_is(out[3], mxDOUBLE_CLASS, 1, N) && same(out[3], vl_svm_get_scores(s)), "vl_svmtrain: scores %s", show(out[3])); mc_state(mx_hash(out[0])); vl_svm_delete(s); vl_svmdataset_delete(data); if (hom) vl_homogeneouskernelmap_delete(hom);
}
/* ---- maps, segmentations, rotations, random numbers ---- */
static void s_homkermap(void) {
  mx_release(); static const int sh[][4] = {{2, 1, 1}, {2, 2, 3}, {2, 3, 1}, {2, 0, 2}, {2, 2, 0}, {3, 2, 1, 2}, {2, 1, 4}}; int s = mc_choose(7), n = mc_choose(MC_BOUND(3, 4, 5)), k = 2, v; mxClassID c = mc_choose(2) ? mxSINGLE_CLASS : mxDOUBLE_CLASS; mxArray *in[12], *out; in[0] = mxn(c, sh[s][0], sh[s][1], sh[s][2], sh[s][3]); size_t N = mxGetNumberOfElements(in[0]); static const double xv[] = {0, 1, .5, 1e-3, 7, 100, -.3, 1e-9}; for (size_t i = 0; i < N; i++) mxsv(in[0], i, xv[i % 8]); in[1] = sc(n); VlHomogeneousKernelType kt = VlHomogeneousKernelChi2; VlHomogeneousKernelMapWindowType wt = VlHomogeneousKernelMapWindowRectangular; double ga = 1, pe = -1;
  if ((v = mc_choose(9))) { static const char *nm[] = {"kl1", "KCHI2", "kjs", "kinters"}; if (v > 4) in[k++] = str("Kernel"); in[k++] = str(nm[(v - 1) % 4]); kt = (v - 1) % 4 == 1 ? VlHomogeneousKernelChi2 : (v - 1) % 4 == 2 ? VlHomogeneousKernelJS : VlHomogeneousKernelIntersection; } if ((v = mc_choose(3))) { ga = v == 1 ? .5 : 2; in[k++] = str("Gamma"); in[k++] = sc(ga); } if ((v = mc_choose(3))) { pe = v == 1 ? 3 : 10; in[k++] = str("period"); in[k++] = sc(pe); } if ((v = mc_choose(3))) { wt = v == 1 ? VlHomogeneousKernelMapWindowUniform : wt; in[k++] = str("WINDOW"); in[k++] = str(v == 1 ? "uniform" : "RECTANGULAR"); }
  mc_note("vl_homkermap of %s, n = %d, gamma %g, period %g", show(in[0]), n, ga, pe); int r = twice("vl_homkermap", mex_vl_homkermap, 1, &out, k, in, 0); MC_CHECK("homkermap", r == 0, "vl_homkermap: error '%s'", mex_message); const mwSize *d = mxGetDimensions(out), *e = mxGetDimensions(in[0]); int ok = mxGetClassID(out) == c && mxGetNumberOfDimensions(out) == mxGetNumberOfDimensions(in[0]) && d[0] == e[0] * (2 * n + 1); for (mwSize i = 1; i < mxGetNumberOfDimensions(in[0]); i++) ok &= d[i] == e[i]; MC_CHECK("homkermap", ok, "vl_homkermap: size of the result %s", show(out));
  VlHomogeneousKernelMap *m = vl_homogeneouskernelmap_new(kt, ga, n, pe, wt); for (size_t i = 0; i < N; i++) { double y[16]; vl_homogeneouskernelmap_evaluate_d(m, y, 1, mxv(in[0], i)); for (int j = 0; j < 2 * n + 1; j++) MC_CHECK("homkermap", fabs(mxv(out, i * (2 * n + 1) + j) - y[j]) <= (c == mxSINGLE_CLASS ? 1e-5 : 1e-12) * (1 + fabs(y[j])) || isnan(y[j]), "vl_homkermap: value %d of element %d is %g rather than %g", j + 1, (int)i + 1, mxv(out, i * (2 * n + 1) + j), y[j]); } vl_homogeneouskernelmap_delete(m); mc_state(mx_hash(out));
}
static void s_slic(void) {
  mx_release(); int M = 1 + mc_choose(MC_BOUND(6, 9, 12)), N = 1 + mc_choose(MC_BOUND(6, 9, 12)), K = 1 + mc_choose(3), pat = mc_choose(3), rs = 1 + mc_choose(MC_BOUND(4, 5, 8)), k = 3, v, mr = -1; static const double RG[] = {0, .1, 10, 1e4}; double rg = RG[mc_choose(4)]; if (M > 6 && N > 6 && M != N) mc_skip(); mxArray *in[8], *out; in[0] = K == 1 ? mxn(mxSINGLE_CLASS, 2, M, N) : mxn(mxSINGLE_CLASS, 3, M, N, K); for (int i = 0; i < M * N * K; i++) { int y = i % M, x = i / M % N; mxsv(in[0], i, pat == 0 ? (x > N / 2) * 10 + (y > M / 2) * 3 : pat == 1 ? x + y * .5 : (x * 7919 + y * 104729 + 31) % 17); } in[1] = sc(rs); in[2] = sc(rg); if ((v = mc_dev(4))) { mr = v == 1 ? 0 : v == 2 ? 1 : 5; in[k++] = str("MinRegionSize"); in[k++] = sc(mr); } if (mc_dev(2)) in[k++] = str("Verbose");
  mc_note("vl_slic of %dx%dx%d, pattern %d, regions of %d, regularizer %g", M, N, K, pat, rs, rg); int r = twice("vl_slic", mex_vl_slic, 1, &out, k, in, 0); MC_CHECK("slic", r == 0 && mx_is(out, mxUINT32_CLASS, M, N), "vl_slic: error '%s' or size", mex_message); static vl_uint32 e[400]; vl_slic_segment(e, mxGetData(in[0]), M, N, K, rs, rg, mr < 0 ? rs * rs / 36 : mr); for (int i = 0; i < M * N; i++) MC_CHECK("slic", ((vl_uint32 *)mxGetData(out))[i] == e[i], "vl_slic: pixel %d has label %g rather than %u", i + 1, mxv(out, i), e[i]); mc_state(mx_hash(out));
}
static void s_quickshift(void) {
  mx_release(); int M = 1 + mc_choose(3), N = 1 + mc_choose(3), K = 1 + mc_choose(2), k = 2, v, med = 0; static const double SG[] = {.5, 1, 2}; double sg = SG[mc_choose(3)], tau = 3 * sg; mxArray *in[8], *out[3]; in[0] = K == 1 ? mxn(mxDOUBLE_CLASS, 2, M, N) : mxn(mxDOUBLE_CLASS, 3, M, N, K); int pat = mc_choose(MC_BOUND(8, 32, 64)); for (int i = 0; i < M * N * K; i++) mxsv(in[0], i, (pat * (i + 3) * (i + 5) >> 2) % 7 * .5); in[1] = sc(sg); if ((v = mc_choose(3))) { tau = v == 1 ? 1.5 : 5; in[k++] = sc(tau); } if ((v = mc_choose(4))) { if (v & 1) in[k++] = str("Medoid"), med = 1; if (v & 2) in[k++] = str("verbose"); } int nout = 3 - mc_choose(4);
  mc_note("vl_quickshift of %s, sigma %g, tau %g, %s, %d results", show(in[0]), sg, tau, med ? "medoid" : "", nout); int r = twice("vl_quickshift", mex_vl_quickshift, nout, out, k, in, 0); MC_CHECK("quickshift", r == 0, "vl_quickshift: error '%s'", mex_message); for (int i = 0; i < (nout ? nout : 1); i++) MC_CHECK("quickshift", mx_is(out[i], mxDOUBLE_CLASS, M, N), "vl_quickshift: class or size of result %d", i + 1);
  VlQS *q = vl_quickshift_new(mxGetData(in[0]), M, N, K); vl_quickshift_set_kernel_size(q, sg); vl_quickshift_set_max_dist(q, tau); vl_quickshift_set_medoid(q, med); vl_quickshift_process(q); for (int i = 0; i < M * N; i++) { MC_CHECK("quickshift", mxv(out[0], i) == vl_quickshift_get_parents(q)[i] + 1, "vl_quickshift: parent of %d is %g rather than %d", i + 1, mxv(out[0], i), vl_quickshift_get_parents(q)[i] + 1); if (nout > 1) { double e = vl_quickshift_get_dists(q)[i]; MC_CHECK("quickshift", mxv(out[1], i) == e || fabs(mxv(out[1], i) - e) < 1e-9, "distance %g rather than %g", mxv(out[1], i), e); } if (nout > 2) { double e = vl_quickshift_get_density(q)[i]; MC_CHECK("quickshift", fabs(mxv(out[2], i) - e) < 1e-9, "density %g rather than %g", mxv(out[2], i), e); } } vl_quickshift_delete(q); mc_state(mx_hash(out[0]));
}
static void s_rodr(void) {
  mx_release(); int inv = mc_choose(2), K = mc_choose(5), form = mc_choose(4), nout = mc_choose(4); static const double V[][3] = {{0, 0, 0}, {.3, -.2, .9}, {1, 0, 0}, {-2, .5, .1}, {0, 3, 0}, {1e-7, 0, 2e-7}}; double om[12], R[36]; for (int i = 0; i < K; i++) { memcpy(om + 3 * i, V[mc_choose(6)], 24); vl_rodrigues(R + 9 * i, 0, om + 3 * i); }
  mxArray *in[2], *out[3]; int per = inv ? 9 : 3; double *p = inv ? R : om; if (form == 0) in[0] = mx2(mxDOUBLE_CLASS, per, K, p); else if (form == 1) in[0] = mx2(mxDOUBLE_CLASS, 1, per * K, p); else if (form == 2) { in[0] = mx2(mxDOUBLE_CLASS, inv ? 3 : per * K + 1, inv ? 3 * K : 1, inv ? p : 0); } else { in[0] = mx2(mxSINGLE_CLASS, per, K, 0); for (int i = 0; i < per * K; i++) mxsv(in[0], i, p[i]); } if (form == 2 && inv && K == 0) mc_skip();
  mc_note("vl_%srodr of %s, %d results", inv ? "i" : "", show(in[0]), nout); int r = mex_call(inv ? mex_vl_irodr : mex_vl_rodr, nout, out, 1, in); if (form == 3 || K == 0 || (form == 2 && !inv) || nout > 2) { MC_CHECK("rodrigues", r == 1, "vl_%srodr accepts %s and %d results", inv ? "i" : "", show(in[0]), nout); return; } MC_CHECK("rodrigues", r == 0, "vl_%srodr: error '%s'", inv ? "i" : "", mex_message);
  MC_CHECK("rodrigues", mxGetClassID(out[0]) == mxDOUBLE_CLASS && (int)mxGetNumberOfElements(out[0]) == (inv ? 3 : 9) * K && mxGetDimensions(out[0])[0] == 3 && (inv ? (int)mxGetN(out[0]) == K : mxGetDimensions(out[0])[1] == 3), "vl_%srodr: size of the result %s", inv ? "i" : "", show(out[0])); if (nout > 1) MC_CHECK("rodrigues", (int)mxGetNumberOfElements(out[1]) == 27 * K && (int)mxGetDimensions(out[1])[0] == (inv ? 3 : 9) && (int)mxGetDimensions(out[1])[1] == (inv ? 9 : 3), "vl_%srodr: size of the derivative %s", inv ? "i" : "", show(out[1]));
  for (int i = 0; i < K; i++) { double a[9], d[27]; if (inv) vl_irodrigues(a, d, R + 9 * i); else vl_rodrigues(a, d, om + 3 * i); for (int j = 0; j < (inv ? 3 : 9); j++) MC_CHECK("rodrigues", fabs(mxv(out[0], i * (inv ? 3 : 9) + j) - a[j]) < 1e-9, "vl_%srodr: value %d of item %d is %g rather than %g", inv ? "i" : "", j + 1, i + 1, mxv(out[0], i * (inv ? 3 : 9) + j), a[j]); if (nout > 1) for (int j = 0; j < 27; j++) MC_CHECK("rodrigues", fabs(mxv(out[1], 27 * i + j) - d[j]) < 1e-9 * (1 + fabs(d[j])) || (isnan(d[j]) && isnan(mxv(out[1], 27 * i + j))), "vl_%srodr: derivative %d of item %d is %g rather than %g", inv ? "i" : "", j + 1, i + 1, mxv(out[1], 27 * i + j), d[j]); } mc_state(mx_hash(out[0]));
}
static void s_twister(void) {
  mx_release(); mxArray *in[6], *out; int n = 1, k = 0, dims[6] = {1, 1}, nd = 2; static const double DV[] = {0, 1, 2, 3}; vl_uint32 key[8]; int sd = mc_choose(7); static const double SV[] = {0, 1, 5489, 4294967295., 12.7};
  VlRand ref; vl_rand_init(&ref);
  if (sd == 6) vl_rand_init(vl_get_rand()); else if (sd < 5) { in[0] = str(mc_choose(2) ? "state" : "STATE"); in[1] = sc(SV[sd]); MC_CHECK("twister", mex_call(mex_vl_twister, 0, &out, 2, in) == 0, "vl_twister: error '%s'", mex_message); vl_rand_seed(&ref, SV[sd]); } else { int kn = 2 + mc_choose(3); double kv[8]; for (int i = 0; i < kn; i++) key[i] = kv[i] = i * 1000000007. + 3 - i * 7 > 4294967295. ? 77 : (vl_uint32)(i * 1000007u + 3); in[0] = str("state"); in[1] = mx2(mxDOUBLE_CLASS, mc_choose(2) ? 1 : kn, 1, 0); if (mxGetM(in[1]) == 1) in[1] = mx2(mxDOUBLE_CLASS, 1, kn, 0); for (int i = 0; i < kn; i++) mxsv(in[1], i, kv[i]); MC_CHECK("twister", mex_call(mex_vl_twister, 0, &out, 2, in) == 0, "vl_twister: error '%s'", mex_message); vl_rand_seed_by_array(&ref, key, kn); }
  int adv = mc_choose(4); static const int AD[] = {0, 1, 624, 700}; in[0] = sc(1); in[1] = sc(AD[adv]); if (adv) { MC_CHECK("twister", mex_call(mex_vl_twister, 1, &out, 2, in) == 0 && mx_is(out, mxDOUBLE_CLASS, 1, AD[adv]), "vl_twister(1, %d): error '%s' or size", AD[adv], mex_message); for (int i = 0; i < AD[adv]; i++) { double e = vl_rand_res53(&ref); MC_CHECK("twister", mxv(out, i) == e, "vl_twister: number %d is %.17g rather than %.17g", i + 1, mxv(out, i), e); } }
  /* the state can be saved and restored */
  mxArray *st; in[0] = str("state"); MC_CHECK("twister", mex_call(mex_vl_twister, 1, &st, 1, in) == 0 && mx_is(st, mxUINT32_CLASS, 625, 1), "vl_twister('state')"); int mode = mc_choose(4); k = 0; mc_note("vl_twister, seed %d, advanced by %d, call of form %d", sd, AD[adv], mode); double q[6]; int m;
  switch (mode) { case 0: break; case 1: dims[0] = dims[1] = DV[mc_choose(4)]; in[k++] = sc(dims[0]); break; case 2: m = 2 + mc_choose(3); for (int i = 0; i < m; i++) { dims[i] = DV[mc_choose(4)]; in[k++] = sc(dims[i]); } nd = m; break; default: m = 2 + mc_choose(2); for (int i = 0; i < m; i++) q[i] = dims[i] = DV[mc_choose(4)]; in[k++] = mx2(mxDOUBLE_CLASS, mc_choose(2) ? 1 : m, 1, 0); if (mxGetM(in[0]) == 1) in[0] = mx2(mxDOUBLE_CLASS, 1, m, 0); for (int i = 0; i < m; i++) mxsv(in[0], i, q[i]); nd = m; }
  for (int i = 0; i < nd; i++) n *= dims[i]; int r = mex_call(mex_vl_twister, mc_choose(2), &out, k, in); MC_CHECK("twister", r == 0 && (int)mxGetNumberOfElements(out) == n, "vl_twister: error '%s' or %d numbers rather than %d", mex_message, r ? -1 : (int)mxGetNumberOfElements(out), n); const mwSize *d = mxGetDimensions(out); for (int i = 0; i < nd; i++) MC_CHECK("twister", (i < (int)mxGetNumberOfDimensions(out) ? (int)d[i] : 1) == dims[i], "vl_twister: size of the result %s", show(out));
  for (int i = 0; i < n; i++) { double e = vl_rand_res53(&ref); MC_CHECK("twister", mxv(out, i) == e, "vl_twister: number %d is %.17g rather than %.17g", i + 1, mxv(out, i), e); } in[0] = str("state"); in[1] = st; mxArray *o2; MC_CHECK("twister", mex_call(mex_vl_twister, 0, &o2, 2, in) == 0, "vl_twister('state', STATE): error '%s'", mex_message); in[0] = mx2(mxDOUBLE_CLASS, 1, 2, 0); mxsv(in[0], 0, n); mxsv(in[0], 1, 1); MC_CHECK("twister", mex_call(mex_vl_twister, 1, &o2, 1, in) == 0, "vl_twister"); for (int i = 0; i < n; i++) MC_CHECK("twister", mxv(o2, i) == mxv(out, i), "vl_twister: restoring the state gives %.17g rather than %.17g", mxv(o2, i), mxv(out, i)); mc_state(mx_hash(st));
}
/* ---- unusual values ---- */
static void s_odd(void) {
  mx_release(); static const double V[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, -1, 0, .5, 40, 2147483648., 4294967297., 1e18}; enum { NV = 12 };
  static const struct { const char *fn, *opt; int lo; } O[] = {{"kmeans", "", 1}, {"kmeans", "MaxNumIterations"}, {"kmeans", "NumRepetitions", 1}, {"kmeans", "NumTrees", 1}, {"kmeans", "MaxNumComparisons"}, {"kmeans", "MinEnergyVariation"}, {"gmm", "", 1}, {"gmm", "MaxNumIterations"}, {"gmm", "NumRepetitions", 1}, {"gmm", "CovarianceBound", -9}, {"kdtreebuild", "NumTrees", 1}, {"kdtreequery", "NumNeighbors", 1}, {"kdtreequery", "MaxComparisons", -9}, {"svm", "", 0}, {"svm", "Epsilon"}, {"svm", "MaxNumIterations"}, {"svm", "DiagnosticFrequency", 1}, {"svm", "BiasMultiplier"}, {"svm", "StartingIteration"}, {"svm", "BiasLearningRate"}, {"svm", "Bias", -9}, {"hom", "", 0}, {"hom", "gamma", 0}, {"hom", "period", 0}, {"slic", "", 1}, {"slic", "r", 0}, {"slic", "MinRegionSize", 0}, {"qs", "s", -9}, {"qs", "t", -9}, {"twister", "1", 0}, {"twister", "2", 0}, {"twister", "v", 0}, {"twister", "seed", -9}, {"twister", "key", -9}, {"svmhom", "order", 0}, {"svmhom", "gamma", 0}, {"svmhom", "period", 0}, {"data", "kmeans", -9}, {"data", "gmm", -9}, {"data", "fisher", -9}, {"data", "vlad", -9}, {"data", "kdtree", -9}, {"data", "svm", -9}, {"data", "hom", -9}, {"data", "slic", -9}, {"data", "qs", -9}, {"data", "rodr", -9}, {"data", "irodr", -9}};
  int o = mc_choose(sizeof O / sizeof *O), vi = mc_choose(NV), k = 0, nout = 1, data = 0, al = 0; double v = V[vi]; const char *fn = O[o].fn, *opt = O[o].opt; mxArray *in[12], *out[5], *X = somedata(mxDOUBLE_CLASS, 2, 5, 1); mexfn f = 0; if (!strcmp(fn, "data")) { data = 1; fn = opt; opt = 0; }
#define IS(s) !strcmp(fn, s)
#define OPT(s) (opt && !strcmp(opt, s))
  if (data && (IS("kmeans") || IS("gmm") || IS("fisher") || IS("vlad") || IS("kdtree") || IS("svm"))) mxsv(X, mc_choose(2) * 5, v); if (IS("kmeans")) { f = mex_vl_kmeans; nout = 3; al = mc_choose(3); in[k++] = X; in[k++] = sc(OPT("") ? v : 2); in[k++] = str("algorithm"); in[k++] = str(al == 0 ? "lloyd" : al == 1 ? "elkan" : "ann"); if (OPT("MinEnergyVariation") || data) { in[k++] = str("maxnumiterations"); in[k++] = sc(20); } } if (IS("gmm")) { f = mex_vl_gmm; nout = 5; in[k++] = X; in[k++] = sc(OPT("") ? v : 2); if (!opt || *opt != 'M') { in[k++] = str("maxnumiterations"); in[k++] = sc(20); } }
  if (IS("fisher")) { f = mex_vl_fisher; double p[2] = {.5, .5}; in[k++] = X; in[k++] = somedata(mxDOUBLE_CLASS, 2, 2, 3); in[k++] = mx2(mxDOUBLE_CLASS, 2, 2, 0); for (int i = 0; i < 4; i++) mxsv(in[2], i, 1); in[k++] = mx2(mxDOUBLE_CLASS, 2, 1, p); int e = mc_choose(4); if (e) mxsv(in[e], 1, v); if (mc_choose(2)) in[k++] = str("fast"); } if (IS("vlad")) { f = mex_vl_vlad; in[k++] = X; in[k++] = somedata(mxDOUBLE_CLASS, 2, 2, 3); in[k++] = mx2(mxDOUBLE_CLASS, 2, 5, 0); int e = mc_choose(3); if (e) mxsv(in[e], 1, v); }
  if (IS("kdtreebuild")) { f = mex_vl_kdtreebuild; in[k++] = X; } if (IS("kdtreequery") || IS("kdtree")) { mxArray *T; in[0] = X; seed(1); if (mex_call(mex_vl_kdtreebuild, 1, &T, 1, in)) return; f = mex_vl_kdtreequery; nout = 2; in[k++] = T; in[k++] = X; in[k++] = somedata(mxDOUBLE_CLASS, 2, 2, 4); if (data && mc_choose(2)) mxsv(in[2], 0, v); }
  if (IS("svm") || IS("svmhom")) { f = mex_vl_svmtrain; nout = 4; static const double y[] = {1, -1, 1, 1, -1}; in[k++] = X; if (IS("svmhom")) { static const char *nm[] = {"data", "homkermap"}; mxArray *h = mxCreateStructMatrix(1, 1, 1, &opt); mxSetField(h, 0, opt, sc(v)); in[0] = mxCreateStructMatrix(1, 1, 2, nm); mxSetField(in[0], 0, "data", X); mxSetField(in[0], 0, "homkermap", h); } in[k++] = mx2(mxDOUBLE_CLASS, 5, 1, y); if (data && mc_choose(2)) mxsv(in[1], 2, v); in[k++] = sc(OPT("") ? v : .1); in[k++] = str("solver"); in[k++] = str(mc_choose(2) || OPT("Bias") ? "sgd" : "sdca"); if (!OPT("MaxNumIterations")) { in[k++] = str("maxnumiterations"); in[k++] = sc(20); } }
  if (IS("hom")) { f = mex_vl_homkermap; in[k++] = X; if (data) mxsv(X, 3, v); in[k++] = sc(OPT("") ? v : 1); if (data && mc_choose(2)) { in[k++] = str("kl1"); } } if (IS("slic")) { f = mex_vl_slic; in[k++] = somedata(mxSINGLE_CLASS, 6, 7, 2); if (data) mxsv(in[0], mc_choose(2) * 17, v); in[k++] = sc(OPT("") ? v : 2); in[k++] = sc(OPT("r") ? v : .1); } if (IS("qs")) { f = mex_vl_quickshift; nout = 3; in[k++] = X; if (data) mxsv(X, 3, v); in[k++] = sc(OPT("s") ? v : 1); if (mc_choose(2) || OPT("t")) in[k++] = sc(OPT("t") ? v : 3); if (mc_choose(2)) in[k++] = str("medoid"); }
  if (IS("twister")) { f = mex_vl_twister; if (OPT("1")) in[k++] = sc(v); if (OPT("2")) { in[k++] = sc(mc_choose(2)); in[k++] = sc(v); } if (OPT("v")) { in[k++] = mx2(mxDOUBLE_CLASS, 1, 2, 0); mxsv(in[0], 0, mc_choose(2)); mxsv(in[0], 1, v); } if (OPT("seed")) { in[k++] = str("state"); in[k++] = sc(v); nout = 0; } if (OPT("key")) { in[k++] = str("state"); in[k++] = mx2(mxDOUBLE_CLASS, 1, 3, 0); mxsv(in[1], 1, v); nout = 0; } } if (IS("rodr") || IS("irodr")) { f = IS("rodr") ? mex_vl_rodr : mex_vl_irodr; nout = 2; in[k++] = mx2(mxDOUBLE_CLASS, IS("rodr") ? 3 : 9, 2, 0); mxsv(in[0], 4, v); mxsv(in[0], 0, 1); }
  if (opt && *opt && !IS("qs") && !IS("twister") && !IS("svmhom") && !OPT("r")) { in[k++] = str(opt); in[k++] = sc(v); }
  mc_note("vl_%s with %s equal to %g", fn, opt ? opt : "a datum", v); if (v > 1e5 && !isinf(v) && v < 1e17 && (OPT("NumTrees") || OPT("NumRepetitions") || (OPT("MaxNumIterations") && (IS("gmm") || IS("svm") || IS("kmeans"))))) mc_skip(); /* a valid request for a very long computation */
  seed(5); int r = mex_call(f, nout, out, k, in); if (r == 0) for (int i = 0; i < (nout ? nout : 0); i++) mc_state(out[i] && !mxIsStruct(out[i]) ? mx_hash(out[i]) : 0);
  if (opt && O[o].lo > -9 && !(v >= O[o].lo)) MC_CHECK("odd", r == 1, "vl_%s accepts %s = %g", fn, *opt ? opt : "its main parameter", v); if (r == 0 && (IS("kdtreequery") || IS("kdtree"))) for (size_t i = 0; i < mxGetNumberOfElements(out[0]); i++) MC_CHECK("odd", mxv(out[0], i) <= 5, "vl_kdtreequery answers with point %g of 5", mxv(out[0], i)); if (r == 0 && IS("kmeans")) for (int i = 0; i < 5; i++) MC_CHECK("odd", mxv(out[1], i) >= 1 && mxv(out[1], i) <= 5, "vl_kmeans gives a point to center %g", mxv(out[1], i));
}
static void s_args(void) {
  mx_release(); mxArray *in[12] = {0}, *X = somedata(mxDOUBLE_CLASS, 2, 5, 1), *T; double y[6] = {1, -1, 1, 1, -1}, p[4] = {.5, .5}; switch (mc_choose(17)) {
    case 0: in[0] = X; in[1] = sc(2); in[2] = str("NumRepetitions"); in[3] = sc(2); try_all("vl_kmeans", mex_vl_kmeans, 2, -1, 3, in, 4, 0); break; case 1: in[0] = X; in[1] = sc(2); in[2] = str("maxnumiterations"); in[3] = sc(2); try_all("vl_gmm", mex_vl_gmm, 2, -1, 5, in, 4, 0); break;
    case 2: in[0] = X; in[1] = somedata(mxDOUBLE_CLASS, 2, 2, 3); in[2] = mx2(mxDOUBLE_CLASS, 2, 2, y); mxsv(in[2], 1, 1); mxsv(in[2], 3, 2); in[3] = mx2(mxDOUBLE_CLASS, 2, 1, p); in[4] = str("fast"); try_all("vl_fisher", mex_vl_fisher, 4, -1, 1, in, 5, 0); break; case 3: in[0] = X; in[1] = somedata(mxDOUBLE_CLASS, 2, 2, 3); in[2] = mx2(mxDOUBLE_CLASS, 2, 5, 0); in[3] = str("verbose"); try_all("vl_vlad", mex_vl_vlad, 3, -1, 1, in, 4, 0); break;
    case 4: in[0] = X; in[1] = str("numtrees"); in[2] = sc(2); try_all("vl_kdtreebuild", mex_vl_kdtreebuild, 1, -1, 1, in, 3, 0); break; case 5: in[0] = X; seed(1); if (mex_call(mex_vl_kdtreebuild, 1, &T, 1, in)) return; in[0] = T; in[1] = X; in[2] = somedata(mxDOUBLE_CLASS, 2, 2, 4); in[3] = str("numneighbors"); in[4] = sc(2); try_all("vl_kdtreequery", mex_vl_kdtreequery, 3, -1, 2, in, 5, 1); break;
    case 6: in[0] = X; in[1] = mx2(mxDOUBLE_CLASS, 5, 1, y); in[2] = sc(.1); try_all("vl_svmtrain", mex_vl_svmtrain, 3, -1, 4, in, 3, 1); break; case 7: in[0] = X; in[1] = mx2(mxDOUBLE_CLASS, 5, 1, y); in[2] = sc(.1); in[3] = str("epsilon"); in[4] = sc(.1); if (mc_thorough || !mc_asan) try_all("vl_svmtrain", mex_vl_svmtrain, 3, -1, 4, in, 5, 1); break; case 8: in[0] = X; in[1] = sc(2); in[2] = str("gamma"); in[3] = sc(1); try_all("vl_homkermap", mex_vl_homkermap, 2, -1, 1, in, 4, 0); break;
    case 9: in[0] = somedata(mxSINGLE_CLASS, 5, 4, 1); in[1] = sc(2); in[2] = sc(1); in[3] = str("minregionsize"); in[4] = sc(1); try_all("vl_slic", mex_vl_slic, 3, -1, 1, in, 5, 0); break; case 10: in[0] = X; in[1] = sc(1); in[2] = sc(3); in[3] = str("medoid"); try_all("vl_quickshift", mex_vl_quickshift, 2, -1, 3, in, 4, 0); break;
    case 11: in[0] = mx2(mxDOUBLE_CLASS, 3, 2, y); try_all("vl_rodr", mex_vl_rodr, 1, 1, 2, in, 1, 0); break; case 12: in[0] = mx2(mxDOUBLE_CLASS, 3, 3, 0); for (int i = 0; i < 3; i++) mxsv(in[0], 4 * i, 1); try_all("vl_irodr", mex_vl_irodr, 1, 1, 2, in, 1, 0); break; case 13: in[0] = sc(2); in[1] = sc(2); try_all("vl_twister", mex_vl_twister, 0, -1, 1, in, 2, 0); break; case 14: in[0] = str("state"); in[1] = sc(2); try_all("vl_twister", mex_vl_twister, 0, -1, 1, in, 2, 0); break;
    case 15: { int nd = 20 + mc_choose(20); mwSize d[40]; for (int i = 0; i < nd; i++) d[i] = 1 + (i == nd - 1); in[0] = mxCreateNumericArray(nd, d, mxDOUBLE_CLASS, mxREAL); in[1] = sc(1); mc_note("%d dimensions", nd); mxArray *o; int r = mex_call(mex_vl_homkermap, 1, &o, 2, in); if (!r) MC_CHECK("arguments", mxGetNumberOfElements(o) == 6, "vl_homkermap of an array of %d dimensions", nd); double q[40]; for (int i = 0; i < nd; i++) q[i] = 1 + (i == 0); in[0] = mx2(mxDOUBLE_CLASS, 1, nd, q); r = mex_call(mex_vl_twister, 1, &o, 1, in); if (!r) MC_CHECK("arguments", mxGetNumberOfElements(o) == 2, "vl_twister with %d dimensions", nd); } break;
    default: { /* fields of the dataset of vl_svmtrain, initial values of vl_gmm, model and weights */ static const char *nm[] = {"data", "homkermap"}, *hn[] = {"order", "kernel", "window", "gamma", "period"}; int w = mc_choose(14), z = mc_choose(NZOO), z2 = mc_choose(mc_asan ? 2 : NZOO); mxArray *o[5], *h = mxCreateStructMatrix(1, 1, 5, hn); in[1] = mx2(mxDOUBLE_CLASS, 5, 1, y); in[2] = sc(.1); in[3] = str("maxnumiterations"); in[4] = sc(9); mc_note("field %d of kind %d", w, z);
      if (w < 7) { in[0] = mxCreateStructMatrix(1, 1, 2, nm); mxSetField(in[0], 0, "data", w == 5 ? zoo(z) : X); mxSetField(in[0], 0, "homkermap", w == 6 ? zoo(z) : h); if (w < 5) { mxSetField(h, 0, hn[w], zoo(z)); mxSetField(h, 0, hn[(w + 1) % 5], zoo(z2)); } mex_call(mex_vl_svmtrain, 4, o, 5, in); } else if (w == 7) { in[0] = mxCreateStructMatrix(z % 3, 2, 2, nm); mex_call(mex_vl_svmtrain, 4, o, 5, in); }
      else if (w < 11) { in[0] = X; static const char *on[] = {"model", "weights", "diagnosticfunction"}; in[3] = str("solver"); in[4] = str("sgd"); in[5] = str("maxnumiterations"); in[6] = sc(5); in[7] = str(on[w - 8]); in[8] = zoo(z); mex_call(mex_vl_svmtrain, 4, o, 9, in); } else { in[0] = X; in[1] = sc(2); static const char *on[] = {"InitMeans", "InitCovariances", "InitPriors"}; for (int i = 0; i < 3; i++) { in[2 + 2 * i] = str(on[i]); in[3 + 2 * i] = i == w - 11 ? zoo(z) : i == (w - 10) % 3 && z2 ? zoo(z2) : i < 2 ? mx2(mxDOUBLE_CLASS, 2, 2, p) : mx2(mxDOUBLE_CLASS, 2, 1, p); } mex_call(mex_vl_gmm, 5, o, 8, in); in[2] = str("initialization"); in[3] = str("custom"); MC_CHECK("arguments", mex_call(mex_vl_gmm, 5, o, 4, in) == 1, "vl_gmm accepts the custom initialisation without initial values"); } } break;
  }
}
mc_suite mc_suites[] = {
  {"kmeans", s_kmeans, "every small set of points, algorithms, distances, combinations of options", 0, 1, 2}, {"gmm", s_gmm, "up to 8 points and 3 modes, initialisations, combinations of options and results", 0, 1, 2}, {"fisher", s_fisher, "up to 5 points, 4 modes, every set of flags", 0, 1, 1}, {"vlad", s_vlad, "up to 5 points, 4 centers, every set of flags"},
  {"kdtree", s_kdtree, "every small set of points, distances, methods, forests of up to 3 trees, neighbours", 0, 1, 2}, {"forest", s_forest, "forests with one or two numbers or a field altered"}, {"svm", s_svm, "up to 6 points, every labelling, solvers, losses, kernel maps, combinations of options", 0, 1, 2},
  {"homkermap", s_homkermap, "7 shapes, every combination of options"}, {"slic", s_slic, "images of up to 12x12x3", 0, 1, 2}, {"quickshift", s_quickshift, "images of up to 3x3x2, every combination of options and results"}, {"rodrigues", s_rodr, "up to 4 rotations in 4 arrangements, 0 to 3 results"}, {"twister", s_twister, "seeds, keys, states, sizes of up to 4 dimensions"},
  {"odd", s_odd, "every numerical option and datum with non-finite, huge and tiny values"}, {"args", s_args, "arguments of 30 kinds"}, {0}};
