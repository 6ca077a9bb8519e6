/* C38: the OpenMP build: every parallel entry point under every schedule of its team (2 to 4 threads, preemption bound), against the same call with a single thread; races by happens-before. */
#include "mc.h"
#include "conc.h"
#include <vl/generic.h>
#include <vl/kmeans.h>
#include <vl/gmm.h>
#include <vl/fisher.h>
#include <vl/vlad.h>
#include <vl/kdtree.h>
#include <vl/random.h>
extern void omp_set_num_threads(int);
static int D, N, K, dbl, team; static vl_type ty;
static float xf[600], cf[200]; static double xd[600], cd[200];
static void *X(void) { return dbl ? (void*)xd : (void*)xf; } static void *C(void) { return dbl ? (void*)cd : (void*)cf; }
static void data(int variant) { int i; unsigned s = 17u+variant*7919u; for (i = 0; i < N*D; ++i) { again: s = s*1664525u+1013904223u; xd[i] = variant%3 == 2 ? (int)(s>>29) : (s>>16)%1000/100.0; if (variant%3 == 1) xd[i] += 10*(i/D%K); if (xd[i] < 0) goto again; xf[i] = xd[i] = (float)xd[i]; } for (i = 0; i < K*D; ++i) { cd[i] = xd[(i/D*2%N)*D+i%D] + .25*(i%3+1); cf[i] = cd[i]; } }
/* results of one call, as doubles */
typedef struct { int n; double v[2000]; double tol; } res; static res R0, R1;
static void add(res *r, double v) { if (r->n < 2000) r->v[r->n++] = v; } static void addv(res *r, void const *p, int n) { int i; for (i = 0; i < n; ++i) add(r, dbl ? ((double const*)p)[i] : ((float const*)p)[i]); } static void addu(res *r, vl_uint32 const *p, int n) { int i; for (i = 0; i < n; ++i) add(r, p[i]); }
static void twice(void (*fn)(res*), double tol, char const *what) { int i, t0 = conc_omp_teams; long live = mc_live; R0.n = R1.n = 0; conc_races = 0; vl_set_num_threads(1); fn(&R0); conc_omp_max_team = 0; vl_set_num_threads(team); MC_CHECK("threads", (int)vl_get_max_threads() == team, "%d threads were asked for, the library says %d", team, (int)vl_get_max_threads()); conc_omp_threads = 4; conc_races = 1; conc_at_alloc = 1; fn(&R1); conc_races = 0; mc_op(); MC_CHECK("team", conc_omp_max_team <= team, "a team of %d threads was started although the library may use %d", conc_omp_max_team, team); MC_CHECK("teams", conc_omp_teams > t0, "no parallel region was entered (%s)", what); MC_CHECK("count", R0.n == R1.n, "%d results instead of %d", R1.n, R0.n); for (i = 0; i < R0.n; ++i) MC_CHECK("result", mc_close(R0.v[i], R1.v[i], tol, tol), "%s with %d threads: result %d of %d is %.9g, sequentially %.9g", what, team, i, R0.n, R1.v[i], R0.v[i]); MC_CHECK("leak", mc_live == live, "%s: %ld blocks leaked", what, mc_live-live); mc_state(mc_hash(team, R1.v, R1.n*8)); }
static void setup(int few, int tmax) { int v; team = 2 + mc_choose(tmax-1); dbl = mc_choose(2); ty = dbl ? VL_TYPE_DOUBLE : VL_TYPE_FLOAT; v = mc_choose(few ? MC_TIER(8,16) : MC_TIER(4,6)); D = 1 + v%2*2; K = 2 + v/2%2; N = v == 3 ? 7 : v < 4 ? 3 + v : 4 + 2*v; data(v); vl_get_rand(); conc_few = few; conc_omp_threads = 4; conc_at_global = 0; mc_note("threads %d, %s, dimension %d, %d clusters, %d points;", team, dbl ? "double" : "float", D, K, N); }
/* ---- k-means */
static VlKMeans *km; static int mode, dist; static vl_uint32 as[64]; static double dd[64];
static VlVectorComparisonType dt(void) { return dist ? VlDistanceL1 : VlDistanceL2; }
static VlKMeans *newkm(void) { VlKMeans *k = vl_kmeans_new(ty, dt()); vl_kmeans_set_centers(k, C(), D, K); vl_kmeans_set_num_trees(k, 2); vl_kmeans_set_max_num_comparisons(k, 3); vl_kmeans_set_max_num_iterations(k, 3); vl_rand_seed(vl_get_rand(), 9); return k; }
static void quantize(res *r) { int k; km = newkm(); for (k = 0; k < N; ++k) { as[k] = mode == 3 ? k%K : 77; dd[k] = -1; } if (mode == 0) vl_kmeans_quantize(km, as, dd, X(), N); else if (mode == 1) vl_kmeans_quantize(km, as, NULL, X(), N); else vl_kmeans_quantize_ann(km, as, dd, X(), N, mode == 3); addu(r, as, N); if (mode != 1) addv(r, dd, N); vl_kmeans_delete(km); }
static void kquant(void) { setup(0, 3); mode = mc_choose(4); dist = mc_choose(2); twice(quantize, 0, mode < 2 ? "vl_kmeans_quantize" : "vl_kmeans_quantize_ANN"); }
static void cluster(res *r) { double e; km = newkm(); vl_kmeans_set_algorithm(km, mode == 0 ? VlKMeansElkan : mode == 1 ? VlKMeansLloyd : VlKMeansANN); e = vl_kmeans_refine_centers(km, X(), N); add(r, e); addv(r, vl_kmeans_get_centers(km), D*K); vl_kmeans_delete(km); }
static void kcluster(void) { setup(1, 3); mode = mc_choose(3); dist = mc_choose(2); twice(cluster, 1e-5, mode == 0 ? "Elkan" : mode == 1 ? "Lloyd" : "ANN k-means"); }
/* ---- mixtures */
static float pf[8], vf[100], qf[400]; static double pd[8], vd[100], qd[400];
static void params(void) { int i; for (i = 0; i < K; ++i) pf[i] = pd[i] = (i+1)*2.0/K/(K+1); for (i = 0; i < K*D; ++i) vf[i] = vd[i] = .5 + i%3; }
static void posterior(res *r) { if (dbl) { add(r, vl_get_gmm_data_posteriors_d(qd, K, N, pd, cd, D, vd, xd)); addv(r, qd, K*N); } else { add(r, vl_get_gmm_data_posteriors_f(qf, K, N, pf, cf, D, vf, xf)); addv(r, qf, K*N); } }
static void gpost(void) { setup(0, 3); params(); twice(posterior, 1e-6, "posteriors"); }
static void em(res *r) { VlGMM *g = vl_gmm_new(ty, D, K); vl_gmm_set_means(g, C()); vl_gmm_set_covariances(g, dbl ? (void*)vd : (void*)vf); vl_gmm_set_priors(g, dbl ? (void*)pd : (void*)pf); vl_gmm_set_max_num_iterations(g, 1 + mode); add(r, vl_gmm_em(g, X(), N)); addv(r, vl_gmm_get_means(g), D*K); addv(r, vl_gmm_get_covariances(g), D*K); addv(r, vl_gmm_get_priors(g), K); addv(r, vl_gmm_get_posteriors(g), K*N); vl_gmm_delete(g); }
static void gem(void) { setup(1, 3); params(); mode = mc_choose(2); twice(em, 2e-4, "EM"); }
static void fisher(res *r) { double e[100]; static int const fl[] = {0, VL_FISHER_FLAG_IMPROVED, VL_FISHER_FLAG_FAST}; memset(e, 0x55, sizeof(e)); add(r, vl_fisher_encode(e, ty, C(), D, K, dbl ? (void*)vd : (void*)vf, dbl ? (void*)pd : (void*)pf, X(), N, fl[mode])); addv(r, e, 2*D*K); }
static void gfisher(void) { setup(1, 3); params(); mode = mc_choose(3); twice(fisher, 1e-6, "Fisher encoding"); }
static void vlad(res *r) { double e[100]; static int const fl[] = {0, VL_VLAD_FLAG_UNNORMALIZED, VL_VLAD_FLAG_NORMALIZE_COMPONENTS|VL_VLAD_FLAG_SQUARE_ROOT, VL_VLAD_FLAG_NORMALIZE_MASS}; int i; float af[64]; double ad[64]; for (i = 0; i < N*K; ++i) af[i] = ad[i] = (i*3%4)/2.0; memset(e, 0x55, sizeof(e)); vl_vlad_encode(e, ty, C(), D, K, X(), N, dbl ? (void*)ad : (void*)af, fl[mode]); addv(r, e, D*K); }
static void gvlad(void) { setup(0, 3); mode = mc_choose(4); twice(vlad, 1e-6, "VLAD encoding"); }
/* ---- forests */
static void query(res *r) { VlKDForest *f = vl_kdforest_new(ty, D, 1+mode%2, VlDistanceL2); vl_uint32 ix[64]; double ds[64]; int nn = 1+mode/2%2; long n; vl_rand_seed(vl_get_rand(), 9); if (mode >= 4) vl_kdforest_set_max_num_comparisons(f, 2); vl_kdforest_build(f, N, X()); memset(ix, 0x33, sizeof(ix)); memset(ds, 0x33, sizeof(ds)); n = vl_kdforest_query_with_array(f, ix, nn, K+2, mode == 1 ? NULL : ds, C()); add(r, n); addu(r, ix, nn*(K+2)); if (mode != 1) addv(r, ds, nn*(K+2)); add(r, vl_kdforest_get_num_trees(f)); vl_kdforest_delete(f); }
static void forest(void) { setup(0, 3); mode = mc_choose(8); { int i; for (i = 0; i < D*(K+2); ++i) cf[i] = cd[i] = (float)(i*37%11); } twice(query, 0, "vl_kdforest_query_with_array"); }
/* ---- the number of threads */
static void numbers(void) { int a = mc_choose(6), b = mc_choose(6), m = mc_choose(4); conc_omp_threads = m+1; vl_set_num_threads(a); MC_CHECK("threads", (int)vl_get_max_threads() == (a ? a : m+1), "%d threads asked for: %d", a, (int)vl_get_max_threads()); vl_set_num_threads(b); mc_ops(2); MC_CHECK("threads", (int)vl_get_max_threads() == (b ? b : m+1), "%d threads asked for: %d", b, (int)vl_get_max_threads()); MC_CHECK("limit", vl_get_thread_limit() == 9, "the runtime allows 9 threads, the library says %d", (int)vl_get_thread_limit()); mc_state(a*100+b*10+m); }
mc_suite mc_suites[] = {
 {"numbers", numbers, "all pairs of settings of the number of threads x runtime maxima"},
 {"quantize", kquant, "exact and approximate quantisation, 2 and 3 threads, all schedules within the preemption bound", 0, 2, 3},
 {"cluster", kcluster, "Elkan, Lloyd and ANN clustering, 3 iterations, 2 and 3 threads, schedules within the deviation bound", 0, 2, 3},
 {"posteriors", gpost, "Gaussian mixture posteriors", 0, 2, 3},
 {"em", gem, "EM, 1 and 2 iterations", 0, 2, 3},
 {"fisher", gfisher, "Fisher encoding", 0, 2, 3},
 {"vlad", gvlad, "VLAD encoding", 0, 2, 3},
 {"forest", forest, "array queries of forests: trees, neighbours, limits, with and without distances", 0, 2, 3},
 {0}};
