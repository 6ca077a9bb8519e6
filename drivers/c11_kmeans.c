/* C11: k-means against a reference quantiser and a reference Lloyd iteration. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/kmeans.h>
#include <vl/random.h>
#define MAXN 8
#define MAXK 5
static const double V1[] = {0, 1, 3, 7, 12.5, 13}, V2[][2] = {{0,0},{4,1},{1,5},{6,6.5},{4,1.5},{-3,2}};
static void pointat(int dim, int i, double *o) { if (dim == 1) o[0] = V1[i]; else { o[0] = V2[i][0]; o[1] = V2[i][1]; if (dim > 2) o[2] = i % 3; } }
static double D(int l1, int dim, double const *a, double const *b) { double s = 0; int i; for (i = 0; i < dim; ++i) s += l1 ? fabs(a[i]-b[i]) : (a[i]-b[i])*(a[i]-b[i]); return s; }
static void *enc(int f, double const *v, int n) { void *p = mc_galloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = v[i]; else ((double*)p)[i] = v[i]; return p; }
static void dec(int f, void const *p, int n, double *v) { int i; for (i = 0; i < n; ++i) v[i] = f ? ((float const*)p)[i] : ((double const*)p)[i]; }
static double tolof(int f) { return f ? 2e-5 : 1e-10; }
static char const *algn[] = {"Lloyd", "Elkan", "ANN"};
static VlKMeansAlgorithm const alg[] = {VlKMeansLloyd, VlKMeansElkan, VlKMeansANN};
/* true energy of centers */
static double energy(int l1, int dim, double const *X, int N, double const *C, int K) { double e = 0; int i, k; for (i = 0; i < N; ++i) { double b = INFINITY; for (k = 0; k < K; ++k) { double d = D(l1, dim, X+i*dim, C+k*dim); if (d < b) b = d; } e += b; } return e; }
static int dbl(const void *a, const void *b) { double x = *(double*)a, y = *(double*)b; return x < y ? -1 : x > y; }
/* one reference Lloyd update; 0 if some choice is ambiguous (tie, empty cluster, even median); *moved: did the assignment change */
static int ref_step(int l1, int dim, double const *X, int N, double *C, int K, int *asg) {
  int i, k, d, m; for (i = 0; i < N; ++i) { double b = INFINITY, b2 = INFINITY; int bk = 0; for (k = 0; k < K; ++k) { double t = D(l1, dim, X+i*dim, C+k*dim); if (t < b) { b2 = b; b = t; bk = k; } else if (t < b2) b2 = t; } if (b2 - b < 1e-3) return 0; asg[i] = bk; }
  for (k = 0; k < K; ++k) { m = 0; for (i = 0; i < N; ++i) m += asg[i] == k; if (!m) return 0;
    for (d = 0; d < dim; ++d) { double v[MAXN]; int n = 0; for (i = 0; i < N; ++i) if (asg[i] == k) v[n++] = X[i*dim+d];
      if (!l1) { double s = 0; for (i = 0; i < n; ++i) s += v[i]; C[k*dim+d] = s / n; }
      else { qsort(v, n, 8, dbl); if (n % 2 == 0 && v[n/2] != v[n/2-1]) return 0; C[k*dim+d] = v[n/2]; } } }
  return 1;
}
static void check_quantize(char const *who, VlKMeans *km, int f, int l1, int dim, double const *X, int N, void *x) {
  double C[MAXK*3]; int K = vl_kmeans_get_num_centers(km), i, k; vl_uint32 *a = mc_galloc(4*N), *b = mc_galloc(4*N); void *dd = mc_galloc((f?4:8)*N); double dist[MAXN];
  dec(f, vl_kmeans_get_centers(km), K*dim, C); memset(a, 0xff, 4*N); memset(b, 0xff, 4*N);
  vl_kmeans_quantize(km, a, dd, x, N); vl_kmeans_quantize(km, b, NULL, x, N); mc_ops(2); mc_gcheck(a); mc_gcheck(dd); mc_gcheck(b); dec(f, dd, N, dist);
  for (i = 0; i < N; ++i) { double m = INFINITY; for (k = 0; k < K; ++k) { double d = D(l1, dim, X+i*dim, C+k*dim); if (d < m) m = d; }
    MC_CHECK("nearest", a[i] < (unsigned)K && mc_close(D(l1, dim, X+i*dim, C+a[i]*dim), m, tolof(f)*100, tolof(f)), "%s: point %d is assigned to center %u at distance %g, the nearest is at %g", who, i, a[i], a[i] < (unsigned)K ? D(l1,dim,X+i*dim,C+a[i]*dim) : -1, m);
    MC_CHECK("distance", mc_close(dist[i], m, tolof(f)*100, tolof(f)), "%s: distance of point %d reported %g, true %g", who, i, dist[i], m);
    MC_CHECK("nodist", a[i] == b[i], "%s: assignments differ without distance output", who); }
  mc_state(mc_hash(mc_hash(N, a, 4*N), dist, 8*N)); mc_case(N); mc_gfree(a); mc_gfree(b); mc_gfree(dd);
}
static VlKMeans *mk(int f, int l1, int al, int iters) { VlKMeans *km = vl_kmeans_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, l1 ? VlDistanceL1 : VlDistanceL2); vl_kmeans_set_algorithm(km, alg[al]); vl_kmeans_set_max_num_iterations(km, iters); vl_kmeans_set_min_energy_variation(km, 0); vl_kmeans_set_max_num_comparisons(km, 0); vl_rand_seed(vl_get_rand(), 5); return km; }
/* training from every start, all algorithms against the reference Lloyd iteration */
static void train(void) {
  int dim = 1 + mc_choose(2), P = MC_BOUND(4, 5, 6), N = 1 + mc_choose(MC_BOUND(4, 6, 7)), K = 1 + mc_choose(MC_BOUND(3, 3, 4)), i, k, f, l1, al, ids[MAXN], ks[MAXK], it, its;
  double X[MAXN*3], C0[MAXK*3]; vl_get_rand();
  ids[0] = mc_choose(P); for (i = 1; i < N; ++i) ids[i] = ids[i-1] + mc_choose(P - ids[i-1]);
  ks[0] = mc_choose(P); for (k = 1; k < K; ++k) ks[k] = ks[k-1] + mc_choose(P - ks[k-1]);
  /* a fixed permutation of the points so that the order is not the sorted one */
  for (i = 0; i < N; ++i) pointat(dim, ids[(i*3 + 1) % N == 0 && N % 3 == 0 ? i : N % 3 ? (i*3 + 1) % N : i], X + i*dim);
  for (k = 0; k < K; ++k) { pointat(dim, ks[k], C0 + k*dim); C0[k*dim] += 0.21 * (k+1); }
  for (f = 0; f < 2; ++f) for (l1 = 0; l1 < 2; ++l1) {
    void *x = enc(f, X, N*dim), *c0 = enc(f, C0, K*dim); double C0t[MAXK*3]; dec(f, c0, K*dim, C0t);
    double e0 = energy(l1, dim, X, N, C0t, K);
    for (al = 0; al < 3; ++al) { double prev = e0;
      static int const iters[] = {0, 1, 2, 3, 100};
      for (its = 0; its < 5; ++its) { double C[MAXK*3], R[MAXK*3], e, et; int asg[MAXN], ok = 1, n = iters[its]; VlKMeans *km; long live = mc_live;
        if (n == 0 && al == 1) continue; /* Elkan always makes one update */
        mc_note("%s %s dim %d N %d K %d %s, %d iterations", f?"float":"double", l1?"L1":"L2", dim, N, K, algn[al], n);
        km = mk(f, l1, al, n); vl_kmeans_set_centers(km, c0, dim, K);
        e = vl_kmeans_refine_centers(km, x, N); mc_op();
        MC_CHECK("shape", vl_kmeans_get_num_centers(km) == (vl_size)K && vl_kmeans_get_dimension(km) == (vl_size)dim, "training changed the shape of the solution");
        dec(f, vl_kmeans_get_centers(km), K*dim, C); et = energy(l1, dim, X, N, C, K);
        MC_CHECK("energy", mc_close(e, et, tolof(f)*1000, tolof(f)), "%s reports energy %.9g, that of its centers is %.9g", algn[al], e, et);
        MC_CHECK("get_energy", vl_kmeans_get_energy(km) == e, "get_energy is %.9g, returned %.9g", vl_kmeans_get_energy(km), e);
        MC_CHECK("increase", e <= prev + tolof(f)*(1000+fabs(prev)), "%s: energy after %d iterations %.9g, before %.9g", algn[al], n, e, prev);
        prev = e;
        if (al == 0 || its == 4) check_quantize(algn[al], km, f, l1, dim, X, N, x);
        /* the reference trajectory */
        memcpy(R, C0t, sizeof R); for (it = 0; it < n && it < 40 && ok; ++it) ok = ref_step(l1, dim, X, N, R, K, asg);
        if (ok) { for (k = 0; k < K*dim; ++k) MC_CHECK("trajectory", mc_close(C[k], R[k], tolof(f)*100, tolof(f)*10), "%s after %d iterations: center coordinate %d is %.9g, Lloyd's %.9g", algn[al], n, k, C[k], R[k]); mc_case(1);
          if (its == 4) { double e2; vl_kmeans_set_max_num_iterations(km, 5); e2 = vl_kmeans_refine_centers(km, x, N); MC_CHECK("fixed", mc_close(e2, e, tolof(f)*1000, tolof(f)*10), "refining a converged solution changed the energy from %.9g to %.9g", e, e2); } }
        vl_kmeans_delete(km); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live);
      } }
    mc_gcheck(x); mc_gcheck(c0); mc_gfree(x); mc_gfree(c0);
  }
}
/* quantisation and its ANN version, update flag */
static void quant(void) {
  int dim = 1 + mc_choose(3), K = 1 + mc_choose(MC_BOUND(4, 5, 5)), k, f, l1, i, N = 6, mnc, nt, upd, wd; double C0[MAXK*3], X[MAXN*3];
  for (k = 0; k < K; ++k) { pointat(dim, mc_choose(k == 0 || !mc_thorough ? 4 : 6), C0 + k*dim); }
  for (i = 0; i < N; ++i) { pointat(dim, i, X + i*dim); X[i*dim] += 0.1*i; }
  for (f = 0; f < 2; ++f) for (l1 = 0; l1 < 2; ++l1) { void *x = enc(f, X, N*dim), *c0 = enc(f, C0, K*dim); VlKMeans *km = mk(f, l1, 0, 1); double Xt[MAXN*3]; dec(f, x, N*dim, Xt); vl_kmeans_set_centers(km, c0, dim, K);
    mc_note("%s %s dim %d K %d", f?"float":"double", l1?"L1":"L2", dim, K);
    check_quantize("quantize", km, f, l1, dim, Xt, N, x);
    for (mnc = 0; mnc < 4; ++mnc) for (nt = 1; nt <= 2; ++nt) for (upd = 0; upd < 2; ++upd) for (wd = 0; wd < 2; ++wd) {
      vl_uint32 a[MAXN]; int p[MAXN]; void *dd = mc_galloc((f?4:8)*N); double dist[MAXN]; static const int mc[] = {0, 1, 2, 100};
      vl_kmeans_set_max_num_comparisons(km, mc[mnc]); vl_kmeans_set_num_trees(km, nt);
      for (i = 0; i < N; ++i) a[i] = p[i] = (i*7 + mnc + nt) % K;
      vl_kmeans_quantize_ann(km, a, wd ? dd : NULL, x, N, upd); mc_op(); mc_gcheck(dd); dec(f, dd, N, dist);
      for (i = 0; i < N; ++i) { double d, dp = D(l1, dim, Xt+i*dim, C0+p[i]*dim), m = INFINITY; MC_CHECK("ann-range", a[i] < (unsigned)K, "ann label %u of %d", a[i], K); d = D(l1, dim, Xt+i*dim, C0+a[i]*dim); for (k = 0; k < K; ++k) m = fmin(m, D(l1, dim, Xt+i*dim, C0+k*dim));
        if (wd) MC_CHECK("ann-distance", mc_close(dist[i], d, tolof(f)*100, tolof(f)), "ann distance of point %d reported %g, its center is at %g", i, dist[i], d);
        if (upd) MC_CHECK("ann-update", d <= dp + 1e-6, "update replaced the assignment of point %d at %g by one at %g", i, dp, d);
        if (mc[mnc] == 0 || mc[mnc] == 100) MC_CHECK("ann-nearest", mc_close(d, m, tolof(f)*100, tolof(f)), "ann without limit: point %d gets a center at %g, the nearest is at %g", i, d, m); }
      mc_case(1); mc_gfree(dd);
    }
    vl_kmeans_delete(km); mc_gfree(x); mc_gfree(c0); }
}
/* seeding + best of repetitions */
static void best(void) {
  int dim = 1 + mc_choose(2), N = 2 + mc_choose(MC_BOUND(3, 4, 5)), P = 5, seed = mc_choose(MC_BOUND(3, 6, 12)), i, f, l1, al, ini, K, reps, ids[MAXN]; double X[MAXN*3];
  ids[0] = 0; for (i = 1; i < N; ++i) ids[i] = ids[i-1] + mc_choose(P - ids[i-1]);
  for (i = 0; i < N; ++i) pointat(dim, ids[i], X + i*dim);
  for (f = 0; f < 2; ++f) for (l1 = 0; l1 < 2; ++l1) { void *x = enc(f, X, N*dim);
    for (al = 0; al < 3; ++al) for (ini = 0; ini < 2; ++ini) for (K = 1; K <= 3 && K <= N; ++K) for (reps = 1; reps <= 4; ++reps) {
      VlKMeans *km = mk(f, l1, al, 10), *k2 = mk(f, l1, al, 10); double e, be = INFINITY, C[MAXK*3], B[MAXK*3], t[MAXK*3]; int r; vl_uint32 after, after2;
      mc_note("%s %s dim %d N %d K %d %s init %d reps %d seed %d", f?"float":"double", l1?"L1":"L2", dim, N, K, algn[al], ini, reps, seed);
      vl_kmeans_set_initialization(km, ini ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_num_repetitions(km, reps);
      vl_rand_seed(vl_get_rand(), 100 + seed); e = vl_kmeans_cluster(km, x, dim, N, K); mc_op(); after = vl_rand_uint32(vl_get_rand());
      dec(f, vl_kmeans_get_centers(km), K*dim, C);
      MC_CHECK("cluster-energy", mc_close(e, energy(l1, dim, X, N, C, K), tolof(f)*1000, tolof(f)) && vl_kmeans_get_energy(km) == e, "cluster returns energy %.9g (getter %.9g), that of its centers is %.9g", e, vl_kmeans_get_energy(km), energy(l1, dim, X, N, C, K));
      vl_rand_seed(vl_get_rand(), 100 + seed);
      for (r = 0; r < reps; ++r) { double er; if (ini) vl_kmeans_init_centers_plus_plus(k2, x, dim, N, K); else vl_kmeans_init_centers_with_rand_data(k2, x, dim, N, K); er = vl_kmeans_refine_centers(k2, x, N); mc_ops(2); if (er < be || r == 0) { be = er; dec(f, vl_kmeans_get_centers(k2), K*dim, B); } }
      after2 = vl_rand_uint32(vl_get_rand());
      MC_CHECK("best", after != after2 || mc_close(e, be, tolof(f)*1000, tolof(f)), "best of %d runs has energy %.9g, cluster returned %.9g", reps, be, e);
      (void)t; mc_state(mc_hash(K, C, K*dim*8)); mc_case(1);
      vl_kmeans_delete(km); vl_kmeans_delete(k2); }
    mc_gfree(x); }
}
mc_suite mc_suites[] = {
 {"train", train, "all multisets of up to 4/5/7 points from a 4/5/6 point grid (1-D and 2-D) x all multisets of 1..3/4 start centers x float/double x L1/L2 x Lloyd/Elkan/ANN(unlimited) x 0,1,2,3,100 iterations"},
 {"quantize", quant, "all tuples of up to 5 centers from 4/6 positions x dim 1..3 x float/double x L1/L2; ANN: comparisons 0(unlimited),1,2,100 x 1..2 trees x update flag x with/without distances"},
 {"best", best, "all multisets of 2..6 points x K<=3 x 4 repetition counts x both seedings x all algorithms x float/double x L1/L2 x 3/6/12 seeds; the individual runs replayed with the same random stream"},
 {0}};
