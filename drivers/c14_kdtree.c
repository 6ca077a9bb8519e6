/* C14: exact kd-forest queries against a linear scan. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/kdtree.h>
#include <vl/random.h>
static double D(int l1, int dim, double const *a, double const *b) { double s = 0; int i; for (i = 0; i < dim; ++i) s += l1 ? fabs(a[i]-b[i]) : (a[i]-b[i])*(a[i]-b[i]); return s; }
static void *enc(int f, double const *v, int n) { void *p = mc_galloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = v[i]; else ((double*)p)[i] = v[i]; return p; }
static void dec(int f, void const *p, int n, double *v) { int i; for (i = 0; i < n; ++i) v[i] = f ? ((float const*)p)[i] : ((double const*)p)[i]; }
static int dbl(const void *a, const void *b) { double x = *(double*)a, y = *(double*)b; return x < y ? -1 : x > y; }
/* one data set, all settings, all queries */
static void check(int dim, int N, double const *X0, int nq, double const *Q0, int maxk) {
  int f, l1, nt, mean, q, k, i; double *X = malloc(8*N*dim), *Q = malloc(8*nq*dim), *all = malloc(8*N), *srt = malloc(8*N); char *seen = malloc(N);
  for (f = 0; f < 2; ++f) { void *x = enc(f, X0, N*dim), *qq = enc(f, Q0, nq*dim); dec(f, x, N*dim, X); dec(f, qq, nq*dim, Q);
   for (l1 = 0; l1 < 2; ++l1) for (nt = 1; nt <= 3; ++nt) for (mean = 0; mean < 2; ++mean) { VlKDForest *t; long live; vl_rand_seed(vl_get_rand(), 9); live = mc_live;
    mc_note("%s %s dim %d N %d trees %d %s", f?"float":"double", l1?"L1":"L2", dim, N, nt, mean?"mean":"median");
    t = vl_kdforest_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, dim, nt, l1 ? VlDistanceL1 : VlDistanceL2); vl_kdforest_set_thresholding_method(t, mean ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_build(t, N, x); mc_op();
    for (i = 0; i < nt; ++i) { int nn = vl_kdforest_get_num_nodes_of_tree(t, i); MC_CHECK("nodes", nn >= 1 && nn <= 2*N-1, "tree %d of %d points has %d nodes", i, N, nn); }
    for (q = 0; q < nq; ++q) { for (i = 0; i < N; ++i) srt[i] = all[i] = D(l1, dim, Q + q*dim, X + i*dim); qsort(srt, N, 8, dbl);
     for (k = 1; k <= maxk; ++k) { VlKDForestNeighbor *nb = mc_galloc(sizeof(*nb)*k); memset(nb, 0x55, sizeof(*nb)*k); memset(seen, 0, N); vl_kdforest_query(t, nb, k, (char*)qq + (f?4:8)*q*dim); mc_op(); mc_gcheck(nb);
      for (i = 0; i < k; ++i) { if (i >= N) { MC_CHECK("missing", nb[i].index == (vl_uindex)-1 && isnan(nb[i].distance), "neighbor %d of %d points is not marked missing", i, N); continue; }
       MC_CHECK("index", nb[i].index < (vl_uindex)N && !seen[nb[i].index]++, "neighbor %d has index %lld, invalid or repeated", i, (long long)nb[i].index);
       MC_CHECK("true", mc_close(nb[i].distance, all[nb[i].index], 1e-4, f ? 1e-5 : 1e-9), "neighbor %d (point %d) reported at %.9g, it is at %.9g", i, (int)nb[i].index, nb[i].distance, all[nb[i].index]);
       MC_CHECK("nearest", mc_close(all[nb[i].index], srt[i], 1e-4, f ? 1e-5 : 1e-9), "neighbor %d is at %.9g, the %d-th nearest point at %.9g", i, all[nb[i].index], i, srt[i]);
       MC_CHECK("order", !i || nb[i-1].distance <= nb[i].distance, "neighbors out of order"); }
      mc_state(mc_hash(mc_hash(k, &nb[0].distance, 8), &nb[k-1].distance, 8)); mc_case(1); mc_gfree(nb); }
    }
    mc_gcheck(x); mc_gcheck(qq); vl_kdforest_delete(t); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
   mc_gfree(x); mc_gfree(qq); }
  free(X); free(Q); free(all); free(srt); free(seen);
}
static void line(void) { /* all sequences on a line */
  static double const V[] = {0, 1, 2.5, 7, -3}; double X[8], Q[] = {0, 0.6, 1, 2, 7, 100, -4}; int N = 1 + mc_choose(MC_BOUND(4, 7, 8)), i;
  for (i = 0; i < N; ++i) X[i] = V[mc_choose(MC_TIER(4, 5))]; check(1, N, X, 7, Q, 3);
}
static void plane(void) {
  static double const V[][2] = {{0,0},{4,1},{1,5},{6,6.5},{4,1.5},{-3,2},{4,-1}}; double X[16], Q[] = {0,0, 3,3, 4,1, 10,-10, 2.1,5, 5,1}; int N = 1 + mc_choose(MC_BOUND(3, 6, 7)), P = MC_BOUND(5, 5, 6), i, s;
  for (i = 0; i < N; ++i) { s = mc_choose(P); X[2*i] = V[s][0]; X[2*i+1] = V[s][1]; } check(2, N, X, 6, Q, 3);
}
static void cube(void) { /* all subsets of the vertices of a box, with one repeated */
  int m = 1 + mc_choose(255), rep = mc_choose(2), i, N = 0; double X[27*2], Q[] = {0,0,0, .4,.9,2, 1,2,5, -3,1,1, .6,1.3,2.6};
  for (i = 0; i < 8; ++i) if (m >> i & 1) { X[3*N] = i & 1; X[3*N+1] = 2*(i >> 1 & 1); X[3*N+2] = 3*(i >> 2); ++N; if (rep && N == 1) { memcpy(X+3, X, 24); N = 2; } }
  check(3, N, X, 5, Q, 4);
}
static void equal(void) { /* copies of one value, equal up to rounding, plus at most one other point at any place */
  static double const V[] = {0.1, 1./3, 0.7, 1e-3, 1e6+.1, 123.456, -0.1, 1e-30, 1e15}; double v = V[mc_choose(9)], X[128], Q[4]; int dim = 1 + mc_choose(2), N = 1 + mc_choose(MC_BOUND(12, 24, 60)), other = mc_choose(3), at = other ? mc_choose(N < 8 ? N : 8) : 0, i, j;
  for (i = 0; i < N; ++i) for (j = 0; j < dim; ++j) X[i*dim+j] = j ? v * 3 : v; if (other) X[(at * (N-1) / 7 % N)*dim] = other == 1 ? v * (1 + 1e-15) : v * 2;
  Q[0] = v; Q[1] = v * 3; Q[2] = v * 1.5; Q[3] = 0; check(dim, N, X, 2, Q, 2);
}
static void big(void) { /* structured larger sets: grids, spirals, clusters, more data than the variance samples */
  static int const Ns[] = {17, 64, 150, 1000, 1025, 1500}; int kind = mc_choose(5), N = Ns[mc_choose(MC_BOUND(3, 6, 6))], dim = 1 + mc_choose(MC_BOUND(3, 4, 8)), i, j, nq = 12; double *X = malloc(8*N*dim), Q[12*8]; uint32_t s = kind * 77 + N;
  for (i = 0; i < N; ++i) for (j = 0; j < dim; ++j) X[i*dim+j] = kind == 0 ? (i >> j) % 7 : kind == 1 ? cos(i * .37 + j) * i : kind == 2 ? (int)(mc_lcg(&s) % 10) * (j + 1) : kind == 3 ? (mc_lcg(&s) % 1000) / 100. : (i % 3) * 10 + (mc_lcg(&s) % 100) / 500.;
  for (i = 0; i < nq; ++i) for (j = 0; j < dim; ++j) Q[i*dim+j] = i < 4 ? X[(i * 31 % N)*dim+j] : i < 8 ? X[(i * 17 % N)*dim+j] + .3 * (j % 2 ? 1 : -1) : (i - 8) * 5 - 3 + j;
  check(dim, N, X, nq, Q, 5); free(X);
}
mc_suite mc_suites[] = {
 {"line", line, "all sequences of up to 4/7/8 points from 4/5 values x 7 queries x k 1..3 x float/double x L1/L2 x 1..3 trees x both splitting rules"},
 {"plane", plane, "all sequences of up to 3/6/7 points from 5/5/6 positions x 6 queries x k 1..3, same settings"},
 {"cube", cube, "all subsets of the vertices of a box, with and without a repeated point x 5 queries x k 1..4, same settings"},
 {"equal", equal, "1..12/24/60 copies of 9 values in 1-D and 2-D, with at most one other point at 8 places, same settings"},
 {"big", big, "5 structured families x 6 sizes up to 1500 x dimension 1..4/8 x 12 queries x k 1..5, same settings"},
 {0}};
