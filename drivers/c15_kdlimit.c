/* C15: limited queries and searcher independence. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/kdtree.h>
#include <vl/random.h>
static double D(int l1, int dim, double const *a, double const *b) { double s = 0; int i; for (i = 0; i < dim; ++i) s += l1 ? fabs(a[i]-b[i]) : (a[i]-b[i])*(a[i]-b[i]); return s; }
static void *enc(int f, double const *v, int n) { void *p = mc_galloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = v[i]; else ((double*)p)[i] = v[i]; return p; }
static void dec(int f, void const *p, int n, double *v) { int i; for (i = 0; i < n; ++i) v[i] = f ? ((float const*)p)[i] : ((double const*)p)[i]; }
static void honest(int f, int l1, int dim, int N, double const *X, double const *Q, VlKDForestNeighbor *nb, int k, long comps, long limit) {
  int i; char seen[64] = {0}; long found = 0;
  MC_CHECK("limit", limit == 0 || comps <= limit, "%ld comparisons, the limit is %ld", comps, limit); MC_CHECK("limit", comps <= N && comps >= 1, "%ld comparisons with %d points", comps, N);
  for (i = 0; i < k; ++i) if (nb[i].index != (vl_uindex)-1) ++found; else break;
  MC_CHECK("found", found == (comps < k ? comps : k), "%ld comparisons, %d neighbors asked, %ld returned", comps, k, found);
  for (i = 0; i < k; ++i) { if (i >= found) { MC_CHECK("missing", nb[i].index == (vl_uindex)-1 && isnan(nb[i].distance), "neighbor %d is not marked missing", i); continue; }
    MC_CHECK("index", nb[i].index < (vl_uindex)N && !seen[nb[i].index]++, "neighbor %d: index %lld invalid or repeated", i, (long long)nb[i].index);
    MC_CHECK("true", mc_close(nb[i].distance, D(l1, dim, X + nb[i].index*dim, Q), 1e-4, f ? 1e-5 : 1e-9), "neighbor %d reported at %g, it is at %g", i, nb[i].distance, D(l1, dim, X + nb[i].index*dim, Q));
    MC_CHECK("order", !i || nb[i-1].distance <= nb[i].distance, "neighbors out of order"); }
}
static void limited(void) {
  static double const V[][2] = {{0,0},{4,1},{1,5},{6,6.5},{4,1.5},{-3,2},{4,-1}}; double X0[16], X[16], Q0[] = {0,0, 3,3, 4,1.2, 10,-10, 2.1,5}, Q[10]; int dim = 1 + mc_choose(2), N = 1 + mc_choose(MC_BOUND(3, 5, 6)), P = MC_BOUND(4, 5, 7), i, s, f, l1, nt, mean, q, k, lim;
  for (i = 0; i < N; ++i) { s = mc_choose(P); X0[dim*i] = V[s][0]; if (dim > 1) X0[2*i+1] = V[s][1]; else X0[i] += s == 4 ? .25 : 0; }
  for (f = 0; f < 2; ++f) { void *x = enc(f, X0, N*dim), *qq = enc(f, Q0, 5*dim); dec(f, x, N*dim, X); dec(f, qq, 5*dim, Q);
   for (l1 = 0; l1 < 2; ++l1) for (nt = 1; nt <= 3; ++nt) for (mean = 0; mean < 2; ++mean) { VlKDForest *t; vl_rand_seed(vl_get_rand(), 9); t = vl_kdforest_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, dim, nt, l1 ? VlDistanceL1 : VlDistanceL2); vl_kdforest_set_thresholding_method(t, mean ? VL_KDTREE_MEAN : VL_KDTREE_MEDIAN); vl_kdforest_build(t, N, x);
    mc_note("%s %s dim %d N %d trees %d %s", f?"float":"double", l1?"L1":"L2", dim, N, nt, mean?"mean":"median");
    for (lim = 0; lim <= N + 1; ++lim) { vl_kdforest_set_max_num_comparisons(t, lim); MC_CHECK("getter", vl_kdforest_get_max_num_comparisons(t) == (vl_size)lim, "limit not set");
     for (k = 1; k <= 3; ++k) { vl_uint32 idx[15]; double dd[15]; double distf[15]; VlKDForestNeighbor all[5][3]; long tot = 0, c;
      for (q = 0; q < 5; ++q) { VlKDForestNeighbor *nb = mc_galloc(sizeof(*nb)*k); memset(nb, 0x55, sizeof(*nb)*k); c = vl_kdforest_query(t, nb, k, (char*)qq + (f?4:8)*q*dim); tot += c; mc_op(); mc_gcheck(nb); honest(f, l1, dim, N, X, Q + q*dim, nb, k, c, lim); memcpy(all[q], nb, sizeof(*nb)*k); mc_case(1); mc_state(mc_hash(c, &nb[0].distance, 8)); mc_gfree(nb); }
      memset(dd, 0, sizeof dd); c = vl_kdforest_query_with_array(t, idx, k, 5, dd, qq); mc_op(); MC_CHECK("array-comps", c == tot, "queried as an array: %ld comparisons, alone %ld", c, tot); dec(f, dd, 5*k, distf);
      for (q = 0; q < 5; ++q) for (i = 0; i < k; ++i) MC_CHECK("array", idx[q*k+i] == (vl_uint32)all[q][i].index && mc_close(distf[q*k+i], all[q][i].distance, 0, 1e-6), "query %d neighbor %d: as an array point %u at %g, alone point %u at %g", q, i, idx[q*k+i], distf[q*k+i], (vl_uint32)all[q][i].index, all[q][i].distance);
      vl_kdforest_query_with_array(t, idx, k, 5, NULL, qq); for (q = 0; q < 5; ++q) for (i = 0; i < k; ++i) MC_CHECK("array", idx[q*k+i] == (vl_uint32)all[q][i].index, "array query without distances differs");
     } }
    vl_kdforest_delete(t); }
   mc_gfree(x); mc_gfree(qq); }
}
/* histories of searchers */
static void history(void) {
  enum { N = 12, DIM = 2 }; double X[N*DIM], Qs[4*DIM] = {0,0, 5,3, 2,8.5, 9,1}; int cfg = mc_choose(MC_BOUND(2, 4, 8)), f = cfg & 1, nt = 1 + (cfg >> 1 & 1) * 2, l1 = cfg >> 2, depth = MC_BOUND(4, 6, 7), i, j, step, ns = 0, lim = 0, nextq = 0; VlKDForestSearcher *s[3] = {0}; void *x, *qq; VlKDForest *t, *ref; long live;
  for (i = 0; i < N; ++i) { X[2*i] = (i * 7) % 11; X[2*i+1] = (i * 5) % 9 + .5 * (i % 2); }
  x = enc(f, X, N*DIM); qq = enc(f, Qs, 8); vl_get_rand(); live = mc_live;
  for (i = 0; i < 2; ++i) { VlKDForest *z; vl_rand_seed(vl_get_rand(), 4); z = vl_kdforest_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, DIM, nt, l1 ? VlDistanceL1 : VlDistanceL2); vl_kdforest_build(z, N, x); if (i) ref = z; else t = z; }
  for (step = 0; step < depth; ++step) { int op = mc_choose(9);
    if (op == 0) break;
    if (op == 1) { for (i = 0; i < 3 && s[i]; ++i) ; if (i == 3) mc_skip(); s[i] = vl_kdforest_new_searcher(t); ++ns; mc_note("new s%d", i); }
    else if (op <= 4) { i = op - 2; if (!s[i]) mc_skip(); vl_kdforestsearcher_delete(s[i]); s[i] = 0; --ns; mc_note("delete s%d", i); }
    else if (op == 5) { lim = lim == 0 ? 3 : lim == 3 ? 1 : 0; vl_kdforest_set_max_num_comparisons(t, lim); mc_note("limit %d", lim); }
    else { /* 6: every searcher; 7: the forest itself; 8: array */
      VlKDForestNeighbor nb[3], r[3]; int k = 1 + step % 3; vl_uint32 idx[12]; double dd[12], dv[12]; int who;
      mc_note("query %d", op);
      for (who = 0; who < 3; ++who) { long c, cr; VlKDForestSearcher *rs; void *q = (char*)qq + (f?4:8)*2*(nextq % 4); if (op == 6 && !s[who]) continue; if (op != 6 && who) break;
        if (op == 8) { vl_kdforest_query_with_array(t, idx, k, 4, dd, qq); dec(f, dd, 4*k, dv); mc_op(); vl_kdforest_set_max_num_comparisons(ref, lim); for (i = 0; i < 4; ++i) { rs = vl_kdforest_new_searcher(ref); vl_kdforestsearcher_query(rs, r, k, (char*)qq + (f?4:8)*2*i); vl_kdforestsearcher_delete(rs); for (j = 0; j < k; ++j) MC_CHECK("array", idx[i*k+j] == (vl_uint32)r[j].index && mc_close(dv[i*k+j], r[j].distance, 0, 1e-6), "array query %d after this history differs from a fresh searcher", i); } break; }
        memset(nb, 0, sizeof nb); c = op == 6 ? vl_kdforestsearcher_query(s[who], nb, k, q) : vl_kdforest_query(t, nb, k, q); mc_op();
        honest(f, l1, DIM, N, X, Qs + 2*(nextq % 4), nb, k, c, lim);
        vl_kdforest_set_max_num_comparisons(ref, lim); rs = vl_kdforest_new_searcher(ref); memset(r, 0, sizeof r); cr = vl_kdforestsearcher_query(rs, r, k, q); vl_kdforestsearcher_delete(rs);
        MC_CHECK("history", c == cr, "after this history %ld comparisons, a fresh searcher makes %ld", c, cr);
        for (j = 0; j < k; ++j) MC_CHECK("history", nb[j].index == r[j].index && (nb[j].distance == r[j].distance || isnan(r[j].distance)), "neighbor %d after this history is point %lld at %g, a fresh searcher finds %lld at %g", j, (long long)nb[j].index, nb[j].distance, (long long)r[j].index, r[j].distance);
        mc_state(mc_hash(c, &nb[0].distance, 8)); mc_case(1); ++nextq; } }
    /* the list of searchers is complete */
    { int cnt = 0, found[3] = {0}, extra = 0; VlKDForestSearcher *p; while ((p = vl_kdforest_get_searcher(t, cnt))) { for (i = 0; i < 3; ++i) if (s[i] == p) found[i]++; ++cnt; MC_CHECK("list", cnt < 9, "the list of searchers does not end"); if (p != s[0] && p != s[1] && p != s[2]) ++extra; }
      for (i = 0; i < 3; ++i) if (s[i]) MC_CHECK("list", found[i] == 1, "searcher %d appears %d times in the forest", i, found[i]); MC_CHECK("list", extra <= 1, "%d unknown searchers", extra); }
  }
  vl_kdforest_delete(t); vl_kdforest_delete(ref); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); mc_gfree(x); mc_gfree(qq);
}
mc_suite mc_suites[] = {
 {"limited", limited, "all sequences of up to 3/5/6 points from 4/5/7 positions (1-D, 2-D) x 5 queries x limits 0..N+1 x k 1..3 x 1..3 trees x both splitting rules x float/double x L1/L2; alone and as an array"},
 {"history", history, "all histories of up to 4/6/7 operations (create/delete 3 searchers in any order, change the limit, query by every searcher, by the forest, as an array) x 2/4/8 configurations, each answer compared with a fresh searcher on a twin forest"},
 {0}};
