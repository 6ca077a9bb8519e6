/* C13: integer k-means and its tree. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/ikmeans.h>
#include <vl/hikmeans.h>
#include <vl/random.h>
static int const P1[] = {0, 3, 10, 11, 100, 255}, P2[][2] = {{0,0},{7,1},{255,250},{3,9},{7,2},{120,0}};
static long D(int M, vl_uint8 const *x, vl_ikmacc_t const *c) { long s = 0; int i; for (i = 0; i < M; ++i) s += ((long)x[i]-c[i])*((long)x[i]-c[i]); return s; }
static long nearest(int M, int K, vl_uint8 const *x, vl_ikmacc_t const *c, int *tie, int *bk) { long b = -1; int k, t = 0; for (k = 0; k < K; ++k) { long d = D(M, x, c + k*M); if (b < 0 || d < b) { b = d; t = 0; if (bk) *bk = k; } else if (d == b) t = 1; } if (tie) *tie |= t; return b; }
static void check_push(char const *who, VlIKMFilt *f, int M, int K) {
  vl_ikmacc_t const *c = vl_ikm_get_centers(f); vl_uint8 q[64][2]; vl_uint32 *a; vl_uint8 *data; int n = 0, i;
  MC_CHECK("shape", vl_ikm_get_K(f) == (vl_size)K && vl_ikm_get_ndims(f) == (vl_size)M, "%s: K %d M %d", who, (int)vl_ikm_get_K(f), (int)vl_ikm_get_ndims(f));
  { static int const v[] = {0, 1, 5, 7, 10, 55, 128, 255}; int x, y; for (x = 0; x < 8; ++x) for (y = 0; y < (M == 1 ? 1 : 8); ++y) { q[n][0] = v[x]; q[n][1] = v[y]; ++n; } }
  data = mc_galloc(n*M); for (i = 0; i < n; ++i) memcpy(data + i*M, q[i], M); a = mc_galloc(4*n);
  vl_ikm_push(f, a, data, n); mc_op(); mc_gcheck(a);
  for (i = 0; i < n; ++i) { long b = nearest(M, K, data + i*M, c, 0, 0); vl_uint32 o = vl_ikm_push_one(c, data + i*M, M, K);
    MC_CHECK("push", a[i] < (unsigned)K && D(M, data+i*M, c + a[i]*M) == b, "%s: datum pushed to center %u, not a nearest one", who, a[i]);
    MC_CHECK("push_one", o < (unsigned)K && D(M, data+i*M, c + o*M) == b, "%s: push_one gives center %u, not a nearest one", who, o); }
  mc_state(mc_hash(K, a, 4*n)); mc_case(n); mc_gfree(a); mc_gfree(data);
}
static void ikm(void) {
  int M = 1 + mc_choose(2), N = 1 + mc_choose(MC_BOUND(4, 5, 6)), K = 1 + mc_choose(MC_BOUND(3, 4, 4)), P = MC_BOUND(4, 5, 6), i, k, meth, ni, fill, ids[8], ks[8]; vl_uint8 *x; vl_ikmacc_t c0[8];
  static int const iters[] = {0, 1, 2, 200}; static int const fills[] = {0, 0xff, 1};
  ids[0] = mc_choose(P); for (i = 1; i < N; ++i) ids[i] = ids[i-1] + mc_choose(P - ids[i-1]);
  ks[0] = mc_choose(P); for (k = 1; k < K; ++k) ks[k] = mc_thorough ? mc_choose(P) : ks[k-1] + mc_choose(P - ks[k-1]);
  x = mc_galloc(N*M); for (i = 0; i < N; ++i) { int j = ids[N % 3 ? (i*3+1) % N : i]; x[i*M] = M == 1 ? P1[j] : P2[j][0]; if (M > 1) x[i*M+1] = P2[j][1]; }
  for (k = 0; k < K; ++k) { int j = ks[k]; c0[k*M] = (M == 1 ? P1[j] : P2[j][0]) + (k % 2 ? 2*k : -k); if (M > 1) c0[k*M+1] = P2[j][1] + k; }
  for (meth = 0; meth < 2; ++meth) { 
    for (ni = 0; ni < 4; ++ni) { uint64_t h0 = 0; vl_ikmacc_t C[8];
      for (fill = 0; fill < 3; ++fill) { VlIKMFilt *f; long live = mc_live; uint64_t h; mc_fill = fills[fill];
        mc_note("%s M %d N %d K %d niters %d fill %d", meth ? "Elkan" : "Lloyd", M, N, K, iters[ni], fills[fill]);
        f = vl_ikm_new(meth ? VL_IKM_ELKAN : VL_IKM_LLOYD); vl_ikm_set_max_niters(f, iters[ni]); vl_ikm_init(f, c0, M, K);
        if (ni == 0 && fill == 0) check_push("before training", f, M, K);
        vl_ikm_train(f, x, N); mc_op(); mc_gcheck(x); memcpy(C, vl_ikm_get_centers(f), sizeof(C[0])*M*K);
        h = mc_hash(K, C, sizeof(C[0])*M*K); if (fill == 0) h0 = h; MC_CHECK("memory", h == h0, "the training result depends on the contents of fresh memory");
        if (fill == 0) check_push(meth ? "Elkan" : "Lloyd", f, M, K);
        vl_ikm_delete(f); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
      mc_fill = -1;
      { /* reference: n updates (Elkan makes one more), ending when the assignment repeats */
        vl_ikmacc_t R[8]; int it, tie = 0, last[8] = {-1,-1,-1,-1,-1,-1,-1,-1}, n = iters[ni] + (meth && iters[ni] < 200), conv = 0; memcpy(R, c0, sizeof(R[0])*M*K);
        for (it = 0; it < n && !conv; ++it) { int a[8], j; conv = 1; for (i = 0; i < N; ++i) { nearest(M, K, x + i*M, R, &tie, a+i); if (a[i] != last[i]) conv = 0; last[i] = a[i]; } if (conv) break;
          for (k = 0; k < K; ++k) { int m = 0; long s[2] = {0,0}; for (i = 0; i < N; ++i) if (a[i] == k) { ++m; for (j = 0; j < M; ++j) s[j] += x[i*M+j]; } if (m) for (j = 0; j < M; ++j) R[k*M+j] = s[j] / m; } }
        if (!tie) { for (k = 0; k < K*M; ++k) MC_CHECK("trajectory", C[k] == R[k], "%s, %d iterations: center coordinate %d is %ld, the reference iteration gives %ld", meth ? "Elkan" : "Lloyd", iters[ni], k, (long)C[k], (long)R[k]); mc_case(1); }
        if (iters[ni] == 200) { /* converged: the centers are the means of their own nearest assignment */
          int a[8], j; tie = 0; for (i = 0; i < N; ++i) nearest(M, K, x + i*M, C, &tie, a+i);
          if (!tie) for (k = 0; k < K; ++k) { int m = 0; long s[2] = {0,0}; for (i = 0; i < N; ++i) if (a[i] == k) { ++m; for (j = 0; j < M; ++j) s[j] += x[i*M+j]; } if (m) for (j = 0; j < M; ++j) MC_CHECK("fixed", C[k*M+j] == s[j]/m, "after convergence center %d is not the mean of the data nearest to it", k); } }
      }
    } }
  mc_gfree(x);
}
static void walk(VlHIKMNode const *n, int M, int Kmax, int height, vl_uint8 const *x, vl_uint32 const *path, int at) {
  int K = vl_ikm_get_K(n->filter); vl_ikmacc_t const *c = vl_ikm_get_centers(n->filter);
  MC_CHECK("K", K >= 1 && K <= Kmax && (int)vl_ikm_get_ndims(n->filter) == M, "a node has %d clusters of at most %d", K, Kmax);
  MC_CHECK("label", path[0] < (unsigned)K, "path label %d is %u although the node has %d clusters", at, path[0], K);
  MC_CHECK("chain", D(M, x, c + path[0]*M) == nearest(M, K, x, c, 0, 0), "path label %d is not a nearest center of its node", at);
  MC_CHECK("depth", (n->children != 0) == (height > 1), "the path ends at depth %d", at + 1);
  if (height > 1) { MC_CHECK("depth", n->children[path[0]] != 0, "no child"); walk(n->children[path[0]], M, Kmax, height - 1, x, path + 1, at + 1); }
}
static void hikm(void) {
  int M = 1 + mc_choose(2), N = 1 + mc_choose(MC_BOUND(4, 7, 8)), ids[8], i, K, depth, meth, seed, P = 5; vl_uint8 *x, *q; int nq = 0;
  ids[0] = mc_choose(2); for (i = 1; i < N; ++i) ids[i] = ids[i-1] + mc_choose(P - ids[i-1]);
  x = mc_galloc(N*M); for (i = 0; i < N; ++i) { int j = ids[N % 3 ? (i*3+1) % N : i]; x[i*M] = M == 1 ? P1[j] : P2[j][0]; if (M > 1) x[i*M+1] = P2[j][1]; }
  q = mc_galloc((N+6)*M); memcpy(q, x, N*M); nq = N; { static int const v[] = {0, 255, 6, 60, 130, 12}; for (i = 0; i < 6; ++i) { q[nq*M] = v[i]; if (M > 1) q[nq*M+1] = v[(i*2+1)%6]; ++nq; } }
  for (meth = 0; meth < 2; ++meth) for (K = 1; K <= MC_BOUND(3, 4, 5); ++K) for (depth = 1; depth <= MC_BOUND(3, 3, 4); ++depth) for (seed = 0; seed < MC_BOUND(1, 2, 4); ++seed) { VlHIKMTree *t; vl_uint32 *a; long live; int rep;
    vl_rand_seed(vl_get_rand(), 50 + seed); live = mc_live; t = vl_hikm_new(meth ? VL_IKM_ELKAN : VL_IKM_LLOYD); mc_note("%s M %d N %d K %d depth %d seed %d", meth ? "Elkan" : "Lloyd", M, N, K, depth, seed);
    vl_hikm_init(t, M, K, depth);
    for (rep = 0; rep < 2; ++rep) { /* trained, pushed to, trained again */
      vl_hikm_train(t, x, N); mc_op(); a = mc_galloc(4*nq*depth); memset(a, 0xff, 4*nq*depth);
      MC_CHECK("params", vl_hikm_get_K(t) == (vl_size)K && vl_hikm_get_depth(t) == (vl_size)depth && vl_hikm_get_ndims(t) == (vl_size)M, "tree parameters changed");
      vl_hikm_push(t, a, q, nq); mc_op(); mc_gcheck(a); mc_gcheck(x); mc_gcheck(q);
      for (i = 0; i < nq; ++i) walk(vl_hikm_get_root(t), M, K < N ? K : N, depth, q + i*M, a + i*depth, 0);
      mc_state(mc_hash(K*10+depth, a, 4*nq*depth)); mc_case(nq); mc_gfree(a); }
    vl_hikm_delete(t); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
  mc_gfree(x); mc_gfree(q);
}
/* random seeding */
static void seeding(void) {
  int M = 1 + mc_choose(2), N = 1 + mc_choose(MC_BOUND(4, 6, 7)), ids[8], i, k, K, meth, seed, distinct = 0, seen[8] = {0}; vl_uint8 *x;
  ids[0] = 0; for (i = 1; i < N; ++i) ids[i] = mc_choose(i == 1 ? 2 : 4); for (i = 0; i < N; ++i) if (!seen[ids[i]]++) ++distinct;
  x = mc_galloc(N*M); for (i = 0; i < N; ++i) { x[i*M] = M == 1 ? P1[ids[i]] : P2[ids[i]][0]; if (M > 1) x[i*M+1] = P2[ids[i]][1]; }
  for (meth = 0; meth < 2; ++meth) for (K = 1; K <= N + 1; ++K) for (seed = 0; seed < MC_BOUND(2, 4, 8); ++seed) { VlIKMFilt *f; int used[8] = {0}, nd = 0; vl_ikmacc_t const *c; long live; vl_rand_seed(vl_get_rand(), seed); live = mc_live; f = vl_ikm_new(meth ? VL_IKM_ELKAN : VL_IKM_LLOYD);
    mc_note("M %d N %d K %d seed %d", M, N, K, seed); vl_ikm_init_rand_data(f, x, M, N, K); mc_op(); c = vl_ikm_get_centers(f);
    for (k = 0; k < K; ++k) { int w = -1; for (i = 0; i < N; ++i) if (D(M, x + i*M, c + k*M) == 0) w = ids[i]; MC_CHECK("datum", w >= 0, "center %d is not a datum", k); if (!used[w]++) ++nd; }
    MC_CHECK("distinct", nd >= (K < distinct ? K : distinct), "%d distinct centers out of %d although the data has %d distinct points", nd, K, distinct);
    check_push("seeded", f, M, K); vl_ikm_train(f, x, N); check_push("trained", f, M, K); mc_op(); vl_ikm_delete(f); MC_CHECK("leak", mc_live == live, "leak"); mc_case(1); }
  mc_gfree(x);
}
mc_suite mc_suites[] = {
 {"ikm", ikm, "all multisets of up to 4/5/6 bytes (1-D, 2-D) x start centers 1..3/4 x both algorithms x 0,1,2,200 iterations x 3 memory fills; pushes on a grid of queries"},
 {"hikm", hikm, "all multisets of up to 4/7/8 data x K 1..3/4/5 x depth 1..3/4 x both algorithms x seeds, trained twice; paths of the data and 6 other queries"},
 {"seeding", seeding, "all sequences of up to 4/6/7 data from 4 positions x K 1..N+1 x both algorithms x seeds"},
 {0}};
