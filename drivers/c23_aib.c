/* C23: agglomerative information bottleneck: every merge, against exhaustive search of the best pair. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/aib.h>
#define MAXV 10
#define MAXC 4
static int N, C; static double cnt[MAXV*MAXC];
static double plogp(double x) { return x > 0 ? x*log(x) : 0; }
static double MI(double const *p, int n) { double pc[MAXC] = {0}, I = 0; int i, c; for (i = 0; i < n; ++i) for (c = 0; c < C; ++c) pc[c] += p[i*C+c]; for (i = 0; i < n; ++i) { double px = 0; for (c = 0; c < C; ++c) px += p[i*C+c]; I -= plogp(px); for (c = 0; c < C; ++c) I += plogp(p[i*C+c]); } for (c = 0; c < C; ++c) I -= plogp(pc[c]); return I; }
static double loss(double const *a, double const *b) { double s = 0, pa = 0, pb = 0; int c; for (c = 0; c < C; ++c) { pa += a[c]; pb += b[c]; s += plogp(a[c]) + plogp(b[c]) - plogp(a[c]+b[c]); } return s - plogp(pa) - plogp(pb) + plogp(pa+pb); }
static void check(double const *P0) {
  double *in = mc_galloc(8*N*C), P[2*MAXV*MAXC], total = 0; int i, c, k, alive[2*MAXV] = {0}, nalive = 0, nz = 0; VlAIB *aib; vl_uint *par; double *cost; long live = mc_live; unsigned char nullrow[MAXV] = {0};
  for (i = 0; i < N*C; ++i) { in[i] = P0[i]; total += P0[i]; }
  if (mc_verbose) { mc_note("%d values %d labels", N, C); for (i = 0; i < N*C; ++i) mc_note("%g", P0[i]); }
  memset(P, 0, sizeof P); for (i = 0; i < N; ++i) { double s = 0; for (c = 0; c < C; ++c) { P[i*C+c] = P0[i*C+c]/total; s += P0[i*C+c]; } alive[i] = s > 0; nullrow[i] = s == 0; nalive += alive[i]; } nz = nalive;
  aib = vl_aib_new(in, N, C); for (i = 0; i < N*C; ++i) MC_CHECK("normalize", mc_close(in[i], P[i], 1e-14, 1e-12), "entry %d of the normalised table is %g, expected %g", i, in[i], P[i]);
  MC_CHECK("verbosity", vl_aib_get_verbosity(aib) == 0, "a new object is verbose");
  vl_aib_process(aib); mc_ops(2); par = vl_aib_get_parents(aib); cost = vl_aib_get_costs(aib);
  for (i = 0; i < N; ++i) if (nullrow[i]) MC_CHECK("null-row", par[i] >= (vl_uint)(2*N-1), "value %d has null probability but its parent is %u", i, par[i]);
  for (i = 0; i < N; ++i) if (!nullrow[i] && nz > 1) MC_CHECK("parent", par[i] >= (vl_uint)N && par[i] < (vl_uint)(N+nz-1), "the parent of value %d is %u", i, par[i]);
  MC_CHECK("cost", mc_close(cost[0], MI(P, N), 1e-12, 1e-12), "the information before any merge is %.12g, expected %.12g", cost[0], MI(P, N));
  for (k = 0; k < N-1; ++k) { int node = N + k, ch[3], nch = 0, a, b; double best = INFINITY, l;
    for (i = 0; i < 2*N-1; ++i) if (par[i] == (vl_uint)node) { if (nch < 3) ch[nch] = i; ++nch; }
    if (k >= nz - 1) { MC_CHECK("unused", nch == 0 && par[node] >= (vl_uint)(2*N-1), "node %d should not exist (it has %d children and the parent %u)", node, nch, par[node]); MC_CHECK("nan", isnan(cost[k+1]), "cost %d is %g rather than NaN", k+1, cost[k+1]); continue; }
    MC_CHECK("binary", nch == 2 && alive[ch[0]] && alive[ch[1]], "node %d has %d children or ones that are not available", node, nch);
    for (a = 0; a < node; ++a) for (b = 0; b < a; ++b) if (alive[a] && alive[b]) { l = loss(P+a*C, P+b*C); if (l < best) best = l; }
    l = loss(P+ch[0]*C, P+ch[1]*C);
    MC_CHECK("greedy", l <= best + 1e-12, "merge %d joins nodes %d and %d losing %.12g; the best pair loses %.12g", k, ch[0], ch[1], l, best);
    for (c = 0; c < C; ++c) P[node*C+c] = P[ch[0]*C+c] + P[ch[1]*C+c];
    alive[ch[0]] = alive[ch[1]] = 0; alive[node] = 1;
    { double Q[2*MAXV*MAXC]; int n = 0; for (i = 0; i <= node; ++i) if (alive[i]) { memcpy(Q+n*C, P+i*C, 8*C); ++n; } MC_CHECK("cost", mc_close(cost[k+1], MI(Q, n), 1e-12, 1e-12), "the information after merge %d is %.12g, expected %.12g", k, cost[k+1], MI(Q, n)); MC_CHECK("cost-order", cost[k+1] <= cost[k] + 1e-12, "merge %d increases the information", k); }
    if (k == nz - 2) MC_CHECK("root", par[node] == 0, "the parent of the root is %u", par[node]); else MC_CHECK("order", par[node] > (vl_uint)node && par[node] < (vl_uint)(N+nz-1), "the parent of node %d is %u", node, par[node]);
    mc_state(mc_hash(k, par, 4*(2*N-1))); }
  vl_aib_delete(aib); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); mc_gfree(in); mc_case(1); }
/* all tables of counts */
static void all(void) {
  static int const sh[][3] = {{1,1,4},{1,3,4},{2,1,4},{2,2,4},{2,3,4},{3,1,5},{3,2,4},{3,3,3},{4,1,4},{4,2,4},{5,1,4},{4,3,2},{5,2,3},{6,2,2},{7,1,3},{6,1,4},{4,2,5},{5,2,4},{6,2,3},{4,3,3},{5,3,2}};
  int s = mc_choose(MC_TIER(16, MC_LEN(sh))), i, j, first, A; double t = 0; N = sh[s][0]; C = sh[s][1]; A = sh[s][2];
  first = N*C < 5 ? N*C : 5; for (i = 0; i < first; ++i) cnt[i] = mc_choose(A); for (; i < N*C; ++i) cnt[i] = 0; mc_fill = mc_choose(3) - 1; if (mc_fill == 1) mc_fill = 0xff;
  do { t = 0; for (i = 0; i < N*C; ++i) t += cnt[i]; if (t > 0) check(cnt);
    for (j = first; j < N*C; ++j) { if (++cnt[j] < A) break; cnt[j] = 0; } } while (j < N*C); }
/* larger structured tables: ties, clusters, scales */
static void large(void) {
  uint32_t r = 1 + mc_choose(MC_TIER(400, 4000)); int mode = mc_choose(6), i, c; N = 7 + mc_choose(4); C = 2 + mc_choose(3);
  for (i = 0; i < N; ++i) for (c = 0; c < C; ++c) { double v; switch (mode) { case 0: v = mc_lcg(&r) % 3; break; case 1: v = (i / 2 * 7 + c * 3) % 5; break; case 2: v = ldexp(1, -(int)(mc_lcg(&r) % 40)); break; case 3: v = i % 3 == c % 3 ? 1 + (mc_lcg(&r) % 2) : 0; break; case 4: v = (mc_lcg(&r) % 2) ? (c + 1) * (1 + i % 2) : mc_lcg(&r) % 2; break; default: v = (mc_lcg(&r) % 1000) / 7.0; } cnt[i*C+c] = v; }
  cnt[0] += 1; mc_fill = -1; check(cnt); }
mc_suite mc_suites[] = {
 {"all", all, "all tables of counts: 16/21 shapes from 1x1 to 7x1, 5x2, 4x3, 6x2 with 2..5 counts per entry, x 3 contents of fresh memory"},
 {"large", large, "400/4000 seeds x 6 structures (ties, clusters, wide scales) x 7..10 values x 2..4 labels"},
 {0}};
