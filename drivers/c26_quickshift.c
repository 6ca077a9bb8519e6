/* C26: quick shift: density, nearest denser parent, medoid objective, history, memory. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/quickshift.h>
#define MAXP 400
#define MAXC 3
static int H, W, C, n, exact; static double *img; /* row + H*col + H*W*k */
static double feat(int p, int k) { return k == 0 ? p % H : k == 1 ? p / H : img[p + n*(k-2)]; }
static double dist2(int p, int q) { double d = 0; int k; for (k = 0; k < C+2; ++k) { double e = feat(p,k) - feat(q,k); d += e*e; } return d; }
static int inwin(int p, int q, int R) { return abs(p % H - q % H) <= R && abs(p / H - q / H) <= R; }
static void verify(VlQS *q, double sigma, double tau, int medoid) {
  double const *E = vl_quickshift_get_density(q), *D = vl_quickshift_get_dists(q); int const *P = vl_quickshift_get_parents(q); int i, j, k, R = (int)ceil(3*sigma), tR = (int)ceil(tau), roots = 0;
  MC_CHECK("param", vl_quickshift_get_kernel_size(q) == sigma && vl_quickshift_get_max_dist(q) == tau && !!vl_quickshift_get_medoid(q) == medoid, "the parameters read back differ");
  for (i = 0; i < n; ++i) { double e = 0, M[MAXC+2] = {0}; 
    for (j = 0; j < n; ++j) if (inwin(i,j,R)) { double g = exp(-dist2(i,j)/(2*sigma*sigma)); e += g; for (k = 0; k < C+2; ++k) M[k] += g * feat(j,k); }
    MC_CHECK("density", mc_close(E[i], e, 0, 1e-9), "density of pixel (%d,%d) is %.12g, expected %.12g", i % H, i / H, E[i], e);
    MC_CHECK("range", P[i] >= 0 && P[i] < n, "parent of %d is %d", i, P[i]);
    if (!medoid) { double best = INFINITY, gate = tau*tau*(exact ? 1 : 1+1e-12), lo = tau*tau*(exact ? 1 : 1-1e-12), bestlo = INFINITY;
      for (j = 0; j < n; ++j) if (inwin(i,j,tR) && E[j] > E[i]) { double d = dist2(i,j); if (d <= gate && d < best) best = d; if (d <= lo && d < bestlo) bestlo = d; }
      if (P[i] == i) { ++roots; MC_CHECK("root", isinf(bestlo), "pixel (%d,%d) is a root but a denser pixel lies at distance %g <= %g", i % H, i / H, sqrt(bestlo), tau); MC_CHECK("rootdist", isinf(D[i]) && D[i] > 0, "distance of the root %d is %g", i, D[i]); }
      else { double d = dist2(i, P[i]); MC_CHECK("denser", E[P[i]] > E[i], "the parent %d of %d is not denser: %.17g %.17g", P[i], i, E[P[i]], E[i]); MC_CHECK("within", d <= gate, "the parent of %d lies at distance %g, the maximum is %g", i, sqrt(d), tau); MC_CHECK("nearest", d <= best*(1+1e-12), "the parent of %d lies at distance %g, another denser pixel at %g", i, sqrt(d), sqrt(best)); MC_CHECK("dist", mc_close(D[i], sqrt(d), 0, 1e-9), "distance of %d is %g, its parent lies at %g", i, D[i], sqrt(d)); } }
    else { double best = -INFINITY, own = 0, sc = 0; for (j = 0; j < n; ++j) if (inwin(i,j,R)) { double nn = 0, dot = 0, Q; for (k = 0; k < C+2; ++k) { nn += feat(j,k)*feat(j,k); dot += feat(j,k)*M[k]; } Q = -nn*e + 2*dot; sc += fabs(nn*e) + 2*fabs(dot); if (Q > best) best = Q; if (j == P[i]) own = Q; }
      MC_CHECK("window", inwin(i,P[i],R), "the medoid of %d is %d, out of its window", i, P[i]);
      MC_CHECK("medoid", own >= best - 1e-9*sc, "the medoid of (%d,%d) is %d with objective %g, the maximum is %g", i % H, i / H, P[i], own, best); MC_CHECK("score", mc_close(D[i], own, 1e-9*sc, 1e-9), "score of %d is %g, its objective is %g", i, D[i], own); } }
  if (!medoid) { MC_CHECK("noroot", roots > 0, "no root"); for (i = 0; i < n; ++i) { int s = 0; for (j = i; P[j] != j; j = P[j]) MC_CHECK("forest", ++s <= n, "the parents of %d form a cycle", i); } }
  mc_case(1); mc_state(mc_hash(H, P, 4*n)); }
static void conf(VlQS *q, double s, double t, int m) { vl_quickshift_set_kernel_size(q, s); vl_quickshift_set_max_dist(q, t); vl_quickshift_set_medoid(q, m); }
static double const sig[] = {1, 0.4, 2.5}, taus[] = {2, 1, 0, 1.5, 50};
static void small(void) {
  static int const sh[][4] = {{1,1,1,4},{1,4,1,4},{4,1,1,4},{2,2,1,4},{2,3,1,4},{3,2,1,4},{3,3,1,3},{2,2,2,3},{2,1,3,3},{2,4,1,3},{4,3,1,2}}; static double const v[] = {0, 1, 3.5, -2};
  int s = (exact = 1, mc_choose(11)), A = sh[s][3], i, first, dg[MAXP] = {0}, N; double sg, ta; int md; H = sh[s][0]; W = sh[s][1]; C = sh[s][2]; n = H*W; N = n*C; sg = sig[mc_choose(3)]; md = mc_choose(2); ta = taus[md ? 0 : mc_choose(5)]; first = N < 3 ? N : 3; for (i = 0; i < first; ++i) dg[i] = mc_choose(A); img = mc_galloc(8*N);
  for (;;) { long live = mc_live; VlQS *q; for (i = 0; i < N; ++i) img[i] = v[dg[i]]; if (mc_verbose) { mc_note("%d rows %d columns %d channels sigma %g tau %g medoid %d", H, W, C, sg, ta, md); for (i = 0; i < N; ++i) mc_note("%g", img[i]); }
    q = vl_quickshift_new(img, H, W, C); conf(q, sg, ta, md); vl_quickshift_process(q); mc_op(); verify(q, sg, ta, md); vl_quickshift_delete(q); MC_CHECK("leak", live == mc_live, "leak"); mc_gcheck(img); for (i = 0; i < N; ++i) MC_CHECK("input", img[i] == v[dg[i]], "the image was modified"); for (i = first; i < N; ++i) { if (++dg[i] < A) break; dg[i] = 0; } if (i >= N) break; } mc_gfree(img); }
static void fillimg(int mode, uint32_t seed) { int i; for (i = 0; i < n*C; ++i) { int r = i % H, c = i / H % W; img[i] = mode == 0 ? (mc_lcg(&seed) % 1000) / 100. : mode == 1 ? (r < H/2) * 5 + (c % 3) * 0.7 : mode == 2 ? 4 : mode == 3 ? 0.31*r - 0.77*c*(i / n) : -3 + (mc_lcg(&seed) % 4) ; } }
static void geometry(void) {
  exact = 0;  int k, mode; double s, t; H = 1 + mc_choose(7); W = 1 + mc_choose(7); C = 1 + mc_choose(3); mode = mc_choose(5); n = H*W; img = mc_galloc(8*n*C);
  for (k = 0; k < MC_TIER(6, 30); ++k) { int md = k % 3 == 2; VlQS *q; s = 0.35 + 0.41*k; if (s > 4) s = 4.2 - 0.13*k; t = 0.6 + 1.3*((k*5) % 7); fillimg(mode, 1 + 31*k + H + 10*W); q = vl_quickshift_new(img, H, W, C); conf(q, s, t, md); vl_quickshift_process(q); mc_op(); verify(q, s, t, md); vl_quickshift_delete(q); mc_gcheck(img); } mc_gfree(img); }
/* every history of configurations, images and processing of one object */
static void history(void) {
  int d, L = (exact = 0, MC_BOUND(3, 4, 5)), md = 0, im = 0; double s = 1, t = 2; VlQS *q; H = 3; W = 4; C = 1 + mc_choose(2); n = H*W; img = mc_galloc(8*n*C); fillimg(0, 1); mc_fill = mc_choose(2) ? 0xff : -1; q = vl_quickshift_new(img, H, W, C); MC_CHECK("default", vl_quickshift_get_medoid(q) == 0 && vl_quickshift_get_kernel_size(q) == 2 && vl_quickshift_get_max_dist(q) == 0, "defaults"); conf(q, s, t, md);
  for (d = 0; d < L; ++d) { switch (mc_choose(6)) { case 0: break; case 1: s = s == 1 ? 0.5 : 1; vl_quickshift_set_kernel_size(q, s); break; case 2: t = t == 2 ? 5 : 2; vl_quickshift_set_max_dist(q, t); break; case 3: md = !md; vl_quickshift_set_medoid(q, md); break; case 4: fillimg(im = (im + 1) % 5, d); break; case 5: fillimg(0, 7); break; } vl_quickshift_process(q); mc_op(); verify(q, s, t, md); }
  vl_quickshift_delete(q); mc_gfree(img); }
static void defaults(void) { /* defaults follow the size */
  VlQS *q; exact = 0; H = 1 + mc_choose(4) * 50; W = 1 + mc_choose(3) * 1; C = 1; n = H*W; if (H > 120) W = 1; n = H*W; img = mc_galloc(8*n); fillimg(0, H); q = vl_quickshift_new(img, H, W, 1); vl_quickshift_process(q); mc_op(); verify(q, vl_quickshift_get_kernel_size(q), vl_quickshift_get_max_dist(q), 0); vl_quickshift_delete(q); mc_gfree(img); }
mc_suite mc_suites[] = {
 {"small", small, "all images of 11 shapes up to 4x3 over 2..4 values x 3 kernel sizes x 5 distances or medoid"},
 {"geometry", geometry, "1..7 x 1..7 pixels, 1..3 channels, 5 structures, 6/30 parameter combinations"},
 {"history", history, "all sequences of 4/5 reconfigurations, changes of the image and processings of one object"},
 {"defaults", defaults, "default parameters, up to 151 rows"},
 {0}};
