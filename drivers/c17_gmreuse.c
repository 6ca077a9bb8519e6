/* C17: GMM objects against fresh ones: histories, copies, memory contents, leaks. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/gmm.h>
#include <vl/random.h>
typedef struct { int N; double v[40]; } Data;
static Data const DS[2][4] = {
 {{7, {0, 1, 3, 7, 12.5, 13, 1.5}}, {4, {2, 2, 9, 4}}, {10, {0, .5, 1, 1.5, 30, 31, 32, -9, -8, -9.5}}, {3, {1, 5, 5.5}}},
 {{6, {0,0, 1,0, 0,1, 9,9, 9,8, 8,9}}, {4, {0,0, 4,1, 1,5, 6,6.5}}, {9, {0,0, 1,0, 0,1, 9,9, 9,8, 8,9, -5,4, -5,5, -6,4}}, {3, {1,1, 2,2, 5,0}}} };
typedef struct { int ini, reps, iters, user; double lb[2]; } Set;
typedef struct { int f, D, K, wide; } Cfg;
static VlGMMInitialization const inis[] = {VlGMMRand, VlGMMKMeans, VlGMMCustom};
static void *enc(int f, double const *v, int n) { void *p = malloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = (float)v[i]; else ((double*)p)[i] = v[i]; return p; }
static void apply(VlGMM *g, Set const *s, VlKMeans *u) { vl_gmm_set_initialization(g, inis[s->ini]); vl_gmm_set_num_repetitions(g, s->reps); vl_gmm_set_max_num_iterations(g, s->iters); vl_gmm_set_covariance_lower_bounds(g, s->lb); if (s->user) vl_gmm_set_kmeans_init_object(g, u); }
static void same_settings(VlGMM *g, Set const *s, Cfg const *c, char const *who) { int d, ok;
  ok = vl_gmm_get_initialization(g) == inis[s->ini] && vl_gmm_get_num_repetitions(g) == (vl_size)s->reps && vl_gmm_get_max_num_iterations(g) == (vl_size)s->iters && vl_gmm_get_data_type(g) == (c->f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE) && vl_gmm_get_dimension(g) == (vl_size)c->D && vl_gmm_get_num_clusters(g) == (vl_size)c->K;
  for (d = 0; d < c->D; ++d) ok = ok && vl_gmm_get_covariance_lower_bounds(g)[d] == s->lb[d];
  MC_CHECK("settings", ok, "%s: a setting is not the one set", who); }
static uint64_t params(VlGMM *g, Cfg const *c) { int sz = c->f ? 4 : 8; uint64_t h = mc_hash(1, vl_gmm_get_means(g), sz*c->K*c->D); h = mc_hash(h, vl_gmm_get_covariances(g), sz*c->K*c->D); return mc_hash(h, vl_gmm_get_priors(g), sz*c->K); }
static void load(VlGMM *g, Cfg const *c, int which) { double m[8], v[8], p[4]; int i; void *t; for (i = 0; i < c->K*c->D; ++i) { m[i] = which ? 9.0 - 4*i : 2.5*i; v[i] = which ? 1 + i : 6; } for (i = 0; i < c->K; ++i) p[i] = which ? (i + 1) * 2.0 / (c->K * (c->K + 1)) : 1.0 / c->K;
  t = enc(c->f, m, c->K*c->D); vl_gmm_set_means(g, t); free(t); t = enc(c->f, v, c->K*c->D); vl_gmm_set_covariances(g, t); free(t); t = enc(c->f, p, c->K); vl_gmm_set_priors(g, t); free(t); }
static VlKMeans *user_km(Cfg const *c) { VlKMeans *u = vl_kmeans_new(c->f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, VlDistanceL2); vl_kmeans_set_max_num_iterations(u, 1); vl_kmeans_set_initialization(u, VlKMeansPlusPlus); return u; }
static void *data(Cfg const *c, int d, int *N) { *N = DS[c->D-1][d].N; return enc(c->f, DS[c->D-1][d].v, *N*c->D); }
#define NPROBE 7
static uint64_t probe(VlGMM *g, Cfg const *c, int w, VlKMeans *u) { int N, sz = c->f ? 4 : 8, post = 1; void *x = data(c, w < 2 ? w : w == 2 ? 2 : w % 2, &N); double LL = 0; uint64_t h = w;
  vl_rand_seed(vl_get_rand(), 55);
  switch (w) {
  case 0: case 1: case 2: LL = vl_gmm_em(g, x, N); break;
  case 3: LL = vl_gmm_cluster(g, x, N); break;
  case 4: vl_gmm_init_with_rand_data(g, x, N); post = 0; break;
  case 5: vl_gmm_init_with_kmeans(g, x, N, NULL); break;
  case 6: vl_gmm_init_with_kmeans(g, x, N, u); vl_gmm_set_kmeans_init_object(g, NULL); break; }
  mc_op(); h = mc_mix(h, params(g, c)); if (post) h = mc_hash(h, vl_gmm_get_posteriors(g), sz*N*c->K); h = mc_hash(h, &LL, 8); if (w < 4) { LL = vl_gmm_get_loglikelihood(g); h = mc_hash(h, &LL, 8); }
  h = mc_mix(h, vl_gmm_get_num_data(g)); h = mc_mix(h, vl_rand_uint32(vl_get_rand())); free(x); return h; }
static void history(void) {
  int depth = MC_BOUND(2, 4, 5), i, w, v, N; Cfg c; Set s = {0, 1, 50, 0, {1e-4, 1e-4}}; VlGMM *g, *f; VlKMeans *u, *u2; long live; int cfg = mc_choose(6); static int const fills[] = {0, 0xff, 0x5a, 0x01}; void *x; char saved[3][128];
  c.f = cfg & 1; c.D = 1 + (cfg >> 1 & 1); c.K = cfg < 4 ? 2 : 3; vl_rand_seed(vl_get_rand(), 3); live = mc_live; u = user_km(&c); u2 = user_km(&c);
  g = vl_gmm_new(c.f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, c.D, c.K); mc_note("%s dim %d K %d", c.f ? "float" : "double", c.D, c.K);
  load(g, &c, 0); s.iters = 4; apply(g, &s, u);
  for (i = 0; i < depth; ++i) { int op = mc_choose(17); VlGMM *k; mc_note("op %d", op); if (op == 0) break;
    switch (op) {
    case 1: s.ini = (s.ini + 1) % 3; apply(g, &s, u); break;
    case 2: s.reps = 3; s.iters = 2; apply(g, &s, u); break;
    case 3: s.lb[0] = 0.5; s.lb[1] = 2; vl_gmm_set_covariance_lower_bounds(g, s.lb); break;
    case 4: s.lb[0] = s.lb[1] = 0.125; vl_gmm_set_covariance_lower_bound(g, 0.125); break;
    case 5: s.user = !s.user; vl_gmm_set_kmeans_init_object(g, s.user ? u : NULL); break;
    case 6: load(g, &c, 1); break;
    case 7: case 8: case 9: x = data(&c, op - 7, &N); vl_gmm_em(g, x, N); free(x); break;
    case 10: case 11: x = data(&c, op - 10, &N); vl_gmm_cluster(g, x, N); free(x); break;
    case 12: x = data(&c, 2, &N); vl_gmm_init_with_kmeans(g, x, N, NULL); free(x); break;
    case 13: x = data(&c, 1, &N); vl_gmm_init_with_rand_data(g, x, N); free(x); break;
    case 14: vl_gmm_reset(g); break;
    case 15: k = vl_gmm_new_copy(g); vl_gmm_delete(g); g = k; s.user = 0; break;
    case 16: { Set t = {1, 2, 3, 0, {7, 8}}; k = vl_gmm_new_copy(g); apply(k, &t, NULL); load(k, &c, 1); x = data(&c, 0, &N); vl_gmm_cluster(k, x, N); free(x); vl_gmm_delete(k); } break; }
    mc_op(); }
  same_settings(g, &s, &c, "after the history"); MC_CHECK("settings", !s.user || vl_gmm_get_kmeans_init_object(g) == u, "the caller's k-means object is no longer set");
  { int sz = (c.f ? 4 : 8); memcpy(saved[0], vl_gmm_get_means(g), sz*c.K*c.D); memcpy(saved[1], vl_gmm_get_covariances(g), sz*c.K*c.D); memcpy(saved[2], vl_gmm_get_priors(g), sz*c.K); }
  for (w = 0; w < NPROBE; ++w) { uint64_t h0 = 0, h;
    for (v = 0; v < 4; ++v) { mc_fill = fills[(w + v) % 4];
      if (v == 0) { f = vl_gmm_new(c.f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, c.D, c.K); apply(f, &s, u); vl_gmm_set_means(f, saved[0]); vl_gmm_set_covariances(f, saved[1]); vl_gmm_set_priors(f, saved[2]); }
      else if (v < 3) { f = vl_gmm_new_copy(g); MC_CHECK("copy", params(f, &c) == params(g, &c) && vl_gmm_get_loglikelihood(f) == vl_gmm_get_loglikelihood(g), "a copy has other parameters"); same_settings(f, &s, &c, "copy"); if (s.user) vl_gmm_set_kmeans_init_object(f, u); }
      else f = g;
      h = probe(f, &c, w, u2); if (v == 0) h0 = h; mc_fill = -1;
      MC_CHECK(v == 3 ? "object" : "copy", h == h0, "probe %d: %s after this history answers differently from a fresh object with its settings and parameters", w, v == 3 ? "the object" : "a copy of the object");
      if (v < 3) vl_gmm_delete(f);
      else { if (w == 6) { vl_gmm_set_kmeans_init_object(g, s.user ? u : NULL); } vl_gmm_set_means(g, saved[0]); vl_gmm_set_covariances(g, saved[1]); vl_gmm_set_priors(g, saved[2]); }
      mc_case(1); }
    mc_state(h0); }
  vl_gmm_delete(g); vl_kmeans_delete(u); vl_kmeans_delete(u2);
  MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live);
}
/* two objects used alternately do not disturb each other */
static void two(void) {
  Cfg c; int i, o[6], n = MC_BOUND(3, 5, 6), N; VlGMM *g[2]; uint64_t h[2]; long live; void *x; double LL; int v; c.f = mc_choose(2); c.D = 1 + mc_choose(2); c.K = 2 + mc_choose(2);
  for (i = 0; i < n; ++i) o[i] = mc_choose(8); vl_get_rand(); live = mc_live;
  for (v = 0; v < 3; ++v) { uint64_t hh[2] = {0, 0}; /* v=0: both interleaved; 1,2: one alone */
    for (i = 0; i < 2; ++i) { g[i] = vl_gmm_new(c.f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, c.D, c.K); load(g[i], &c, i); vl_gmm_set_max_num_iterations(g[i], 3); }
    for (i = 0; i < n; ++i) { int w = o[i] & 1; if (v && w != v - 1) continue; vl_rand_seed(vl_get_rand(), 9 + i); x = data(&c, (o[i] >> 2) + i % 3, &N); vl_gmm_set_initialization(g[w], o[i] & 4 ? VlGMMKMeans : VlGMMRand); LL = o[i] & 2 ? vl_gmm_em(g[w], x, N) : vl_gmm_cluster(g[w], x, N); free(x); mc_op(); hh[w] = mc_hash(mc_mix(hh[w], params(g[w], &c)), &LL, 8); }
    for (i = 0; i < 2; ++i) vl_gmm_delete(g[i]);
    if (v == 0) { h[0] = hh[0]; h[1] = hh[1]; } else MC_CHECK("other", hh[v-1] == h[v-1], "the results of object %d depend on the operations on the other", v - 1); }
  mc_state(mc_mix(h[0], h[1])); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
mc_suite mc_suites[] = {
 {"history", history, "all histories of up to 2/4/5 of 16 operations (settings, bounds, k-means objects, parameters, em, cluster, initialisations, reset, copying) x 6 configurations, then 7 probes on the object, on its copies and on a fresh object with its settings and parameters under 4 memory fill patterns"},
 {"two", two, "all interleavings of 3/5/6 of 8 operations over two objects x float/double x dim x K, against each object alone"},
 {0}};
