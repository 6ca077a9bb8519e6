/* C12: k-means objects against fresh ones: histories, copies, memory contents, seeding. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/kmeans.h>
#include <vl/random.h>
typedef struct { int N, dim; double v[20]; } Data;
static Data const DS[] = {
  {7, 1, {0, 1, 3, 7, 12.5, 13, 1}}, {4, 2, {0,0, 4,1, 1,5, 6,6.5}}, {5, 1, {2, 2, 2, 9, 4}}, {8, 2, {0,0, 1,0, 0,1, 9,9, 9,8, 8,9, -5,4, -5,5}} };
typedef struct { int alg, ini, reps, iters, trees, comps; double var; } Set;
typedef struct { Set s; int f, l1; } Cfg;
static void *enc(int f, double const *v, int n) { void *p = malloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = v[i]; else ((double*)p)[i] = v[i]; return p; }
static VlKMeansAlgorithm const alg[] = {VlKMeansLloyd, VlKMeansElkan, VlKMeansANN};
static void apply(VlKMeans *k, Set const *s) { vl_kmeans_set_algorithm(k, alg[s->alg]); vl_kmeans_set_initialization(k, s->ini ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_num_repetitions(k, s->reps); vl_kmeans_set_max_num_iterations(k, s->iters); vl_kmeans_set_num_trees(k, s->trees); vl_kmeans_set_max_num_comparisons(k, s->comps); vl_kmeans_set_min_energy_variation(k, s->var); }
static void same_settings(VlKMeans *k, Set const *s, int f, int l1, char const *who) {
  MC_CHECK("settings", vl_kmeans_get_algorithm(k) == alg[s->alg] && vl_kmeans_get_initialization(k) == (s->ini ? VlKMeansPlusPlus : VlKMeansRandomSelection) && vl_kmeans_get_num_repetitions(k) == (vl_size)s->reps && vl_kmeans_get_max_num_iterations(k) == (vl_size)s->iters && vl_kmeans_get_num_trees(k) == (vl_size)s->trees && vl_kmeans_get_max_num_comparisons(k) == (vl_size)s->comps && vl_kmeans_get_min_energy_variation(k) == s->var && vl_kmeans_get_distance(k) == (l1 ? VlDistanceL1 : VlDistanceL2) && vl_kmeans_get_data_type(k) == (f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE), "%s: a setting is not the one set", who); }
/* full behaviour of an object: bits of everything it answers to a probe */
static uint64_t probe(VlKMeans *k, int which, int f, Data const *d, void *x) {
  uint64_t h = which; int N = d->N, sz = f ? 4 : 8; vl_uint32 *a = calloc(N, 4); void *dist = calloc(N, sz); double e = 0;
  vl_rand_seed(vl_get_rand(), 77);
  switch (which) {
  case 0: vl_kmeans_quantize(k, a, dist, x, N); break;
  case 1: vl_kmeans_quantize_ann(k, a, dist, x, N, 0); break;
  case 2: vl_kmeans_quantize_ann(k, a, dist, x, N, 1); break;
  case 3: e = vl_kmeans_refine_centers(k, x, N); break;
  case 4: e = vl_kmeans_cluster(k, x, d->dim, N, 3); break;
  case 5: vl_kmeans_init_centers_with_rand_data(k, x, d->dim, N, 2); break;
  case 6: vl_kmeans_init_centers_plus_plus(k, x, d->dim, N, 3); break;
  }
  mc_op();
  h = mc_hash(h, a, 4*N); h = mc_hash(h, dist, sz*N); h = mc_hash(h, &e, 8);
  if (vl_kmeans_get_centers(k)) h = mc_hash(h, vl_kmeans_get_centers(k), sz * vl_kmeans_get_dimension(k) * vl_kmeans_get_num_centers(k));
  h = mc_mix(h, vl_kmeans_get_dimension(k) * 100 + vl_kmeans_get_num_centers(k)); h = mc_mix(h, vl_rand_uint32(vl_get_rand()));
  if (which == 3 || which == 4) { e = vl_kmeans_get_energy(k); h = mc_hash(h, &e, 8); }
  free(a); free(dist); return h;
}
static int run_ops(VlKMeans **kp, Set *s, int f, int depth, int *dim) {
  int i; for (i = 0; i < depth; ++i) { int op = mc_choose(16); VlKMeans *k = *kp; Data const *d = 0; void *x = 0; Set t = *s;
    mc_note("op %d", op);
    switch (op) {
    case 0: return 1; /* end of the history */
    case 1: s->alg = (t.alg + 1) % 3; apply(k, s); break;
    case 2: s->ini = !t.ini; s->reps = 3; apply(k, s); break;
    case 3: s->iters = 1; s->trees = 1; s->comps = 1; s->var = 0.5; apply(k, s); break;
    case 4: vl_kmeans_reset(k); *dim = 0; break;
    case 5: case 6: d = DS + op - 5; x = enc(f, d->v, d->dim*3); vl_kmeans_set_centers(k, x, d->dim, 3); *dim = d->dim; break;
    case 7: case 8: d = DS + op - 7; x = enc(f, d->v, d->dim*d->N); vl_kmeans_cluster(k, x, d->dim, d->N, 2); *dim = d->dim; break;
    case 9: d = DS + 3; x = enc(f, d->v, d->dim*d->N); vl_kmeans_cluster(k, x, d->dim, d->N, 4); *dim = d->dim; break;
    case 10: case 11: d = DS + (op-10 + (*dim == 2)) % 4; if (!*dim) mc_skip(); d = *dim == 1 ? DS + (op == 10 ? 0 : 2) : DS + (op == 10 ? 1 : 3); x = enc(f, d->v, d->dim*d->N); vl_kmeans_refine_centers(k, x, d->N); break;
    case 12: if (!*dim) mc_skip(); d = *dim == 1 ? DS : DS + 1; { vl_uint32 a[8] = {0}; x = enc(f, d->v, d->dim*d->N); vl_kmeans_quantize_ann(k, a, 0, x, d->N, 0); vl_kmeans_quantize(k, a, 0, x, d->N); } break;
    case 13: { VlKMeans *c = vl_kmeans_new_copy(k); vl_kmeans_delete(k); *kp = c; } break; /* go on with a copy */
    case 14: { VlKMeans *c = vl_kmeans_new_copy(k); Set u = *s; u.alg = 1; u.iters = 7; u.ini = !s->ini; d = DS + 2; x = enc(f, d->v, d->dim*d->N); apply(c, &u); vl_kmeans_cluster(c, x, d->dim, d->N, 2); vl_kmeans_delete(c); } break; /* a copy goes its own way */
    case 15: { VlKMeans *c = vl_kmeans_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, VlDistanceL2); d = DS + 1; x = enc(f, d->v, d->dim*d->N); vl_kmeans_cluster(c, x, d->dim, d->N, 2); vl_kmeans_delete(c); } break; /* another object */
    }
    mc_op(); if (x) free(x);
  }
  return 0;
}
static void history(void) {
  int depth = MC_BOUND(3, 4, 5), f, l1, dim = 0, w, fill; Set s = {0, 0, 1, 100, 3, 100, 1e-4}; VlKMeans *k, *g, *p; long live; int cfg = mc_choose(4);
  static int const fills[] = {0, 0xff, 0x5a, 0x01};
  f = cfg & 1; l1 = cfg >> 1; vl_rand_seed(vl_get_rand(), 3); live = mc_live;
  k = vl_kmeans_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, l1 ? VlDistanceL1 : VlDistanceL2);
  mc_note("%s %s", f ? "float" : "double", l1 ? "L1" : "L2");
  run_ops(&k, &s, f, depth, &dim);
  MC_CHECK("shape", (vl_kmeans_get_centers(k) != NULL) == (dim > 0) && (!dim || vl_kmeans_get_dimension(k) == (vl_size)dim), "the object has dimension %d, expected %d", (int)vl_kmeans_get_dimension(k), dim);
  same_settings(k, &s, f, l1, "after the history");
  /* a fresh object with these settings and centers, under other memory contents */
  for (w = 0; w < 7; ++w) { uint64_t h0 = 0, h; Data const *d; void *x; int v;
    if (!dim && w < 4) continue;
    d = dim == 2 ? DS + 3 : DS; x = enc(f, d->v, d->dim*d->N);
    for (v = 0; v < 3; ++v) { mc_fill = fills[(w + v) % 4];
      /* the object itself comes last, as the probes may change it: here through a copy of it */
      if (v == 0) { g = vl_kmeans_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, l1 ? VlDistanceL1 : VlDistanceL2); apply(g, &s); if (dim) vl_kmeans_set_centers(g, vl_kmeans_get_centers(k), dim, vl_kmeans_get_num_centers(k)); }
      else g = vl_kmeans_new_copy(k);
      if (v == 2 && w < 6) same_settings(g, &s, f, l1, "copy");
      if (v == 2 && dim) { p = vl_kmeans_new_copy(g); vl_kmeans_delete(g); g = p; }
      h = probe(g, w, f, d, x); if (v == 0) h0 = h;
      MC_CHECK("copy", h == h0, "probe %d: a copy of the object after this history answers differently from a fresh object with its settings and centers", w);
      vl_kmeans_delete(g); mc_case(1); }
    mc_fill = -1;
    if (w == 3 || w >= 4) { /* changes the object: probe a clone-by-hand for w<last, the object itself at the end */ if (w == 4 || w == 3) { /* keep centers */ void *c = NULL; int nc = vl_kmeans_get_num_centers(k), dd = dim; if (dim) { c = malloc(8*dim*nc); memcpy(c, vl_kmeans_get_centers(k), (f?4:8)*dim*nc); }
        h = probe(k, w, f, d, x); MC_CHECK("object", h == h0, "probe %d: the object after this history answers differently from a fresh object with its settings and centers", w);
        if (c) { vl_kmeans_set_centers(k, c, dd, nc); free(c); } else vl_kmeans_reset(k); }
      else { h = probe(k, w, f, d, x); MC_CHECK("object", h == h0, "probe %d: the object after this history answers differently from a fresh object with its settings", w); if (w == 6) ; else if (dim) { /* restore irrelevant: seeding ignores centers */ } } }
    else { h = probe(k, w, f, d, x); MC_CHECK("object", h == h0, "probe %d: the object after this history answers differently from a fresh object with its settings and centers", w); }
    mc_state(h0); free(x);
  }
  vl_kmeans_delete(k);
  MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live);
}
/* seeding: real data points, as many as requested, distinct while there are distinct points left, every memory content */
static void seeding(void) {
  static double const P[] = {0, 1, 3.5, 7, 12.5}; int N = 1 + mc_choose(MC_BOUND(4, 6, 7)), dim = 1 + mc_choose(2), ids[8], i, k, f, pp, K, seed, l1; double X[16];
  ids[0] = 0; for (i = 1; i < N; ++i) ids[i] = mc_choose(i == 1 ? 2 : 4);
  for (i = 0; i < N; ++i) { X[i*dim] = P[ids[i]]; if (dim > 1) X[i*dim+1] = (ids[i]*3) % 4; }
  { int distinct = 0, seen[5] = {0}; for (i = 0; i < N; ++i) if (!seen[ids[i]]++) ++distinct;
  for (f = 0; f < 2; ++f) for (l1 = 0; l1 < 2; ++l1) { void *x = enc(f, X, N*dim); for (pp = 0; pp < 2; ++pp) for (K = 1; K <= (pp ? 5 : N); ++K) for (seed = 0; seed < MC_BOUND(2, 4, 16); ++seed) { long live;
    VlKMeans *km; int used[5] = {0}, nd = 0; uint64_t h[2]; int v; vl_get_rand(); live = mc_live;
    mc_note("%s N %d dim %d K %d seed %d %s", f ? "float" : "double", N, dim, K, seed, pp ? "k-means++" : "random");
    for (v = 0; v < 2; ++v) { mc_fill = v ? 0xff : 0; km = vl_kmeans_new(f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, l1 ? VlDistanceL1 : VlDistanceL2);
      vl_rand_seed(vl_get_rand(), 1000 + seed); if (pp) vl_kmeans_init_centers_plus_plus(km, x, dim, N, K); else vl_kmeans_init_centers_with_rand_data(km, x, dim, N, K); mc_op();
      MC_CHECK("count", vl_kmeans_get_num_centers(km) == (vl_size)K && vl_kmeans_get_dimension(km) == (vl_size)dim, "%d centers requested, %d made", K, (int)vl_kmeans_get_num_centers(km));
      h[v] = mc_hash(K, vl_kmeans_get_centers(km), (f?4:8)*K*dim);
      if (v == 0) for (k = 0; k < K; ++k) { char const *c = (char const*)vl_kmeans_get_centers(km) + (f?4:8)*k*dim; int which = -1; for (i = 0; i < N; ++i) if (!memcmp(c, (char*)x + (f?4:8)*i*dim, (f?4:8)*dim)) which = ids[i]; MC_CHECK("datum", which >= 0, "center %d is not a data point", k); if (!used[which]++) ++nd; }
      vl_kmeans_delete(km); }
    mc_fill = -1;
    MC_CHECK("memory", h[0] == h[1], "the seeding depends on the contents of fresh memory");
    MC_CHECK("distinct", nd == (K < distinct ? K : distinct) || (!pp && 0), "%d distinct centers out of %d although the data has %d distinct points", nd, K, distinct);
    MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live);
    mc_state(h[0]); mc_case(1); } free(x); } }
}
mc_suite mc_suites[] = {
 {"history", history, "all histories of up to 3/4/5 of 15 operations (settings, reset, set_centers, cluster, refine, quantise, copying, other objects) x float/double x L1/L2, then 7 probes on the object, on its copies and on a fresh object under 4 memory fill patterns"},
 {"seeding", seeding, "all sequences of up to 4/6/7 points from 4 positions x dim 1,2 x all center counts x both seedings x 2/4/16 seeds x float/double x L1/L2"},
 {0}};
