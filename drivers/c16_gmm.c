/* C16: GMM training is EM: each iteration against a reference E and M step; best of repetitions; initialisations. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/gmm.h>
#include <vl/random.h>
#define MAXN 64
#define MAXK 4
#define MAXD 10
#define THR 1e-2      /* associations smaller than this over K may be ignored by the M step */
typedef struct { int f, N, K, D; double X[MAXN*MAXD]; double lb[MAXD]; } P;
typedef struct { double m[MAXK*MAXD], c[MAXK*MAXD], p[MAXK], q[MAXN*MAXK], LL; } St;
static double at(int f, void const *v, int i) { return f ? ((float const*)v)[i] : ((double const*)v)[i]; }
static void *enc(int f, double const *v, int n) { void *p = malloc((f ? 4 : 8) * (n + 1)); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = (float)v[i]; else ((double*)p)[i] = v[i]; return p; }
static void *encx(int f, double const *v, int n) { void *p = mc_galloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = (float)v[i]; else ((double*)p)[i] = v[i]; return p; }
static double rd(int f, double x) { return f ? (double)(float)x : x; }
static void get(P const *p, VlGMM *g, St *s, int post) { int i; memset(s, 0, sizeof *s);
  for (i = 0; i < p->K*p->D; ++i) { s->m[i] = at(p->f, vl_gmm_get_means(g), i); s->c[i] = at(p->f, vl_gmm_get_covariances(g), i); }
  for (i = 0; i < p->K; ++i) s->p[i] = at(p->f, vl_gmm_get_priors(g), i);
  if (post) for (i = 0; i < p->N*p->K; ++i) s->q[i] = at(p->f, vl_gmm_get_posteriors(g), i);
  s->LL = vl_gmm_get_loglikelihood(g); }
/* reference E step; mag: magnitude of the exponents, for the tolerance */
static void estep(P const *p, St *s, double *mag) { int i, k, d; s->LL = 0; *mag = 1;
  for (i = 0; i < p->N; ++i) { double e[MAXK], mx = -INFINITY, sum = 0;
    for (k = 0; k < p->K; ++k) { e[k] = s->p[k] < 1e-6 ? -INFINITY : log(s->p[k]); for (d = 0; d < p->D; ++d) { double df = p->X[i*p->D+d] - s->m[k*p->D+d], c = s->c[k*p->D+d]; e[k] -= 0.5*log(2*M_PI*c) + 0.5*df*df/c; } if (e[k] > mx) mx = e[k]; if (isfinite(e[k]) && fabs(e[k]) > *mag && e[k] > mx - 60) *mag = fabs(e[k]); }
    if (fabs(mx) > *mag) *mag = fabs(mx);
    for (k = 0; k < p->K; ++k) { e[k] = exp(e[k] - mx); sum += e[k]; }
    s->LL += mx + log(sum); for (k = 0; k < p->K; ++k) s->q[i*p->K+k] = e[k] / sum; } }
/* reference M step on the posteriors of s; thr: smallest association used */
static int mstep(P const *p, St const *s, St *o, double thr) { int i, k, d, bounded = 0; double tot = 0; memset(o, 0, sizeof *o);
  for (k = 0; k < p->K; ++k) { double m = 0;
    for (i = 0; i < p->N; ++i) { double q = s->q[i*p->K+k]; if (q < thr) continue; m += q; for (d = 0; d < p->D; ++d) o->m[k*p->D+d] += q * p->X[i*p->D+d]; }
    if (m > 0) for (d = 0; d < p->D; ++d) o->m[k*p->D+d] /= m;
    for (i = 0; i < p->N; ++i) { double q = s->q[i*p->K+k]; if (q < thr) continue; for (d = 0; d < p->D; ++d) { double df = p->X[i*p->D+d] - o->m[k*p->D+d]; o->c[k*p->D+d] += q * df * df; } }
    for (d = 0; d < p->D; ++d) { if (m > 0) o->c[k*p->D+d] /= m; if (o->c[k*p->D+d] < p->lb[d]) { o->c[k*p->D+d] = p->lb[d]; bounded = 1; } }
    o->p[k] = m; tot += m; }
  for (k = 0; k < p->K; ++k) o->p[k] /= tot > 1e-12 ? tot : 1e-12;
  return bounded; }
static double rangeof(P const *p) { double lo = 0, hi = 0; int i; for (i = 0; i < p->N*p->D; ++i) { if (p->X[i] < lo) lo = p->X[i]; if (p->X[i] > hi) hi = p->X[i]; } return hi - lo + 1; }
static int same_params(P const *p, St const *a, St const *b, double *worst, char const **what) { int k, d; double r = rangeof(p), tm = (p->f ? 2e-5 : 1e-9) * r, tc = (p->f ? 2e-5 : 1e-9) * r * r, tp = p->f ? 2e-5 : 1e-9; *what = "";
  for (k = 0; k < p->K; ++k) { if (!mc_close(a->p[k], b->p[k], tp, 0)) { *what = "prior"; worst[0] = a->p[k]; worst[1] = b->p[k]; return 0; }
    if (b->p[k] * p->N < 1e-4) continue; /* a mode without mass has no mean */
    for (d = 0; d < p->D; ++d) { if (!mc_close(a->m[k*p->D+d], b->m[k*p->D+d], tm, 0)) { *what = "mean"; worst[0] = a->m[k*p->D+d]; worst[1] = b->m[k*p->D+d]; return 0; }
      if (!mc_close(a->c[k*p->D+d], b->c[k*p->D+d], tc, 1e-5)) { *what = "variance"; worst[0] = a->c[k*p->D+d]; worst[1] = b->c[k*p->D+d]; return 0; } } }
  return 1; }
/* what must hold of the state reported after any training */
static void invariants(P const *p, St const *s, char const *who) { int i, k, d; double sum = 0, mag; St e = *s;
  for (k = 0; k < p->K; ++k) { sum += s->p[k]; MC_CHECK("priors", s->p[k] >= 0, "%s: prior %g", who, s->p[k]); for (d = 0; d < p->D; ++d) { MC_CHECK("bound", s->c[k*p->D+d] >= rd(p->f, p->lb[d]), "%s: variance %g below its bound %g", who, s->c[k*p->D+d], p->lb[d]); MC_CHECK("finite", isfinite(s->m[k*p->D+d]) && isfinite(s->c[k*p->D+d]), "%s: mean or variance not finite", who); } }
  MC_CHECK("priors", fabs(sum - 1) < 1e-5, "%s: priors sum to %.9g", who, sum);
  estep(p, &e, &mag);
  for (i = 0; i < p->N; ++i) { sum = 0; for (k = 0; k < p->K; ++k) { sum += s->q[i*p->K+k]; MC_CHECK("posterior", mc_close(s->q[i*p->K+k], e.q[i*p->K+k], (p->f ? 1e-6 : 1e-14) * 10 * mag, 0), "%s: posterior of datum %d in mode %d is %.9g, the parameters give %.9g", who, i, k, s->q[i*p->K+k], e.q[i*p->K+k]); }
    MC_CHECK("posteriors", fabs(sum - 1) < 1e-5, "%s: the posteriors of datum %d sum to %g", who, i, sum); }
  MC_CHECK("likelihood", mc_close(s->LL, e.LL, (p->f ? 1e-6 : 1e-13) * 4 * mag * p->N, 1e-6), "%s: log-likelihood reported %.9g, of the parameters %.9g", who, s->LL, e.LL); }
static VlGMM *make(P const *p, double const *m, double const *c, double const *pr, int iters) { VlGMM *g = vl_gmm_new(p->f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, p->D, p->K); void *t;
  vl_gmm_set_covariance_lower_bounds(g, p->lb); vl_gmm_set_max_num_iterations(g, iters); vl_gmm_set_initialization(g, VlGMMCustom);
  t = encx(p->f, m, p->K*p->D); vl_gmm_set_means(g, t); mc_gfree(t); t = encx(p->f, c, p->K*p->D); vl_gmm_set_covariances(g, t); mc_gfree(t); t = encx(p->f, pr, p->K); vl_gmm_set_priors(g, t); mc_gfree(t); return g; }
/* iterate from given parameters, checking each transition */
static void iterate(P *p, double const *m, double const *c, double const *pr, int depth, int viacluster) {
  static St s[12]; int n, i, k, conv = 0; long live; void *x; double mag;
  for (i = 0; i < p->N*p->D; ++i) p->X[i] = rd(p->f, p->X[i]);
  vl_get_rand(); live = mc_live; x = encx(p->f, p->X, p->N*p->D);
  for (n = 0; n <= depth; ++n) { VlGMM *g = make(p, m, c, pr, n); double ret = viacluster ? vl_gmm_cluster(g, x, p->N) : vl_gmm_em(g, x, p->N); char who[40]; mc_op();
    get(p, g, s + n, 1); sprintf(who, "after %d iterations", n);
    MC_CHECK("returned", ret == s[n].LL, "%s: the likelihood returned, %.9g, is not the one kept, %.9g", who, ret, s[n].LL);
    MC_CHECK("numdata", vl_gmm_get_num_data(g) == (vl_size)p->N, "number of data %d", (int)vl_gmm_get_num_data(g));
    vl_gmm_delete(g); invariants(p, s + n, who);
    if (n == 0) { St z; memset(&z, 0, sizeof z); for (i = 0; i < p->K*p->D; ++i) { z.m[i] = rd(p->f, m[i]); z.c[i] = rd(p->f, c[i] < p->lb[i % p->D] ? p->lb[i % p->D] : c[i]); } for (k = 0; k < p->K; ++k) z.p[k] = rd(p->f, pr[k]);
      for (i = 0; i < p->K*p->D; ++i) MC_CHECK("initial", s->m[i] == z.m[i] && s->c[i] == z.c[i], "the parameters given (with bounds) are not the ones used without iterations"); for (k = 0; k < p->K; ++k) MC_CHECK("initial", s->p[k] == z.p[k], "prior %d changed without iterations", k); }
    else { St r0, r1; double w[2], eps = n >= 2 ? fabs((s[n-1].LL - s[n-2].LL) / s[n-1].LL) : 1; char const *what; int restart = 0, bnd, negl = 0; double mass[MAXK] = {0}, ftol = p->f ? 1e-6 : 1e-12;
      estep(p, &(St){0}, &mag);
      for (i = 0; i < p->N; ++i) for (k = 0; k < p->K; ++k) { mass[k] += s[n-1].q[i*p->K+k]; if (s[n-1].q[i*p->K+k] < 1.001*THR / p->K) negl = 1; }
      for (k = 0; k < p->K; ++k) if (n - 1 > 1 && p->K > 1 && mass[k] < 1.01 * THR * (p->N > p->K ? (double)p->N / p->K : 1)) restart = 1;
      if (conv || eps < 1e-5 * 0.9) { conv = 1; for (i = 0; i < p->K*p->D; ++i) if (s[n].m[i] != s[n-1].m[i] || s[n].c[i] != s[n-1].c[i]) break; MC_CHECK("converged", i == p->K*p->D, "parameters move after the likelihood has converged (iteration %d, relative change %g)", n, eps); }
      else if (eps < 1e-5 * 1.1 + ftol) { if (s[n].LL == s[n-1].LL) conv = 1; }
      else if (!restart) { bnd = mstep(p, s + n-1, &r0, THR / p->K); mstep(p, s + n-1, &r1, 0);
        if (!same_params(p, s + n, &r0, w, &what) && !same_params(p, s + n, &r1, w, &what)) { St r2; int ok; mstep(p, s+n-1, &r2, THR / p->K * 1.001); ok = same_params(p, s + n, &r2, w, &what); if (!ok) { mstep(p, s+n-1, &r2, THR / p->K * 0.999); ok = same_params(p, s+n, &r2, w, &what); }
          MC_CHECK("mstep", ok, "iteration %d: %s %.9g, the maximisation step gives %.9g", n, what, w[0], w[1]); }
        if (!bnd && !negl) MC_CHECK("monotone", s[n].LL >= s[n-1].LL - 1e-9 - (p->f ? 1e-5 : 1e-11) * (fabs(s[n].LL) + p->N), "iteration %d: the likelihood decreases from %.9g to %.9g", n, s[n-1].LL, s[n].LL); } }
    mc_state(mc_hash(n, &s[n].LL, 8)); }
  mc_gfree(x); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); mc_case(1); }
static double const V[] = {0, 1, 3.5, 7, 12.5, -4};
static void steps(void) {
  P p; int N = 1 + mc_choose(MC_BOUND(3, 5, 6)), i, k, d, mi, ci, pi, bi, ids[8]; memset(&p, 0, sizeof p); p.N = N;
  for (i = 0; i < N; ++i) { ids[i] = mc_choose(i ? (i < 4 ? 4 : 2) : 1); }
  for (p.D = 1; p.D <= 2; ++p.D) { for (i = 0; i < N; ++i) { p.X[i*p.D] = V[ids[i]]; if (p.D > 1) p.X[i*p.D+1] = (ids[i]*3) % 4 + i*0.25; }
  for (p.K = 1; p.K <= 3; ++p.K) for (mi = 0; mi < 3; ++mi) for (ci = 0; ci < 2; ++ci) for (pi = 0; pi < 3; ++pi) for (bi = 0; bi < 2; ++bi) for (p.f = 0; p.f < 2; ++p.f) { double m[8], c[8], pr[4], ps = 0; P q = p;
    if ((mi + ci + pi + bi + p.f) % MC_BOUND(5, 2, 1)) continue;
    for (d = 0; d < p.D; ++d) q.lb[d] = bi ? (d ? 0.05 : 0.3) : 1e-4;
    for (k = 0; k < p.K; ++k) { for (d = 0; d < p.D; ++d) { m[k*p.D+d] = mi == 0 ? p.X[(k % N)*p.D+d] + 0.125*k : mi == 1 ? k*3.0 - d : -2.0 + 5*k + d; c[k*p.D+d] = ci ? 0.2 + k + 4*d : 6.25; } pr[k] = pi == 0 ? 1.0 : pi == 1 ? 1 + 3*k : (k == 1 ? 0 : 2 + k); ps += pr[k]; }
    for (k = 0; k < p.K; ++k) pr[k] /= ps;
    mc_note("%s N %d dim %d K %d means %d cov %d priors %d bounds %d", p.f ? "float" : "double", N, p.D, p.K, mi, ci, pi, bi);
    iterate(&q, m, c, pr, MC_BOUND(4, 5, 9), (mi + bi) & 1); } } }
static void wide(void) {
  P p; int i, k, simd, v; memset(&p, 0, sizeof p); p.D = 1 + mc_choose(9); p.K = 1 + mc_choose(4); p.N = (int[]){2, 5, 13, 30}[mc_choose(4)]; v = mc_choose(MC_TIER(3, 8));
  for (simd = 0; simd < 2; ++simd) for (p.f = 0; p.f < 2; ++p.f) { double m[MAXK*MAXD], c[MAXK*MAXD], pr[MAXK]; uint32_t s = 77*v + p.N; for (i = 0; i < p.N*p.D; ++i) p.X[i] = (mc_lcg(&s) % 1000) / 100.0 + (v % 2 ? 0 : (i / p.D % 3) * 20);
    vl_set_simd_enabled(simd); for (i = 0; i < p.D; ++i) p.lb[i] = 1e-3 * (i + 1);
    for (k = 0; k < p.K; ++k) { pr[k] = 1.0 / p.K; for (i = 0; i < p.D; ++i) { m[k*p.D+i] = p.X[(k % p.N)*p.D+i] + k; c[k*p.D+i] = 30 + i; } }
    mc_note("%s N %d dim %d K %d simd %d", p.f ? "float" : "double", p.N, p.D, p.K, simd);
    iterate(&p, m, c, pr, 4, 0); vl_set_simd_enabled(1); } }
/* cluster(): initialisations and repetitions */
static void best(void) {
  P p; int N = 2 + mc_choose(MC_BOUND(3, 5, 6)), i, ini, R, seed, bi, ids[8]; memset(&p, 0, sizeof p); p.N = N; for (i = 0; i < N; ++i) ids[i] = mc_choose(i ? (i < 4 ? 4 : 2) : 1);
  for (p.D = 1; p.D <= 2; ++p.D) { for (i = 0; i < N; ++i) { p.X[i*p.D] = V[ids[i]]; if (p.D > 1) p.X[i*p.D+1] = (ids[i]*3) % 4 + i*0.25; }
  for (p.K = 1; p.K <= 3; ++p.K) for (ini = 0; ini < 3; ++ini) for (R = 1; R <= 3; ++R) for (seed = 0; seed < MC_BOUND(1, 2, 6); ++seed) for (bi = 0; bi < 2; ++bi) for (p.f = 0; p.f < 2; ++p.f) { P q = p; VlGMM *g, *h; St a, b, s; void *x; int r, d, where = 0; long live; double ret; VlKMeans *km = NULL; char const *what; double w[2]; double m[8], c[8], pr[4];
    if ((R + bi + p.f + seed) % MC_BOUND(4, 2, 1)) continue; if (N < p.K) continue;
    for (i = 0; i < N*p.D; ++i) q.X[i] = rd(p.f, q.X[i]); for (d = 0; d < p.D; ++d) q.lb[d] = bi ? 0.3 : 1e-3;
    vl_get_rand(); live = mc_live; x = encx(p.f, q.X, N*p.D);
    mc_note("%s N %d dim %d K %d init %d repetitions %d seed %d", p.f ? "float" : "double", N, p.D, p.K, ini, R, seed);
    for (i = 0; i < p.K*p.D; ++i) { m[i] = i * 2.5; c[i] = 3; } for (i = 0; i < p.K; ++i) pr[i] = 1.0 / p.K;
    g = make(&q, m, c, pr, 6); h = make(&q, m, c, pr, 6);
    vl_gmm_set_initialization(g, ini == 0 ? VlGMMRand : ini == 1 ? VlGMMKMeans : VlGMMCustom); vl_gmm_set_num_repetitions(g, R);
    if (ini == 1 && bi) { km = vl_kmeans_new(p.f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, VlDistanceL2); vl_kmeans_set_max_num_iterations(km, 2); vl_gmm_set_kmeans_init_object(g, km); MC_CHECK("kmeans", vl_gmm_get_kmeans_init_object(g) == km, "the k-means object set is not the one got"); }
    vl_rand_seed(vl_get_rand(), 400 + seed); ret = vl_gmm_cluster(g, x, N); mc_op(); get(&q, g, &a, 1);
    MC_CHECK("returned", ret == a.LL, "the likelihood returned, %.9g, is not the one kept, %.9g", ret, a.LL);
    if (km) MC_CHECK("kmeans", vl_gmm_get_kmeans_init_object(g) == km && vl_kmeans_get_centers(km), "the caller's k-means object was not used");
    invariants(&q, &a, "after clustering");
    /* the same runs one by one */
    vl_rand_seed(vl_get_rand(), 400 + seed);
    for (r = 0; r < (ini == 2 ? 1 : R); ++r) { St st; int k;
      if (ini == 0) { vl_gmm_init_with_rand_data(h, x, N); get(&q, h, &st, 0);
        for (k = 0; k < q.K; ++k) { int hit = 0; MC_CHECK("init", mc_close(st.p[k], 1.0 / q.K, 1e-7, 0), "random initialisation: prior %g", st.p[k]); for (i = 0; i < N; ++i) { for (d = 0; d < q.D && st.m[k*q.D+d] == q.X[i*q.D+d]; ++d); if (d == q.D) hit = 1; } MC_CHECK("init", hit, "random initialisation: mean %d is not a data point", k);
          for (d = 0; d < q.D; ++d) { double mu = 0, v = 0; for (i = 0; i < N; ++i) mu += q.X[i*q.D+d] / N; for (i = 0; i < N; ++i) v += (q.X[i*q.D+d]-mu)*(q.X[i*q.D+d]-mu) / (N - 1); MC_CHECK("init", mc_close(st.c[k*q.D+d], v, 1e-5, 1e-5), "random initialisation: variance %g, of the data %g", st.c[k*q.D+d], v); } } }
      if (ini == 1) { vl_uint32 as[8]; St hard, ref; vl_gmm_init_with_kmeans(h, x, N, km); get(&q, h, &st, 0); vl_kmeans_quantize(vl_gmm_get_kmeans_init_object(h), as, NULL, x, N); memset(&hard, 0, sizeof hard); for (i = 0; i < N; ++i) hard.q[i*q.K+as[i]] = 1; mstep(&q, &hard, &ref, 0);
        MC_CHECK("init", same_params(&q, &st, &ref, w, &what), "k-means initialisation: %s %.9g, of the clusters %.9g", what, w[0], w[1]); }
      vl_gmm_em(h, x, N); get(&q, h, &s, 1); if (r == 0 || s.LL > b.LL) { b = s; where = r; } }
    MC_CHECK("best", mc_close(a.LL, b.LL, 1e-9, 1e-9), "clustering keeps a likelihood %.12g, the best of its %d runs (number %d) has %.12g", a.LL, R, where, b.LL);
    MC_CHECK("best", same_params(&q, &a, &b, w, &what), "clustering keeps a %s %.9g, the best of its %d runs (number %d) has %.9g", what, w[0], R, where, w[1]);
    mc_state(mc_hash(R, &a.LL, 8)); vl_gmm_delete(g); vl_gmm_delete(h); if (km) vl_kmeans_delete(km); mc_gfree(x); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); mc_case(1); } } }
/* posteriors function on its own */
static void posteriors(void) {
  P p; int i, k, v; memset(&p, 0, sizeof p); p.D = 1 + mc_choose(9); p.K = 1 + mc_choose(3); p.N = 1 + mc_choose(3);
  for (v = 0; v < MC_TIER(27, 81); ++v) for (p.f = 0; p.f < 2; ++p.f) { St s, e; double mag; void *x, *m, *c, *q, *w; double LL; memset(&s, 0, sizeof s);
    for (i = 0; i < p.N*p.D; ++i) p.X[i] = rd(p.f, V[(i*(v % 3 + 1) + v) % 6]); for (k = 0; k < p.K; ++k) { s.p[k] = rd(p.f, v % 9 < 3 ? 1.0 / p.K : v % 9 < 6 ? (k + 1.0) * 2 / (p.K * (p.K + 1.0)) : k == 0 ? 0 : 1.0 / (p.K > 1 ? p.K - 1 : 1)); if (p.K == 1) s.p[k] = 1; for (i = 0; i < p.D; ++i) { s.m[k*p.D+i] = rd(p.f, V[(k + i + v/3) % 6]); s.c[k*p.D+i] = rd(p.f, (double[]){0.5, 4, 100, 1e-3}[(k + i + v/9) % 4]); } }
    x = encx(p.f, p.X, p.N*p.D); m = encx(p.f, s.m, p.K*p.D); c = encx(p.f, s.c, p.K*p.D); w = encx(p.f, s.p, p.K); q = mc_galloc((p.f ? 4 : 8) * p.N * p.K);
    vl_set_simd_enabled(v & 1); LL = p.f ? vl_get_gmm_data_posteriors_f(q, p.K, p.N, w, m, p.D, c, x) : vl_get_gmm_data_posteriors_d(q, p.K, p.N, w, m, p.D, c, x); vl_set_simd_enabled(1); mc_op();
    e = s; estep(&p, &e, &mag); mc_note("%s dim %d K %d N %d v %d", p.f ? "float" : "double", p.D, p.K, p.N, v);
    for (i = 0; i < p.N*p.K; ++i) { double tol = (p.f ? 1e-6 : 1e-14) * 10 * mag; if (tol < 0.2) MC_CHECK("posterior", mc_close(at(p.f, q, i), e.q[i], tol, 0), "posterior %d is %.9g, expected %.9g", i, at(p.f, q, i), e.q[i]); }
    MC_CHECK("likelihood", mc_close(LL, e.LL, (p.f ? 1e-6 : 1e-13) * 4 * mag * p.N, 1e-6), "likelihood %.9g, expected %.9g", LL, e.LL);
    mc_gfree(x); mc_gfree(m); mc_gfree(c); mc_gfree(w); mc_gfree(q); mc_case(1); mc_state(mc_hash(v, &LL, 8)); } }
mc_suite mc_suites[] = {
 {"steps", steps, "all sequences of up to 3/5/6 data from 4 positions x dim 1,2 x K 1..3 x 3 initial means x 2 variances x 3 priors (one with a null prior) x 2 bounds x float/double (a fixed subset of the settings unless thorough); every iteration from 0 to 4/5/9 compared with a reference E and M step", 0},
 {"wide", wide, "dimensions 1..9 x K 1..4 x N in {2,5,13,30} x 3/8 data sets x SIMD on/off x float/double, iterations 0..4"},
 {"best", best, "all sequences of 2..4/6/7 data from 4 positions x dim 1,2 x K 1..3 x 3 initialisations x 1..3 repetitions x seeds x bounds x float/double, against the same runs made one by one"},
 {"posteriors", posteriors, "dimensions 1..9 x K 1..3 x N 1..3 x 27/81 parameter sets x float/double x SIMD"},
 {0}};
