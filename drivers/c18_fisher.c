/* C18: Fisher vectors against the closed form, every flag combination. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/fisher.h>
#include <vl/mathop.h>
typedef struct { int f, N, K, D; double X[256], m[64], c[64], p[8]; } P;
static double at(int f, void const *v, int i) { return f ? ((float const*)v)[i] : ((double const*)v)[i]; }
static void *encx(int f, double const *v, int n) { void *p = mc_galloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = (float)v[i]; else ((double*)p)[i] = v[i]; return p; }
static double rd(int f, double x) { return f ? (double)(float)x : x; }
static void rnd(P *p) { int i; for (i = 0; i < p->N*p->D; ++i) p->X[i] = rd(p->f, p->X[i]); for (i = 0; i < p->K*p->D; ++i) { p->m[i] = rd(p->f, p->m[i]); p->c[i] = rd(p->f, p->c[i]); } for (i = 0; i < p->K; ++i) p->p[i] = rd(p->f, p->p[i]); }
static void one(P const *p) {
  int i, k, d, fl, L = 2*p->D*p->K, sz = p->f ? 4 : 8, fast; void *x, *m, *c, *w, *enc; double q[64], mag = 1;
  x = encx(p->f, p->X, p->N*p->D); m = encx(p->f, p->m, p->K*p->D); c = encx(p->f, p->c, p->K*p->D); w = encx(p->f, p->p, p->K);
  for (i = 0; i < p->N; ++i) { double e[8], mx = -INFINITY, sum = 0;
    for (k = 0; k < p->K; ++k) { e[k] = p->p[k] < 1e-6 ? -INFINITY : log(p->p[k]); for (d = 0; d < p->D; ++d) { double df = p->X[i*p->D+d] - p->m[k*p->D+d], v = p->c[k*p->D+d]; e[k] -= 0.5*log(2*M_PI*v) + 0.5*df*df/v; } if (e[k] > mx) mx = e[k]; }
    for (k = 0; k < p->K; ++k) { if (e[k] > mx - 60 && fabs(e[k]) > mag) mag = fabs(e[k]); e[k] = exp(e[k] - mx); sum += e[k]; } for (k = 0; k < p->K; ++k) q[i*p->K+k] = e[k] / sum; }
  for (fast = 0; fast < 2; ++fast) { double g[128], n2 = 0, n1 = 0, big = 0, eps = (p->f ? 1e-6 : 1e-14) * 20 * mag; int tmin = 0, tmax = 0, amb = 0;
    double qq[64]; memcpy(qq, q, sizeof q);
    if (fast) for (i = 0; i < p->N; ++i) { int b = 0; for (k = 1; k < p->K; ++k) if (q[i*p->K+k] > q[i*p->K+b]) b = k; for (k = 0; k < p->K; ++k) if (k != b && q[i*p->K+k] > q[i*p->K+b] - 2*eps) amb = 1; for (k = 0; k < p->K; ++k) qq[i*p->K+k] = k == b; }
    if (amb) continue;
    memset(g, 0, sizeof g);
    for (k = 0; k < p->K; ++k) { if (p->p[k] < 1e-6) continue;
      for (i = 0; i < p->N; ++i) { double r = qq[i*p->K+k]; tmin += r > 1e-6 + eps; tmax += r > 1e-6 - eps; for (d = 0; d < p->D; ++d) { double z = (p->X[i*p->D+d] - p->m[k*p->D+d]) / sqrt(p->c[k*p->D+d]), a; g[k*p->D+d] += r * z / (p->N*sqrt(p->p[k])); g[(p->K+k)*p->D+d] += r * (z*z - 1) / (p->N*sqrt(2*p->p[k])); a = (fabs(z) + z*z) / sqrt(p->p[k]) * (r > 1e-7 ? 1 : 0); if (a > big) big = a; if (r < 2e-6) { a = (fabs(z)+z*z) * r / sqrt(p->p[k]) / (1e-5); if (a > big) big = a; } } } }
    for (i = 0; i < L; ++i) { n2 += g[i]*g[i]; n1 += fabs(g[i]); }
    for (fl = 0; fl < 4; ++fl) { int flags = (fl & 1 ? VL_FISHER_FLAG_SQUARE_ROOT : 0) | (fl & 2 ? VL_FISHER_FLAG_NORMALIZED : 0) | (fast ? VL_FISHER_FLAG_FAST : 0), v; double nn = 0, tol = (eps + 1e-5) * (big + 1) * 0.02 + (p->f ? 1e-5 : 1e-9) * (big + 1); vl_size terms; uint64_t h[2];
      if (fl == 3) flags = VL_FISHER_FLAG_IMPROVED | (fast ? VL_FISHER_FLAG_FAST : 0);
      if (!p->f) tol = (eps + 3e-6) * (big + 1) ;
      for (v = 0; v < 2; ++v) { enc = mc_galloc(sz*L); memset(enc, v ? 0x7f : 0xff, sz*L); mc_fill = v ? 0xff : 0x00; terms = vl_fisher_encode(enc, p->f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, m, p->D, p->K, c, w, x, p->N, flags); mc_fill = -1; mc_op(); h[v] = mc_hash(terms, enc, sz*L);
        if (v == 0) {
          MC_CHECK("terms", (int)terms >= tmin && (int)terms <= tmax, "flags %d: %d terms reported, %d assignments used", flags, (int)terms, tmin);
          for (i = 0; i < L; ++i) { double e = at(p->f, enc, i), want = g[i], got = e; nn += e*e;
            if (fl & 1) got = e*fabs(e);
            if (fl & 2) { if (n2 < 1e-8 || (n1 < 1e-4)) { MC_CHECK("finite", isfinite(e) && fabs(e) <= 1 + 1e-5, "flags %d: component %d is %g", flags, i, e); continue; } want /= (fl & 1) ? n1 : sqrt(n2); }
            if (p->p[(i / p->D) % p->K] < 1e-6) MC_CHECK("nullprior", e == 0, "flags %d: component %d of a mode with null prior is %g", flags, i, e);
            MC_CHECK("value", mc_close(got, want, tol / ((fl & 2) ? ((fl & 1) ? n1 : sqrt(n2)) * 0.5 : 1), 1e-4), "flags %d: component %d is %.9g, expected %.9g", flags, i, got, want); }
          if ((fl & 2) && n2 > 1e-8 && n1 > 1e-4) MC_CHECK("norm", fabs(nn - 1) < 1e-5, "flags %d: squared norm %.9g", flags, nn); }
        mc_gfree(enc); }
      MC_CHECK("overwritten", h[0] == h[1], "flags %d: the encoding depends on the previous contents of the vector or on fresh memory", flags);
      mc_case(1); mc_state(h[0]); } }
  mc_gfree(x); mc_gfree(m); mc_gfree(c); mc_gfree(w); }
static double const V[] = {0, 1.5, -2, 4, 0.25};
static void small(void) {
  P p; int N = mc_choose(MC_BOUND(4, 5, 6)), i, k, d, ids[8], mi, ci, pi; memset(&p, 0, sizeof p); p.N = N; for (i = 0; i < N; ++i) ids[i] = mc_choose(5);
  { long live; vl_get_rand(); live = mc_live;
  for (p.D = 1; p.D <= 2; ++p.D) for (p.K = 1; p.K <= 3; ++p.K) for (mi = 0; mi < 2; ++mi) for (ci = 0; ci < 2; ++ci) for (pi = 0; pi < 3; ++pi) for (p.f = 0; p.f < 2; ++p.f) { P r; double s = 0; if ((mi + ci + pi + p.f) % MC_BOUND(4, 1, 1)) continue; 
    r = p; for (i = 0; i < N; ++i) for (d = 0; d < p.D; ++d) r.X[i*p.D+d] = V[(ids[i] + d*(i+1)) % 5];
    for (k = 0; k < p.K; ++k) { for (d = 0; d < p.D; ++d) { r.m[k*p.D+d] = mi ? 1.5*k - d : V[(k+d) % 5]; r.c[k*p.D+d] = ci ? 0.5 + k + 2*d : 2; } r.p[k] = pi == 0 ? 1 : pi == 1 ? 1 + 3*k : k == 1 ? 0 : 1 + k; s += r.p[k]; } for (k = 0; k < p.K; ++k) r.p[k] /= s;
    rnd(&r); mc_note("%s N %d dim %d K %d means %d cov %d priors %d", p.f ? "float" : "double", N, p.D, p.K, mi, ci, pi); one(&r); }
  MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); } }
static void wide(void) {
  P p; int i, k, v, simd; memset(&p, 0, sizeof p); p.D = 1 + mc_choose(9); p.K = 1 + mc_choose(4); p.N = 1 + mc_choose(12); v = mc_choose(MC_TIER(3, 12));
  for (simd = 0; simd < 2; ++simd) for (p.f = 0; p.f < 2; ++p.f) { uint32_t s = 5*v + 1; double t = 0; for (i = 0; i < p.N*p.D; ++i) p.X[i] = (mc_lcg(&s) % 1000) / 200.0; for (i = 0; i < p.K*p.D; ++i) { p.m[i] = (mc_lcg(&s) % 1000) / 200.0; p.c[i] = 0.5 + (mc_lcg(&s) % 1000) / 200.0; } for (k = 0; k < p.K; ++k) { p.p[k] = (v % 3 == 2 && k == 0 && p.K > 1) ? 1e-7 : 1 + mc_lcg(&s) % 5; t += p.p[k]; } for (k = 0; k < p.K; ++k) p.p[k] /= t;
    rnd(&p); vl_set_simd_enabled(simd); mc_note("%s N %d dim %d K %d data %d simd %d", p.f ? "float" : "double", p.N, p.D, p.K, v, simd); one(&p); vl_set_simd_enabled(1); } }
mc_suite mc_suites[] = {
 {"small", small, "all sequences of 0..3/4/5 data from 5 positions x dim 1,2 x K 1..3 x 2 means x 2 covariances x 3 priors (one with a null prior) x 8 flag combinations x float/double x 2 fill patterns"},
 {"wide", wide, "dimensions 1..9 x K 1..4 x N 1..12 x 3/12 parameter sets x SIMD x float/double x 8 flag combinations"},
 {0}};
