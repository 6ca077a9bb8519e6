/* C19: VLAD vectors against their definition, every assignment matrix and flag combination. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/vlad.h>
static double at(int f, void const *v, int i) { return f ? ((float const*)v)[i] : ((double const*)v)[i]; }
static void *encx(int f, double const *v, int n) { void *p = mc_galloc((f ? 4 : 8) * n); int i; for (i = 0; i < n; ++i) if (f) ((float*)p)[i] = (float)v[i]; else ((double*)p)[i] = v[i]; return p; }
typedef struct { int f, N, K, D; double X[256], m[64], A[128]; } P;
static void one(P const *p) {
  int fl, i, k, d, L = p->K*p->D, sz = p->f ? 4 : 8; void *x = encx(p->f, p->X, p->N*p->D), *m = encx(p->f, p->m, L), *a = encx(p->f, p->A, p->N*p->K);
  for (fl = 0; fl < 16; ++fl) { int flags = (fl & 1 ? VL_VLAD_FLAG_NORMALIZE_COMPONENTS : 0) | (fl & 2 ? VL_VLAD_FLAG_SQUARE_ROOT : 0) | (fl & 4 ? VL_VLAD_FLAG_UNNORMALIZED : 0) | (fl & 8 ? VL_VLAD_FLAG_NORMALIZE_MASS : 0), v, amb = 0; double g[64], nn = 0, scale = 1; uint64_t h[2];
    memset(g, 0, sizeof g);
    for (k = 0; k < p->K; ++k) { double mass = 0, n = 0, comp[16] = {0};
      for (i = 0; i < p->N; ++i) { double q = p->A[i*p->K+k]; mass += q; for (d = 0; d < p->D; ++d) { comp[d] += q * (p->X[i*p->D+d] - p->m[k*p->D+d]); if (fabs(p->X[i*p->D+d]) + fabs(p->m[k*p->D+d]) > scale) scale = fabs(p->X[i*p->D+d]) + fabs(p->m[k*p->D+d]); } }
      for (d = 0; d < p->D; ++d) { double z = comp[d]; if ((fl & 8) && mass > 0) z /= mass; if (fabs(z) < 1e-4 && (fl & 3) && mass > 0) amb |= z != 0 || (fl & 8); if (fl & 2) z = z >= 0 ? sqrt(z) : -sqrt(-z); comp[d] = z; n += z*z; }
      if (fl & 1) { n = sqrt(n); if (n < 1e-12) n = 1e-12; for (d = 0; d < p->D; ++d) comp[d] /= n; }
      for (d = 0; d < p->D; ++d) g[k*p->D+d] = comp[d]; }
    for (i = 0; i < L; ++i) nn += g[i]*g[i]; nn = sqrt(nn);
    if (!(fl & 4)) { double n = nn < 1e-12 ? 1e-12 : nn; if (nn < 1e-4) amb |= nn > 0 || (fl & 8); for (i = 0; i < L; ++i) g[i] /= n; }
    for (v = 0; v < 2; ++v) { void *enc = mc_galloc(sz*L); memset(enc, v ? 0x7f : 0xff, sz*L); mc_fill = v ? 0xff : 0; vl_vlad_encode(enc, p->f ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, m, p->D, p->K, x, p->N, a, flags); mc_fill = -1; mc_op(); h[v] = mc_hash(1, enc, sz*L);
      if (!v) { double n = 0; for (i = 0; i < L; ++i) { double e = at(p->f, enc, i); n += e*e; MC_CHECK("finite", isfinite(e), "flags %d: component %d is %g", flags, i, e); if (!amb) MC_CHECK("value", mc_close(e, g[i], (p->f ? 1e-5 : 1e-11) * ((fl & 3) || !(fl & 4) ? 10 : scale * p->N), p->f ? 1e-4 : 1e-9), "flags %d: component %d is %.9g, expected %.9g", flags, i, e, g[i]); }
        if (!(fl & 4)) MC_CHECK("norm", mc_close(n, 1, 1e-5, 0) || (nn < 1e-5 && n < 1), "flags %d: squared norm %.9g", flags, n); }
      for (k = 0; k < p->K; ++k) { double mass = 0; for (i = 0; i < p->N; ++i) mass += p->A[i*p->K+k]; if (mass == 0) for (d = 0; d < p->D; ++d) MC_CHECK("empty", at(p->f, enc, k*p->D+d) == 0, "flags %d: component %d of a cluster without assignments is %g", flags, k*p->D+d, at(p->f, enc, k*p->D+d)); }
      mc_gfree(enc); }
    MC_CHECK("overwritten", h[0] == h[1], "flags %d: the encoding depends on the previous contents of the vector", flags); mc_case(1); mc_state(h[0]); }
  mc_gcheck(x); mc_gcheck(m); mc_gcheck(a); mc_gfree(x); mc_gfree(m); mc_gfree(a); }
static double const V[] = {0, 1.5, -2, 4, 0.25}, W[] = {0, 1, 0.5, 0.25};
/* every assignment matrix over {0, 1, 1/2, 1/4} */
static void matrices(void) {
  P p; int i, c, t, d; long live; memset(&p, 0, sizeof p); c = mc_choose(MC_BOUND(5, 7, 8)); p.N = (int[]){0, 1, 2, 3, 1, 2, 4, 3}[c]; p.K = (int[]){2, 3, 2, 2, 1, 3, 2, 3}[c]; if (c == 7 && mc_asan) mc_skip();
  for (i = 0; i < p.N*p.K; ++i) p.A[i] = W[mc_choose(i < 6 ? 4 : 2)];
  live = mc_live;
  for (p.D = 1; p.D <= 2; ++p.D) for (t = 0; t < MC_TIER(3, 5); ++t) for (p.f = 0; p.f < 2; ++p.f) { for (i = 0; i < p.N; ++i) for (d = 0; d < p.D; ++d) p.X[i*p.D+d] = V[(i*(t+1) + d*2 + t) % 5]; for (i = 0; i < p.K*p.D; ++i) p.m[i] = V[(i + 2*t) % 5]; mc_note("%s N %d K %d dim %d data %d", p.f ? "float" : "double", p.N, p.K, p.D, t); one(&p); }
  MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* every data sequence, hard assignments to each cluster pattern */
static void data(void) {
  P p; int i, d, ids[6], pat, t; memset(&p, 0, sizeof p); p.N = 1 + mc_choose(MC_BOUND(3, 4, 5)); for (i = 0; i < p.N; ++i) ids[i] = mc_choose(5); p.K = 1 + mc_choose(3);
  for (p.D = 1; p.D <= 3; ++p.D) for (pat = 0; pat < (1 << p.N); ++pat) for (t = 0; t < 2; ++t) for (p.f = 0; p.f < 2; ++p.f) { memset(p.A, 0, sizeof p.A); for (i = 0; i < p.N; ++i) { p.A[i*p.K + (pat >> i & 1) % p.K] = 1; for (d = 0; d < p.D; ++d) p.X[i*p.D+d] = V[(ids[i] + d) % 5]; } for (i = 0; i < p.K*p.D; ++i) p.m[i] = t ? V[i % 5] : 0.5*i - 1; mc_note("%s dim %d pattern %d", p.f ? "float" : "double", p.D, pat); one(&p); } }
static void wide(void) { P p; int i; memset(&p, 0, sizeof p); p.D = 1 + mc_choose(9); p.K = 1 + mc_choose(4); p.N = 1 + mc_choose(12);
  for (p.f = 0; p.f < 2; ++p.f) { uint32_t s = p.N; for (i = 0; i < p.N*p.D; ++i) p.X[i] = (float)((mc_lcg(&s) % 1000) / 100.0 - 5); for (i = 0; i < p.K*p.D; ++i) p.m[i] = (float)((mc_lcg(&s) % 1000) / 100.0 - 5); for (i = 0; i < p.N*p.K; ++i) p.A[i] = (float)((mc_lcg(&s) % 5) / 4.0); mc_note("%s N %d K %d dim %d", p.f ? "float" : "double", p.N, p.K, p.D); one(&p); } }
mc_suite mc_suites[] = {
 {"matrices", matrices, "all assignment matrices over {0,1,1/2,1/4} of sizes up to 3x2, 2x3 (and 4x2, 3x3 with some entries binary) x dim 1,2 x 3/5 data sets x float/double x 16 flag combinations x 2 fill patterns"},
 {"data", data, "all sequences of 1..3/4/5 data from 5 positions x K 1..3 x dim 1..3 x all binary assignments x float/double x 16 flag combinations"},
 {"wide", wide, "dimensions 1..9 x K 1..4 x N 1..12 x float/double x 16 flag combinations"},
 {0}};
