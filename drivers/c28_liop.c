/* C28: LIOP: permutation indexing, rank pooling, weights, normalisation, affine invariance, reuse, memory. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/liop.h>
#include <vl/mathop.h>
#define MAXS 21
static int S, n, m; static float rad, thr; static float *patch; static double ref[8*720];
static int fact(int k) { return k > 1 ? k * fact(k-1) : 1; }
static long verified, ambiguous;
static double sample(double x, double y) { /* bilinear; the patch is continued beyond its border */
  int ix, iy; double wx, wy; if (x < 0) x = 0; if (y < 0) y = 0; if (x > S-1) x = S-1; if (y > S-1) y = S-1; ix = (int)floor(x); iy = (int)floor(y); if (ix > S-2) ix = S-2; if (iy > S-2) iy = S-2; wx = x-ix; wy = y-iy;
  return (1-wy)*((1-wx)*patch[iy*S+ix] + wx*patch[iy*S+ix+1]) + wy*((1-wx)*patch[(iy+1)*S+ix] + wx*patch[(iy+1)*S+ix+1]); }
/* the definition; returns 0 when it does not determine the answer (ties) */
static int reference(int *size) { static int px[MAXS*MAXS]; int N = 0, x, y, i, j, k, c = (S-1)/2, F = fact(n), ok = 1, area; double t = c - (double)rad + 0.6, t2 = floor(t*t), th, scale = 0, nn = 0;
  for (y = 0; y < S; ++y) for (x = 0; x < S; ++x) { if (fabs(patch[y*S+x]) > scale) scale = fabs(patch[y*S+x]); if ((x-c)*(x-c) + (y-c)*(y-c) <= t2) px[N++] = y*S+x; }
  *size = N; for (i = 1; i < N; ++i) { k = px[i]; for (j = i; j > 0 && patch[px[j-1]] > patch[k]; --j) px[j] = px[j-1]; px[j] = k; }
  th = thr < 0 ? -(double)thr * ((double)patch[px[N-1]] - patch[px[0]]) : thr; area = N / m; if (area == 0) return 0; memset(ref, 0, sizeof ref);
  for (k = 1; k < m; ++k) if (patch[px[k*area-1]] == patch[px[k*area]]) return 0;
  for (i = 0; i < N; ++i) { int b = i / area, perm[8], idx = 0, wgt = 0; double v[8], a0; if (b > m-1) b = m-1; x = px[i] % S - c; y = px[i] / S - c; a0 = atan2(y, x);
    for (k = 0; k < n; ++k) { v[k] = sample(c + x + rad*cos(a0 + 2*M_PI*k/n), c + y + rad*sin(a0 + 2*M_PI*k/n)); perm[k] = k; }
    for (k = 0; k < n; ++k) for (j = k+1; j < n; ++j) { double d = fabs(v[k]-v[j]); if (d < 3e-6*scale) ok = 0; if (fabs(d - th) < 3e-6*scale) ok = 0; wgt += d > th; }
    for (k = 1; k < n; ++k) { int q = perm[k]; for (j = k; j > 0 && v[perm[j-1]] > v[q]; --j) perm[j] = perm[j-1]; perm[j] = q; }
    for (k = 0; k < n; ++k) { int less = 0; for (j = k+1; j < n; ++j) less += perm[j] < perm[k]; idx += less * fact(n-1-k); }
    ref[b*F + idx] += wgt; }
  for (i = 0; i < m*F; ++i) nn += ref[i]*ref[i]; nn = sqrt(nn); if (nn > 0) for (i = 0; i < m*F; ++i) ref[i] /= nn;
  return ok; }
static void describe(void) { int i; if (mc_verbose) { mc_note("side %d radius %g neighbours %d bins %d threshold %g", S, rad, n, m, thr); for (i = 0; i < S*S; ++i) mc_note("%g", patch[i]); } }
static float *run(VlLiopDesc *l, char const *key) { int D = vl_liopdesc_get_dimension(l), i, N, det; float *d = mc_galloc(4*D); double nn = 0; describe(); memset(d, 0xff, 4*D); vl_liopdesc_process(l, d, patch); mc_op(); mc_case(1); mc_gcheck(d); mc_gcheck(patch);
  for (i = 0; i < D; ++i) { MC_CHECK("finite", d[i] >= 0 && d[i] < 1.0001, "component %d is %g", i, d[i]); nn += d[i]*d[i]; } MC_CHECK("norm", nn == 0 || fabs(nn-1) < 1e-4, "norm %g", sqrt(nn));
  det = reference(&N); if (det) { ++verified; for (i = 0; i < D; ++i) MC_CHECK(key, fabs(d[i]-ref[i]) < 1e-5, "component %d (spatial bin %d, permutation %d) is %g, the definition gives %g", i, i / fact(n), i % fact(n), d[i], ref[i]); } else ++ambiguous;
  mc_state(mc_hash(n, d, 4*D)); return d; }
static VlLiopDesc *make(void) { VlLiopDesc *l = vl_liopdesc_new(n, m, rad, S); MC_CHECK("dimension", (int)vl_liopdesc_get_dimension(l) == m*fact(n) && (int)vl_liopdesc_get_num_neighbours(l) == n && (int)vl_liopdesc_get_num_spatial_bins(l) == m && vl_liopdesc_get_neighbourhood_radius(l) == rad, "parameters read back"); MC_CHECK("default", fabs(vl_liopdesc_get_intensity_threshold(l) + 5./255) < 1e-6, "default threshold"); vl_liopdesc_set_intensity_threshold(l, thr); MC_CHECK("threshold", vl_liopdesc_get_intensity_threshold(l) == thr, "threshold"); return l; }
static void permutations(void) { /* all orderings of a 3x3 patch; two orders of its values */
  int p[9], used = 0, i, k, vals = mc_choose(2); VlLiopDesc *l; static float const v[2][9] = {{0,1,2,3,4,5,6,7,8},{-40.3f,-12.7f,-3.1f,0.13f,1.9f,7.7f,30.1f,77.3f,150.9f}};
  S = 3; m = 1; rad = 1; n = 1 + mc_choose(6); thr = mc_choose(2) ? -0.1f : 1.5f; p[4] = mc_choose(9); p[1] = mc_choose(8); p[1] += p[1] >= p[4]; patch = mc_galloc(4*9); l = make();
  { static int const ord[] = {0,2,3,5,6,7,8}; int dg[7] = {0}; for (;;) { used = 1 << p[4] | 1 << p[1]; for (i = 0; i < 7; ++i) { int q = dg[i], u; for (u = 0; ; ++u) if (!(used >> u & 1) && q-- == 0) break; p[ord[i]] = u; used |= 1 << u; } for (k = 0; k < 9; ++k) patch[k] = v[vals][p[k]]; mc_gfree(run(l, "permutation")); for (i = 0; i < 7; ++i) { if (++dg[i] < 7-i) break; dg[i] = 0; } if (i == 7 || (!mc_thorough && mc_asan && i > 4)) break; } }
  vl_liopdesc_delete(l); mc_gfree(patch); }
static void content(int mode, uint32_t seed) { int i; for (i = 0; i < S*S; ++i) { int x = i % S, y = i / S; switch (mode) { case 0: patch[i] = (mc_lcg(&seed) % 100000) / 391.7f; break; case 1: patch[i] = 3.17f*x - 1.93f*y + (mc_lcg(&seed) % 1000) / 3000.f; break; case 2: patch[i] = -(x-S/2)*(x-S/2) - (y-S/2)*(y-S/2) + (mc_lcg(&seed) % 1000) / 30000.f; break; case 3: patch[i] = (x > S/2 ? 100 : -100) + (mc_lcg(&seed) % 10000) / 1000.f; break; default: patch[i] = mc_lcg(&seed) % 3; } } }
static void geometry(void) {
  int k, mode; long live; S = 3 + 2*mc_choose(MC_BOUND(5,7,10)); rad = 0.5f * (1 + mc_choose(S/2*2)); n = 1 + mc_choose(6); m = 1 + mc_choose(6); patch = mc_galloc(4*S*S); mode = mc_choose(5); live = mc_live; mc_fill = 0xff;
  for (k = 0; k < MC_TIER(2, 8); ++k) { float *d, *d2; int i, D; VlLiopDesc *l; static float const ths[] = {-5/255.f, 0, 7.3f, -0.4f}; float a, b; thr = ths[k % 4 ^ (n & 3)]; l = make(); D = vl_liopdesc_get_dimension(l); content(mode, 17 + k + 100*S + 1000*n + m); d = run(l, "definition");
    /* increasing affine changes */
    if (thr < 0) { for (i = 0; i < S*S; ++i) patch[i] *= 4; d2 = run(l, "definition"); for (i = 0; i < D; ++i) MC_CHECK("scaled", fabs(d[i]-d2[i]) < 1e-6, "component %d goes from %g to %g when the patch is multiplied by 4", i, d[i], d2[i]); mc_gfree(d2); a = 0.3f + k; b = k % 2 ? 1000.f : -321.7f; for (i = 0; i < S*S; ++i) patch[i] = a*patch[i]/4 + b; mc_gfree(run(l, "affine")); }
    else { for (i = 0; i < S*S; ++i) patch[i] += k % 2 ? 512.f : -256.f; mc_gfree(run(l, "affine")); }
    mc_gfree(d); vl_liopdesc_delete(l); }
  MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); mc_gfree(patch); }
static void history(void) { /* every sequence of patches and thresholds through one object; ties included */
  int d, k, L = MC_BOUND(3,4,5), D; VlLiopDesc *l; S = 7; rad = 2; n = 2 + mc_choose(3); m = 1 + mc_choose(3); thr = -5/255.f; mc_fill = mc_choose(2) ? 0xff : 0x40; patch = mc_galloc(4*S*S); l = make(); D = vl_liopdesc_get_dimension(l);
  for (d = 0; d < L; ++d) { int c = mc_choose(6); VlLiopDesc *f; float *a, *b; if (c == 5) { thr = thr < 0 ? 0.7f : -0.2f; vl_liopdesc_set_intensity_threshold(l, thr); c = 0; } content(c, 5 + c); f = make(); a = run(l, "definition"); b = run(f, "definition"); for (k = 0; k < D; ++k) MC_CHECK("history", a[k] == b[k], "component %d is %g, a fresh object gives %g", k, a[k], b[k]); mc_gfree(a); mc_gfree(b); vl_liopdesc_delete(f); } vl_liopdesc_delete(l); mc_gfree(patch); }
static void ties(void) { /* all two- and three-valued 3x3 patches, all sizes with flat patches: memory and norm */
  int i, s, first = mc_choose(27); VlLiopDesc *l; S = 3; rad = mc_choose(2) ? 1 : 0.5f; n = 1 + mc_choose(6); m = 1 + mc_choose(2); thr = mc_choose(2) ? 0 : -0.3f; patch = mc_galloc(36); l = make(); for (s = 0; s < 729; ++s) { int c = first * 729 + s; for (i = 0; i < 9; ++i, c /= 3) patch[i] = c % 3; mc_gfree(run(l, "definition")); } vl_liopdesc_delete(l); mc_gfree(patch); }
static void sides(void) { /* any side, many bins: memory and norm; the basic constructor */
  int i, mode = mc_choose(5); VlLiopDesc *l; float *d; S = 1 + mc_choose(16); n = 1 + mc_choose(5); m = 1 + mc_choose(12); rad = 0.5f * mc_choose(S/2*2+1); thr = -0.1f; patch = mc_galloc(4*S*S); content(mode, S); l = make(); d = mc_galloc(4*fact(n)*m); vl_liopdesc_process(l, d, patch); mc_op(); for (i = 0; i < fact(n)*m; ++i) MC_CHECK("finite", d[i] >= 0 && d[i] <= 1.0001, "component %d is %g", i, d[i]); vl_liopdesc_delete(l);
  if (S >= 12) { l = vl_liopdesc_new_basic(S); MC_CHECK("basic", vl_liopdesc_get_dimension(l) == 144 && vl_liopdesc_get_num_neighbours(l) == 4 && vl_liopdesc_get_num_spatial_bins(l) == 6 && vl_liopdesc_get_neighbourhood_radius(l) == 6, "basic"); vl_liopdesc_delete(l); } mc_gfree(d); mc_gfree(patch); }
static void big(void) { int i; VlLiopDesc *l; S = 21; rad = 6; n = 4; m = 6; patch = mc_galloc(4*S*S); thr = -5/255.f; l = make(); { int s = mc_choose(MC_TIER(100, 2000)); for (i = 0; i < 4; ++i) { content(i, s); mc_gfree(run(l, "definition")); } } vl_liopdesc_delete(l); mc_gfree(patch); }
mc_suite mc_suites[] = {
 {"permutations", permutations, "all 9! orderings of a 3x3 patch x 2 sets of values x 1..6 neighbours x 2 thresholds"},
 {"geometry", geometry, "odd sides 3..15 (21 thorough) x radii in halves up to half the side x 1..6 neighbours x 1..6 bins x 5 contents x thresholds, with affine changes"},
 {"history", history, "all sequences of 4/5 patches and thresholds through one object against a fresh one"},
 {"ties", ties, "all three-valued 3x3 patches"},
 {"sides", sides, "sides 1..16, up to 12 bins: memory and norm"},
 {"big", big, "100/2000 contents x 4 of a 21x21 patch with the default parameters"},
 {0}};
