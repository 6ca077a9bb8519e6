/* C24: MSER against the definition: the components of every lower level set, their stability and the filters. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/mser.h>
#define MAXP 40
static int nd, dims[3], np; static unsigned char im[MAXP]; static int delta; static double maxa, mina, maxv, mind;
static uint64_t nb[MAXP]; /* neighbors */
static void shape(int n, int a, int b, int c) { int i, j, k; nd = n; dims[0] = a; dims[1] = b; dims[2] = c; np = a*(n > 1 ? b : 1)*(n > 2 ? c : 1); if (n < 2) dims[1] = 1; if (n < 3) dims[2] = 1; for (i = 0; i < np; ++i) { nb[i] = 0; for (j = 0; j < np; ++j) { int x = i, y = j, ok = i != j; for (k = 0; k < 3; ++k) { int u = x % dims[k], v = y % dims[k]; if (u - v > 1 || v - u > 1) ok = 0; x /= dims[k]; y /= dims[k]; } if (ok) nb[i] |= 1ull << j; } } }
static uint64_t comp(uint64_t set, int seed) { uint64_t c = 1ull << seed, o; do { uint64_t t = c; o = c; while (t) { int b = __builtin_ctzll(t); t &= t-1; c |= nb[b] & set; } } while (c != o); return c; }
typedef struct { uint64_t set; int val, area, parent; float var; int st; } reg;
static reg R[MAXP]; static int nr, st_unstable, st_bad, st_big, st_small, st_dup;
static void oracle(void) {
  int v, i, j, k; uint64_t le[256] = {0}, acc = 0; nr = 0; { for (i = 0; i < np; ++i) le[im[i]] |= 1ull << i; for (v = 0; v < 256; ++v) { acc |= le[v]; le[v] = acc; } }
  for (v = 0; v < 256; ++v) { uint64_t new = le[v] & ~(v ? le[v-1] : 0); while (new) { int b = __builtin_ctzll(new); uint64_t c = comp(le[v], b); R[nr].set = c; R[nr].val = v; R[nr].area = __builtin_popcountll(c); R[nr].st = 1; ++nr; new &= ~c; } }
  for (i = 0; i < nr; ++i) { int t = R[i].val + delta; uint64_t top; R[i].parent = i; for (j = i+1; j < nr; ++j) if ((R[j].set & R[i].set) && R[j].val > R[i].val) { R[i].parent = j; break; } if (t > 255) t = 255; top = comp(le[t], __builtin_ctzll(R[i].set)); R[i].var = (float)(__builtin_popcountll(top) - R[i].area) / R[i].area; }
  for (i = 0; i < nr; ++i) { int p = R[i].parent; if (R[p].val > R[i].val + 1) continue; if (R[i].var < R[p].var) R[p].st = 0; else R[i].st = 0; }
  st_unstable = st_bad = st_big = st_small = st_dup = 0; for (i = 0; i < nr; ++i) st_unstable += !R[i].st;
  for (i = nr-1; i >= 0; --i) { if (!R[i].st) continue; if (R[i].var >= (float)maxv) { ++st_bad; R[i].st = 0; continue; } if (R[i].area > (float)maxa * np) { ++st_big; R[i].st = 0; continue; } if (R[i].area < (float)mina * np) { ++st_small; R[i].st = 0; continue; }
    if (mind < 1 && R[i].parent != i) { for (k = R[i].parent; !R[k].st && R[k].parent != k; k = R[k].parent) ; if ((float)(R[k].area - R[i].area) / (float)R[k].area < (float)mind) { ++st_dup; R[i].st = 0; } } } }
static void compare(VlMserFilt *f, int ell) {
  int n = vl_mser_get_regions_num(f), i, j, k, want = 0; vl_uint const *m = vl_mser_get_regions(f); VlMserStats const *s = vl_mser_get_stats(f); int seen[MAXP] = {0}, which[MAXP]; oracle(); for (i = 0; i < nr; ++i) want += R[i].st;
  MC_CHECK("count", n == want, "%d regions were found, the definition gives %d", n, want);
  for (i = 0; i < n; ++i) { MC_CHECK("seed", m[i] < (vl_uint)np, "region %d has the seed %u", i, m[i]); for (j = 0; j < nr; ++j) if (R[j].val == im[m[i]] && R[j].set >> m[i] & 1) break; MC_CHECK("region", j < nr && R[j].st, "seed %u (level %d) is not of a maximally stable region", m[i], im[m[i]]); MC_CHECK("twice", !seen[j], "a region is reported twice"); seen[j] = 1; which[i] = j; }
  MC_CHECK("stats", s->num_extremal == nr, "%d extremal regions are reported, there are %d", s->num_extremal, nr);
  MC_CHECK("stats", s->num_unstable == st_unstable && s->num_abs_unstable == st_bad && s->num_too_big == st_big && s->num_too_small == st_small && s->num_duplicates == st_dup, "the statistics (unstable %d bad %d big %d small %d duplicate %d) should be %d %d %d %d %d", s->num_unstable, s->num_abs_unstable, s->num_too_big, s->num_too_small, s->num_duplicates, st_unstable, st_bad, st_big, st_small, st_dup);
  if (ell) { float const *e; int dof; vl_mser_ell_fit(f); mc_op(); e = vl_mser_get_ell(f); dof = vl_mser_get_ell_dof(f); MC_CHECK("ell-num", (int)vl_mser_get_ell_num(f) == n && dof == nd + nd*(nd+1)/2, "%d ellipsoids with %d components for %d regions", (int)vl_mser_get_ell_num(f), dof, n);
    for (i = 0; i < n; ++i) { double mu[3] = {0}, S[3][3] = {{0}}; uint64_t set = R[which[i]].set; int q = nd, a, b; for (k = 0; k < np; ++k) if (set >> k & 1) { int x[3] = {k % dims[0], k / dims[0] % dims[1], k / dims[0] / dims[1]}; for (a = 0; a < nd; ++a) { mu[a] += x[a]; for (b = 0; b < nd; ++b) S[a][b] += x[a]*x[b]; } } for (a = 0; a < nd; ++a) { mu[a] /= R[which[i]].area; MC_CHECK("mean", mc_close(e[i*dof+a], mu[a], 1e-5, 1e-5), "coordinate %d of the mean of region %d is %g, expected %g", a, i, e[i*dof+a], mu[a]); }
      for (b = 0; b < nd; ++b) for (a = 0; a <= b; ++a, ++q) { double c = S[a][b] / R[which[i]].area - mu[a]*mu[b]; MC_CHECK("covariance", mc_close(e[i*dof+q], c, 1e-4, 1e-5), "covariance (%d,%d) of region %d is %g, expected %g", a, b, i, e[i*dof+q], c); } } }
  mc_state(mc_hash(n, m, 4*n)); mc_case(1); }
static void set(VlMserFilt *f) { vl_mser_set_delta(f, delta); vl_mser_set_max_area(f, maxa); vl_mser_set_min_area(f, mina); vl_mser_set_max_variation(f, maxv); vl_mser_set_min_diversity(f, mind);
  MC_CHECK("getters", vl_mser_get_delta(f) == delta && vl_mser_get_max_area(f) == maxa && vl_mser_get_min_area(f) == mina && vl_mser_get_max_variation(f) == maxv && vl_mser_get_min_diversity(f) == mind, "the parameters set are not the ones got"); }
static struct { int delta; double maxa, mina, maxv, mind; } const PAR[] = {
 {5, 0.75, 0, 0.25, 0.2}, {1, 1, 0, INFINITY, 0}, {1, 1, 0, INFINITY, 1}, {2, 1, 0, 1.1, 0.3}, {1, 0.5, 0.3, 2, 0}, {0, 1, 0, 1, 0.5}, {255, 1, 0, 10, 0}, {3, 0.9, 0.12, 0.7, 0.45}};
static void pick(int p) { delta = PAR[p].delta; maxa = PAR[p].maxa; mina = PAR[p].mina; maxv = PAR[p].maxv; mind = PAR[p].mind; }
static void note(void) { int i; if (!mc_verbose) return; mc_note("%d dimensions %dx%dx%d delta %d area %g..%g variation %g diversity %g", nd, dims[0], dims[1], dims[2], delta, mina, maxa, maxv, mind); for (i = 0; i < np; ++i) mc_note("%d", im[i]); }
static unsigned char const AL[][6] = {{0,1,2,5,3,9}, {254,255,3,0,252,7}, {10,12,11,13,40,14}};
/* all images; one object processes them all after each other, a fresh one for a part */
static void images(void) {
  static int const sh[][5] = {{1,6,0,0,5},{2,3,3,0,3},{2,4,2,0,4},{2,1,7,0,4},{3,2,2,2,3},{1,1,0,0,6},{2,2,3,0,5},{3,1,2,3,4},{2,4,3,0,2},{3,3,2,2,2},{2,4,3,0,3},{2,3,3,0,4},{3,2,2,2,4},{1,8,0,0,4},{2,4,4,0,2}};
  int s = mc_choose(MC_BOUND(10, 10, MC_LEN(sh))), p = mc_choose(MC_LEN(PAR)), al = mc_choose(3), i, A, first, used[8]; long live, cnt = 0; VlMserFilt *f; uint64_t h0 = 0;
  shape(sh[s][0], sh[s][1], sh[s][2] ? sh[s][2] : 1, sh[s][3] ? sh[s][3] : 1); A = sh[s][4]; pick(p); first = np < 3 ? np : 3; for (i = 0; i < first; ++i) used[i] = mc_choose(A); (void)used; (void)h0;
  { int dg[MAXP] = {0}; for (i = 0; i < first; ++i) dg[i] = used[i]; live = mc_live; mc_fill = (s + p) % 2 ? 0xff : -1; f = vl_mser_new(nd, dims); set(f);
    for (;;) { for (i = 0; i < np; ++i) im[i] = AL[al][dg[i]]; note(); vl_mser_process(f, im); mc_op(); compare(f, cnt % 3 == 0);
      if (cnt % 5 == 0) { /* a fresh object, with other contents of its memory, gives exactly the same */ VlMserFilt *g; int save = mc_fill, n = vl_mser_get_regions_num(f); mc_fill = cnt % 2 ? 0 : 7; g = vl_mser_new(nd, dims); set(g); vl_mser_process(g, im); mc_op(); MC_CHECK("history", (int)vl_mser_get_regions_num(g) == n && !memcmp(vl_mser_get_regions(g), vl_mser_get_regions(f), 4*n), "a fresh filter represents the regions by other pixels"); vl_mser_delete(g); mc_fill = save; }
      ++cnt; for (i = first; i < np; ++i) { if (++dg[i] < A) break; dg[i] = 0; } if (i >= np) break; }
    vl_mser_delete(f); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); } }
/* bigger images: structured contents */
static void bigger(void) {
  static int const sh[][4] = {{2,6,6,1},{3,3,3,3},{2,9,4,1},{1,36,1,1},{3,4,3,3}}; int s = mc_choose(MC_LEN(sh)), k, r, mode = mc_choose(6), i; uint32_t seed = mc_choose(MC_TIER(60, 600)); VlMserFilt *f; long live = mc_live; unsigned char prev[MAXP];
  shape(sh[s][0], sh[s][1], sh[s][2], sh[s][3]); seed = seed * 7 + mode; mc_fill = -1; f = vl_mser_new(nd, dims);
  for (r = 0; r < 8; ++r) { k = (r * 3 + seed) % MC_LEN(PAR); pick(k); set(f); memcpy(prev, im, np); for (i = 0; i < np; ++i) { int x = i % dims[0], y = i / dims[0]; int v; switch (mode) { case 0: v = mc_lcg(&seed) % 8; break; case 1: v = mc_lcg(&seed) % 256; break; case 2: v = (x + y) * 3 + mc_lcg(&seed) % 3; break; case 3: v = abs(x - 2 - (int)(seed >> 5) % 2) * 5 + abs(y - 3) * 4; break; case 4: v = x % 2 && y % 2 ? mc_lcg(&seed) % 4 : 9; break; default: v = 255 - (int)(mc_lcg(&seed) % 5) - x; } im[i] = v; }
    note(); vl_mser_process(f, im); mc_op(); compare(f, 1); }
  vl_mser_delete(f); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); }
/* defaults */
static void defaults(void) { int a = 1 + mc_choose(6), b = 1 + mc_choose(6), d[2]; VlMserFilt *f; d[0] = a; d[1] = b; f = vl_mser_new(2, d); MC_CHECK("defaults", vl_mser_get_delta(f) == 5 && vl_mser_get_max_area(f) == 0.75 && vl_mser_get_min_area(f) == 3.0/(a*b) && vl_mser_get_max_variation(f) == 0.25 && vl_mser_get_min_diversity(f) == 0.2, "the defaults are not the documented ones"); vl_mser_delete(f); mc_op(); }
mc_suite mc_suites[] = {
 {"images", images, "all images of 10/15 shapes (1-D to 3-D, up to 12/16 pixels) over 2..6 intensities x 3 sets of intensities x 8 parameter settings, one filter for many images, fresh filters with other memory contents compared"},
 {"bigger", bigger, "5 shapes of 27..36 pixels x 6 structures x 60/600 seeds x 8 images through one filter with changing parameters"},
 {"defaults", defaults, "36 sizes"},
 {0}};
