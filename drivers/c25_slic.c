/* C25: SLIC: documented local k-means and orphan absorption; labels, segment sizes, memory. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/slic.h>
#define MAXP 256
#define MAXC 3
static int w, h, C, rs, mn; static float reg; static float *img; static vl_uint32 *seg;
static int nx, ny;
/* the definition; T is the type of the computation.  Returns 1 if some decision was too close to call */
#define ORACLE(NAME, T, EPS) \
static int NAME(int *out) { \
  static T cen[MAXP][MAXC+2], edge[MAXP]; static int lab[MAXP], old[MAXP]; T start = 0, prev = INFINITY; int x, y, k, u, v, it, i, amb = 0; \
  nx = (w + rs - 1)/rs; ny = (h + rs - 1)/rs; \
  for (i = 0; i < w*h; ++i) edge[i] = 0; \
  for (k = 0; k < C; ++k) for (y = 1; y < h-1; ++y) for (x = 1; x < w-1; ++x) { float const *p = img + w*h*k + y*w + x; T a = p[-1], b = p[1], c = p[w], d = p[-w]; edge[y*w+x] += (a-b)*(a-b) + (c-d)*(c-d); } \
  for (v = 0; v < ny; ++v) for (u = 0; u < nx; ++u) { T best = INFINITY; int cx = 0, cy = 0, xp, yp; x = (int)floor(rs*(u+0.5)+0.5); y = (int)floor(rs*(v+0.5)+0.5); if (x > w-1) x = w-1; if (y > h-1) y = h-1; \
    for (yp = y-1; yp <= y+1; ++yp) for (xp = x-1; xp <= x+1; ++xp) if (yp >= 0 && yp < h && xp >= 0 && xp < w) { T e = edge[yp*w+xp]; if (EPS && best != INFINITY && e != best && fabs(e-best) < EPS*(1+fabs(e))) amb = 1; if (e < best) { best = e; cx = xp; cy = yp; } } \
    cen[v*nx+u][0] = cx; cen[v*nx+u][1] = cy; for (k = 0; k < C; ++k) cen[v*nx+u][2+k] = img[w*h*k + cy*w + cx]; } \
  for (i = 0; i < w*h; ++i) old[i] = -1; \
  for (it = 0; it < 100; ++it) { T f = reg / (rs*rs), en = 0; int near = 0; \
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { T best = INFINITY, d2 = INFINITY; int bu = (int)floor((double)x/rs - 0.5), bv = (int)floor((double)y/rs - 0.5), up, vp, wh = -1; \
      for (vp = bv; vp <= bv+1; ++vp) for (up = bu; up <= bu+1; ++up) if (vp >= 0 && vp < ny && up >= 0 && up < nx) { T *c = cen[vp*nx+up], sp = (x-c[0])*(x-c[0]) + (y-c[1])*(y-c[1]), ap = 0, d; for (k = 0; k < C; ++k) ap += (img[w*h*k+y*w+x]-c[2+k])*(img[w*h*k+y*w+x]-c[2+k]); d = ap + f*sp; if (d < best) { d2 = best; best = d; wh = vp*nx+up; } else if (d < d2) d2 = d; } \
      if (EPS && d2 - best <= EPS*(1+fabs(best))) near = 1; lab[y*w+x] = wh; en += best; } \
    if (near) amb = 1; \
    if (it == 0) start = en; else { if (EPS && fabs((prev-en) - 1e-5*(start-en)) < EPS*(en+start)) { int same = 1; for (i = 0; i < w*h; ++i) same &= old[i] == lab[i]; if (!same) amb = 1; } if (prev - en < 1e-5*(start-en)) break; } \
    prev = en; { int m[MAXP] = {0}; memset(cen, 0, sizeof cen); for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { T *c = cen[lab[y*w+x]]; m[lab[y*w+x]]++; c[0] += x; c[1] += y; for (k = 0; k < C; ++k) c[2+k] += img[w*h*k+y*w+x]; } for (i = 0; i < nx*ny; ++i) for (k = 0; k < C+2; ++k) if (m[i]) cen[i][k] /= m[i]; } \
    memcpy(old, lab, sizeof lab); } \
  memcpy(out, lab, sizeof lab); return amb; }
ORACLE(ofloat, float, 0.0)
ORACLE(odouble, double, 2e-5)
/* orphans */
static void absorb(int const *lab, int *out) { int p, i; for (i = 0; i < w*h; ++i) out[i] = -1; for (p = 0; p < w*h; ++p) { int st[MAXP], n = 0, k, nl = -1, d; static int const dx[] = {1,-1,0,0}, dy[] = {0,0,1,-1}; if (out[p] >= 0) continue; for (d = 0; d < 4; ++d) { int x = p % w + dx[d], y = p / w + dy[d]; if (x >= 0 && x < w && y >= 0 && y < h && out[y*w+x] >= 0) nl = out[y*w+x]; } if (nl < 0) nl = lab[p]; st[n++] = p; out[p] = lab[p]; for (k = 0; k < n; ++k) for (d = 0; d < 4; ++d) { int x = st[k] % w + dx[d], y = st[k] / w + dy[d]; if (x >= 0 && x < w && y >= 0 && y < h && out[y*w+x] < 0 && lab[y*w+x] == lab[p]) { out[y*w+x] = lab[p]; st[n++] = y*w+x; } } if (n < mn) for (k = 0; k < n; ++k) out[st[k]] = nl; } }
static int comps(vl_uint32 const *l, int exempt) { int seen[MAXP] = {0}, p, worst = 1 << 30; for (p = 0; p < w*h; ++p) { int st[MAXP], n = 0, k, d; static int const dx[] = {1,-1,0,0}, dy[] = {0,0,1,-1}; if (seen[p]) continue; st[n++] = p; seen[p] = 1; for (k = 0; k < n; ++k) for (d = 0; d < 4; ++d) { int x = st[k] % w + dx[d], y = st[k] / w + dy[d]; if (x >= 0 && x < w && y >= 0 && y < h && !seen[y*w+x] && l[y*w+x] == l[p]) { seen[y*w+x] = 1; st[n++] = y*w+x; } } if (!(exempt && p == 0) && n < worst) worst = n; } return worst; }
static long verified, ambiguous;
static void run(int finite) {
  int i, lab[MAXP], ref[MAXP], ok = 1; long live = mc_live;
  if (mc_verbose) { mc_note("%dx%d channels %d region size %d regularization %g minimum %d", w, h, C, rs, reg, mn); for (i = 0; i < w*h*C; ++i) mc_note("%g", img[i]); }
  vl_slic_segment(seg, img, w, h, C, rs, reg, mn); mc_op(); mc_case(1); mc_gcheck(seg); mc_gcheck(img); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live - live); nx = (w + rs - 1)/rs; ny = (h + rs - 1)/rs;
  for (i = 0; i < w*h; ++i) MC_CHECK("label", seg[i] < (vl_uint32)(nx*ny), "pixel %d has the label %u of %d regions", i, seg[i], nx*ny);
  i = comps(seg, 1); MC_CHECK("orphan", i >= mn, "a segment of %d pixels remains, the minimum is %d", i, mn);
  if (!finite) return;
  ofloat(lab); absorb(lab, ref); for (i = 0; i < w*h; ++i) ok &= (int)seg[i] == ref[i];
  if (ok) ++verified; else { int amb = odouble(lab); if (amb) ++ambiguous; else { absorb(lab, ref); for (i = 0; i < w*h; ++i) MC_CHECK("definition", (int)seg[i] == ref[i], "pixel (%d,%d) has the label %u, the definition gives %d", i % w, i / w, seg[i], ref[i]); } }
  mc_state(mc_hash(w, seg, 4*w*h)); }
static void bufs(void) { img = mc_galloc(4*w*h*C); seg = mc_galloc(4*w*h); memset(seg, 0xee, 4*w*h); }
static void done(void) { mc_gfree(img); mc_gfree(seg); }
static float const regs[] = {0, 0.3f, 1, 25};
/* all small images */
static void small(void) {
  static int const sh[][4] = {{1,1,1,4},{1,5,1,4},{5,1,1,4},{2,3,1,4},{3,3,1,3},{4,2,1,3},{2,2,2,3},{3,4,1,2},{4,4,1,2}}; static float const vals[] = {0, 1, 3.5, -2};
  int s = mc_choose(MC_BOUND(8, 8, 9)), A, i, first, dg[MAXP] = {0}, n; w = sh[s][0]; h = sh[s][1]; C = sh[s][2]; A = sh[s][3]; rs = 1 + mc_choose(3); reg = regs[mc_choose(3)]; mn = mc_choose(4); n = w*h*C; first = n < 3 ? n : 3; for (i = 0; i < first; ++i) dg[i] = mc_choose(A); bufs(); mc_fill = (int)(s + rs) % 2 ? 0xff : -1;
  for (;;) { for (i = 0; i < n; ++i) img[i] = vals[dg[i]]; run(1); memset(seg, (int)img[0] * 17 + 1, 4*w*h); for (i = first; i < n; ++i) { if (++dg[i] < A) break; dg[i] = 0; } if (i >= n) break; } done(); }
/* all geometries, structured contents */
static void geometry(void) {
  int i, mode = mc_choose(5), k; uint32_t seed; w = 1 + mc_choose(8); h = 1 + mc_choose(8); rs = 1 + mc_choose(5); C = 1 + mc_choose(2); for (k = 0; k < MC_TIER(4, 24); ++k) { reg = regs[k % 4]; mn = (k * 7 + w) % 9; seed = 1 + w + 10*h + 100*rs + 1000*C + 7777*mode + 99991*k; bufs();
    for (i = 0; i < w*h*C; ++i) { int x = i % w, y = i / w % h; float v; switch (mode) { case 0: v = (mc_lcg(&seed) % 1000) / 100.0; break; case 1: v = (x / 3 + y / 2) % 2 * 6 + (mc_lcg(&seed) % 10) / 31.0; break; case 2: v = 0.37f*x - 0.91f*y + (i / (w*h)) * 0.1f*x*y; break; case 3: v = x == w/2 || y == h/2 ? 9 : (mc_lcg(&seed) % 5) * 0.173f; break; default: v = mc_lcg(&seed) % 9 == 0 ? 20 : 0.013f * (float)(mc_lcg(&seed) % 7); } img[i] = v; }
    run(1); done(); } }
static void large(void) {
  int i, k; uint32_t seed = 5 + mc_choose(MC_TIER(60, 600)); w = 9 + seed % 7; h = 7 + seed % 9; C = 1 + seed % 3; rs = 2 + seed % 6; reg = regs[1 + seed % 3]; if (w*h > MAXP) h = MAXP / w; bufs(); for (k = 0; k < 3; ++k) { mn = k * rs * rs / 3; for (i = 0; i < w*h*C; ++i) img[i] = ((i % w) * 5 + (i / w % h) * 3 > 40 ? 3 : 0) + (mc_lcg(&seed) % 1000) / 700.0; run(1); } done(); }
/* values that are not finite, or whose distances are not */
static void special(void) {
  static float v[] = {0, 1, 1e30f, -1e30f, 0, 0, 3e38f}; int i, first[2], mode = mc_choose(3), n; v[4] = NAN; v[5] = INFINITY; w = 1 + mc_choose(4); h = 1 + mc_choose(3); C = 1 + mc_choose(2); rs = 1 + mc_choose(3); reg = mc_choose(2) ? 1 : 1e38f; mn = mc_choose(3); n = w*h*C; first[0] = mc_choose(7); first[1] = mc_choose(7); bufs(); mc_fill = mode == 0 ? 0xff : mode == 1 ? 0x7f : -1; memset(seg, mode == 0 ? 0xff : 0x7f, 4*w*h);
  for (i = 0; i < n; ++i) img[i] = v[i < 1 ? first[0] : i == n-1 ? first[1] : (i*5 + first[0] + first[1]) % 7]; run(0); done(); }
static void extremes(void) { /* region bigger than the image, big minimum, one row */
  int i; w = 1 + mc_choose(12); h = 1 + mc_choose(2); C = 1; rs = 1 + mc_choose(15); reg = regs[mc_choose(4)]; mn = mc_choose(3) * 12; bufs(); for (i = 0; i < w*h; ++i) img[i] = (i * 7 % 5) * 0.37f + 0.01f*i*i; run(1); done(); }
mc_suite mc_suites[] = {
 {"small", small, "all images of 8/9 shapes up to 3x4 (4x4 thorough) over 2..4 values x region size 1..3 x 3 regularizations x minimum 0..3"},
 {"geometry", geometry, "all sizes 1..8 x 1..8, region sizes 1..5, 1..2 channels, 5 structures, 4/24 combinations of regularization and minimum"},
 {"large", large, "60/600 images up to 15x15 with 1..3 channels"},
 {"special", special, "infinite, NaN and overflowing values: labels in range and no access out of bounds"},
 {"extremes", extremes, "1..12 x 1..2 pixels, region size 1..15, minimum 0/12/24"},
 {0}};
