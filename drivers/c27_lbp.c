/* C27: local binary patterns: quantisation of all patterns, pooling, normalisation, transposition, reuse, memory. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/lbp.h>
#define MAXS 24
static VlLbp *plain, *transp;
static int const ox[] = {1,1,0,-1,-1,-1,0,1}, oy[] = {0,1,1,1,0,-1,-1,-1}; /* from the east, as the code documents */
static int bin_of(int const *b) { /* b0..b7: i*7+j-1 for the run of j ones beginning at i */
  int i, ones = 0, ch = 0; for (i = 0; i < 8; ++i) { ones += b[i]; ch += b[i] != b[(i+1)%8]; } if (ch == 0) return 56; if (ch > 2) return 57; for (i = 0; i < 8; ++i) if (b[i] && !b[(i+7)%8]) break; return i*7 + ones - 1; }
/* reference features of an image given by a function of (x,y) of the untransposed image */
static float pix[MAXS*MAXS]; static int w, h, cs;
static double hist[MAXS*MAXS][58];
static void reference(void) { int x, y, k, cx, cy, cw = w/cs, chh = h/cs; memset(hist, 0, sizeof hist);
  for (y = 1; y < h-1; ++y) for (x = 1; x < w-1; ++x) { int b[8], bn; for (k = 0; k < 8; ++k) b[k] = pix[(y+oy[k])*w + x+ox[k]] > pix[y*w+x]; bn = bin_of(b);
    for (cy = 0; cy < chh; ++cy) for (cx = 0; cx < cw; ++cx) { double ax = 1 - fabs((x+.5)/cs - (cx+.5)), ay = 1 - fabs((y+.5)/cs - (cy+.5)); if (ax > 0 && ay > 0) hist[cy*cw+cx][bn] += ax*ay; } } }
static void check(VlLbp *l, int t, int history) { /* t: the extractor and the storage are transposed */
  int cw = w/cs, chh = h/cs, x, y, k; float *im = mc_galloc(4*w*h), *f = mc_galloc(4*58*cw*chh), *im2 = malloc(4*w*h);
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) im[t ? x*h+y : y*w+x] = pix[y*w+x];
  memcpy(im2, im, 4*w*h); memset(f, 0xff, 4*58*cw*chh); if (mc_verbose) { mc_note("%dx%d cells of %d transposed %d", w, h, cs, t); for (k = 0; k < w*h; ++k) mc_note("%g", pix[k]); }
  if (t) vl_lbp_process(l, f, im, h, w, cs); else vl_lbp_process(l, f, im, w, h, cs); mc_op(); mc_case(1); mc_gcheck(im); mc_gcheck(f); MC_CHECK("input", !memcmp(im, im2, 4*w*h), "the image was modified");
  for (y = 0; y < chh; ++y) for (x = 0; x < cw; ++x) { double tot = 0, *hh = hist[y*cw+x], one = 0; for (k = 0; k < 58; ++k) tot += hh[k];
    for (k = 0; k < 58; ++k) { double v = f[k*cw*chh + (t ? x*chh+y : y*cw+x)], e = tot > 0 ? hh[k]/tot : 0; MC_CHECK("finite", v >= 0 && v <= 1.001, "bin %d of cell (%d,%d) is %g", k, x, y, v); one += v*v; if (tot == 0 || tot > 1e-3) MC_CHECK(history ? "history" : "bin", fabs(v*v - e) < 2e-5, "bin %d of cell (%d,%d) is %g, expected %g", k, x, y, v, sqrt(e)); }
    MC_CHECK("norm", tot == 0 ? one == 0 : tot < 1e-3 || fabs(one - 1) < 1e-4, "cell (%d,%d) has norm %g", x, y, sqrt(one)); }
  mc_state(mc_hash(cs, f, 4*58*cw*chh)); mc_gfree(im); mc_gfree(f); free(im2); }
static void objs(void) { if (!plain) { plain = vl_lbp_new(VlLbpUniform, VL_FALSE); transp = vl_lbp_new(VlLbpUniform, VL_TRUE); } MC_CHECK("dimension", vl_lbp_get_dimension(plain) == 58 && vl_lbp_get_dimension(transp) == 58, "dimension %d", (int)vl_lbp_get_dimension(plain)); }
static void patterns(void) { /* all the ways 8 neighbours compare to the centre */
  int i, k, c, first = mc_choose(81); objs(); w = h = cs = 3; for (i = 0; i < 81; ++i) { int code = first * 81 + i; for (k = 0; k < 8; ++k) { c = code % 3; code /= 3; pix[(1+oy[k])*3 + 1+ox[k]] = 2 + (c == 0 ? -0.5f : c == 1 ? 0 : 0.25f * (k+1)); } pix[4] = 2; reference(); check(plain, 0, 0); check(transp, 1, 0); } }
static void images(void) { /* all small images */
  static int const sh[][3] = {{3,3,3},{4,3,3},{3,4,3},{4,4,2},{5,3,2},{1,5,2},{2,2,4},{3,5,2}}; int s = mc_choose(8), A = mc_asan && !mc_thorough ? 2 : sh[s][2], n, i, dg[32] = {0}; objs(); w = sh[s][0]; h = sh[s][1]; cs = 1 + mc_choose(3); n = w*h; dg[0] = mc_choose(A); dg[1] = mc_choose(A); if (n > 2) dg[2] = mc_choose(A);
  for (;;) { for (i = 0; i < n; ++i) pix[i] = dg[i]; reference(); check(plain, 0, 0); check(transp, 1, 0); for (i = 3; i < n; ++i) { if (++dg[i] < A) break; dg[i] = 0; } if (i >= n) break; } }
static void geometry(void) {
  int k, i; uint32_t seed; long live; objs(); w = mc_choose(MC_BOUND(13,20,24)); h = mc_choose(MC_BOUND(13,20,24)); live = mc_live; for (cs = 1; cs <= 9; ++cs) for (k = 0; k < MC_TIER(3, 12); ++k) { seed = 1 + w*31 + h*7 + cs*1001 + k*77777; for (i = 0; i < w*h; ++i) pix[i] = k == 0 ? (float)(mc_lcg(&seed) % 256) : k == 1 ? (i % (w?w:1) > w/2) * 3 + (i / (w?w:1)) % 4 : (mc_lcg(&seed) % 3) - 1.f; reference(); check(plain, 0, 0); check(transp, 1, 0); } MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live - live); }
static void positions(void) { /* one bright or dark pixel at every position */
  int p, i; objs(); w = 3 + mc_choose(8); h = 3 + mc_choose(8); cs = 1 + mc_choose(5); for (p = 0; p < w*h; ++p) for (i = 0; i < 2; ++i) { int j; for (j = 0; j < w*h; ++j) pix[j] = j == p ? (i ? 9 : -9) : 0; reference(); check(plain, 0, 0); check(transp, 1, 0); } }
static void history(void) { /* every sequence of images of different sizes through one object */
  int d, t = mc_choose(2); VlLbp *l; long live; mc_fill = mc_choose(2) ? 0xff : 0x55; live = mc_live; l = vl_lbp_new(VlLbpUniform, t); for (d = 0; d < 4; ++d) { int s = mc_choose(6), i; static int const sh[][3] = {{3,3,3},{7,4,2},{4,7,3},{9,9,4},{2,2,1},{8,3,1}}; uint32_t seed = s + 1; w = sh[s][0]; h = sh[s][1]; cs = sh[s][2]; for (i = 0; i < w*h; ++i) pix[i] = mc_lcg(&seed) % 50; reference(); check(l, t, 1); } vl_lbp_delete(l); MC_CHECK("leak", live == mc_live, "leak"); }
static void special(void) { /* infinite and not-a-number pixels only matter by their comparisons */
  static float v[] = {0, 1, 0, 0, 0}; int i, s = mc_choose(25), k; objs(); v[2] = NAN; v[3] = INFINITY; v[4] = -INFINITY; w = 5; h = 4; cs = 1 + mc_choose(3); for (k = 0; k < 40; ++k) { for (i = 0; i < w*h; ++i) pix[i] = v[(i*i + s*i + k*(i/3) + s) % 5]; reference(); check(plain, 0, 0); check(transp, 1, 0); } }
mc_suite mc_suites[] = {
 {"patterns", patterns, "all 6561 ways eight neighbours compare to the centre, plain and transposed"},
 {"images", images, "all images of 8 shapes up to 4x4 over 2..4 values, cells of 1..3 pixels"},
 {"geometry", geometry, "all sizes 0..19 x 0..19 (23 thorough) x cells of 1..9 pixels x 3/12 contents"},
 {"positions", positions, "one bright or dark pixel at every position of every image 3..10 x 3..10, cells of 1..5"},
 {"history", history, "all sequences of 4 images of 6 sizes through one object"},
 {"special", special, "infinite and not-a-number pixels"},
 {0}};
