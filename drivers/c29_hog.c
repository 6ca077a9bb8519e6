/* C29: HOG: definition of both variants, inputs, layouts and orientation assignments; flip; repeatability; history; memory. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/hog.h>
#define MAXS 40
#define MAXN 9
#define MAXCELL 1600
static int w, h, C, cs, n, var, bil, tr; static float img[MAXS*MAXS*3]; /* row major, channel last */
static double mod_[MAXS*MAXS], ang[MAXS*MAXS]; static int directed;
static int hw, hh, D;
static double H[MAXCELL][2*MAXN], F[MAXCELL][4*MAXN+4];
static int dim(void) { return var == VlHogVariantUoctti ? 3*n+4 : 4*n; }
/* gradient of the image, with no value on the border; 0 if the channel is not determined */
static int gradient(void) { int x, y, k, ok = 1; for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double best = -1, gx = 0, gy = 0; mod_[y*w+x] = ang[y*w+x] = 0; if (x == 0 || y == 0 || x == w-1 || y == h-1) continue;
    for (k = 0; k < C; ++k) { float *p = img + k*w*h + y*w + x; double a = (double)p[1]-p[-1], b = (double)p[w]-p[-w], m = a*a+b*b; if (fabs(m-best) <= 1e-5*m && (a != gx || b != gy)) ok = 0; if (m > best) { best = m; gx = a; gy = b; } }
    mod_[y*w+x] = sqrt(best); ang[y*w+x] = atan2(gy, gx); }
  return ok; }
/* the definition applied to a field; 0 if it is not determined */
static int reference(void) { int x, y, o, k, i, ok = 1, per = directed ? 2*n : n; double st = M_PI / n; hw = (w + cs/2)/cs; hh = (h + cs/2)/cs; D = dim(); memset(H, 0, sizeof H);
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double m = mod_[y*w+x], t = ang[y*w+x] / st, fr; int b, cx, cy; if (m <= 0) continue; b = (int)floor(t); fr = t - b; b = ((b % per) + per) % per;
    if (!bil && fabs(fr - .5) < 1e-5) ok = 0; if (!bil) fr = fr < .5 ? 0 : 1;
    for (cy = 0; cy < hh; ++cy) for (cx = 0; cx < hw; ++cx) { double ax = 1 - fabs((x+.5)/cs - cx - .5), ay = 1 - fabs((y+.5)/cs - cy - .5); if (ax > 0 && ay > 0) { H[cy*hw+cx][b] += m*ax*ay*(1-fr); H[cy*hw+cx][(b+1) % per] += m*ax*ay*fr; } } }
  for (y = 0; y < hh; ++y) for (x = 0; x < hw; ++x) { double *f = F[y*hw+x], *c = H[y*hw+x]; memset(f, 0, sizeof F[0]);
    for (k = 0; k < 4; ++k) { double nrm = 1e-4, fac, t = 0; for (i = 0; i < 4; ++i) { int xx = x + k % 2 - 1 + i % 2, yy = y + k / 2 - 1 + i / 2; xx = xx < 0 ? 0 : xx >= hw ? hw-1 : xx; yy = yy < 0 ? 0 : yy >= hh ? hh-1 : yy; for (o = 0; o < n; ++o) { double u = H[yy*hw+xx][o] + H[yy*hw+xx][o+n]; nrm += u*u; } } fac = 1/sqrt(nrm);
      for (o = 0; o < n; ++o) { double a = fmin(.2, fac*c[o]), b = fmin(.2, fac*c[o+n]), u = fmin(.2, fac*(c[o]+c[o+n])); t += u; if (var == VlHogVariantUoctti) { f[o] += a/2; f[o+n] += b/2; f[o+2*n] += u/2; } else f[k*n+o] = u; }
      if (var == VlHogVariantUoctti) f[3*n+k] = t / sqrt(18.); } }
  return ok; }
static float at(float const *f, int x, int y, int k) { return f[k*hw*hh + (tr ? x*hh+y : y*hw+x)]; }
static void describe(char const *s) { int i; if (mc_verbose) { mc_note("%s %dx%d channels %d cell %d orientations %d variant %d bilinear %d transposed %d", s, w, h, C, cs, n, var, bil, tr); for (i = 0; i < w*h*C; ++i) mc_note("%g", img[i]); } }
static float *extract(VlHog *l) { float *f; int i; hw = (w + cs/2)/cs; hh = (h + cs/2)/cs; D = dim(); MC_CHECK("size", (int)vl_hog_get_dimension(l) == D && (int)vl_hog_get_width(l) == (tr ? hh : hw) && (int)vl_hog_get_height(l) == (tr ? hw : hh), "dimension %d, %d x %d cells", (int)vl_hog_get_dimension(l), (int)vl_hog_get_width(l), (int)vl_hog_get_height(l));
  f = mc_galloc(4*D*hw*hh); memset(f, 0xff, 4*D*hw*hh); vl_hog_extract(l, f); mc_gcheck(f); for (i = 0; i < D*hw*hh; ++i) MC_CHECK("finite", f[i] >= 0 && f[i] < 2, "value %d is %g", i, f[i]); mc_op(); return f; }
static void compare(float const *f, char const *key, double tol) { int x, y, k; for (y = 0; y < hh; ++y) for (x = 0; x < hw; ++x) for (k = 0; k < D; ++k) MC_CHECK(key, fabs(at(f,x,y,k) - F[y*hw+x][k]) < tol, "component %d of cell (%d,%d) is %g, the definition gives %g", k, x, y, at(f,x,y,k), F[y*hw+x][k]); }
static VlHog *make(void) { VlHog *l = vl_hog_new(var, n, tr); vl_hog_set_use_bilinear_orientation_assignments(l, bil); MC_CHECK("param", !!vl_hog_get_use_bilinear_orientation_assignments(l) == bil, "bilinear"); return l; }
static float *put_image(VlHog *l) { float *im = mc_galloc(4*w*h*C), *f; int x, y, k; for (k = 0; k < C; ++k) for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) im[k*w*h + (tr ? x*h+y : y*w+x)] = img[k*w*h+y*w+x];
  if (tr) vl_hog_put_image(l, im, h, w, C, cs); else vl_hog_put_image(l, im, w, h, C, cs); mc_gcheck(im); for (k = 0; k < C; ++k) for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) MC_CHECK("input", im[k*w*h + (tr ? x*h+y : y*w+x)] == img[k*w*h+y*w+x], "the image was modified"); mc_gfree(im); f = extract(l); return f; }
static float *put_field(VlHog *l) { float *a = mc_galloc(4*w*h), *m = mc_galloc(4*w*h), *f; int x, y; for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { m[tr ? x*h+y : y*w+x] = mod_[y*w+x]; a[tr ? x*h+y : y*w+x] = ang[y*w+x]; } if (tr) vl_hog_put_polar_field(l, m, a, directed, h, w, cs); else vl_hog_put_polar_field(l, m, a, directed, w, h, cs); mc_gfree(a); mc_gfree(m); f = extract(l); return f; }
static long verified, ambiguous;
/* one image, everything about it */
static void image(int history) { VlHog *l; float *f, *g; int ok, x, y, k; double tol = bil ? 4e-3 : 3e-4; vl_index const *perm; long live = mc_live; describe("image"); l = make(); f = put_image(l); mc_case(1);
  ok = gradient(); directed = 1; ok &= reference(); if (ok) { ++verified; compare(f, "image", tol); } else ++ambiguous;
  g = extract(l); MC_CHECK("repeat", !memcmp(f, g, 4*D*hw*hh), "a second extraction differs"); mc_gfree(g);
  mc_state(mc_hash(var, f, 4*D*hw*hh));
  if (ok) { g = put_field(l); compare(g, "polar", tol/10); for (k = 0; k < D; ++k) for (y = 0; y < hh; ++y) for (x = 0; x < hw; ++x) MC_CHECK("polarimage", fabs(at(f,x,y,k) - at(g,x,y,k)) < tol, "component %d of cell (%d,%d) is %g from the image, %g from its gradient", k, x, y, at(f,x,y,k), at(g,x,y,k)); mc_gfree(g); directed = 0; ok &= reference(); if (ok) { g = put_field(l); compare(g, "undirected", tol/10); mc_gfree(g); } ok = gradient(); directed = 1; ok &= reference(); }
  perm = vl_hog_get_permutation(l); { int cnt[4*MAXN+4] = {0}; for (k = 0; k < D; ++k) { MC_CHECK("permrange", perm[k] >= 0 && perm[k] < D, "permutation[%d] is %d", k, (int)perm[k]); cnt[perm[k]]++; } for (k = 0; k < D; ++k) MC_CHECK("perm", cnt[k] == 1, "the permutation takes %d %d times", k, cnt[k]); }
  if (w % cs == 0 && ok) { static float keep[MAXS*MAXS*3]; memcpy(keep, img, sizeof keep); for (k = 0; k < C; ++k) for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) img[k*w*h+y*w+x] = keep[k*w*h+y*w+w-1-x]; g = put_image(l); for (k = 0; k < D; ++k) for (y = 0; y < hh; ++y) for (x = 0; x < hw; ++x) MC_CHECK("flip", fabs(at(g,x,y,k) - at(f,hw-1-x,y,perm[k])) < tol, "component %d of cell (%d,%d) of the mirror image is %g, the permutation gives %g", k, x, y, at(g,x,y,k), at(f,hw-1-x,y,perm[k])); mc_gfree(g); memcpy(img, keep, sizeof keep); }
  mc_gfree(f); vl_hog_delete(l); MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live - live); (void)history; }
static void content(int mode, uint32_t s) { int i; for (i = 0; i < w*h*C; ++i) { int x = i % w, y = i / w % h, k = i / (w*h); switch (mode) { case 0: img[i] = (mc_lcg(&s) % 10007) / 40.f; break; case 1: img[i] = 3.7f*x - 1.31f*y + k*x*0.9f + (mc_lcg(&s) % 97) / 97.f; break; case 2: img[i] = (x*x - 0.7f*y*y)*0.3f + 0.37f*x*(k+1); break; case 3: img[i] = (x > w/2 ? 50 : 3) + (y > h/3 ? 17 : 0) + (mc_lcg(&s) % 7) * 0.013f; break; default: img[i] = mc_lcg(&s) % 17 == 0 ? 99.5f : 0; } } }
static void geometry(void) {
  int k; w = 4 + mc_choose(MC_BOUND(8,12,17)); h = 4 + mc_choose(MC_BOUND(8,12,17)); cs = 1 + mc_choose(5); var = mc_choose(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs; if ((w + cs/2)/cs < 1) mc_skip(); for (k = 0; k < MC_TIER(16, 60); ++k) { bil = k & 1; tr = k >> 1 & 1; n = 1 + (k*5 + w + 2*h + cs) % 9; C = 1 + (k + w) % 3; content((k + h) % 5, 3 + 7*k + 101*w + 1009*h); image(0); } }
static void small(void) { /* all images of 4x4 pixels whose inner gradients take these values */
  static float const v[] = {0, 1.37f, -0.61f}; int i, p, m = MC_BOUND(2,3,3), cnt = m*m*m*m; static int const pos[] = {1,2,4,7,8,11,13,14}; int dg[8] = {0}; w = h = 4; C = 1; cs = 1 + mc_choose(4); n = 1 + mc_choose(MC_BOUND(4,6,9)); var = mc_choose(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs; bil = mc_choose(2); tr = mc_choose(2); p = mc_choose(9); if (!mc_thorough) p = p; dg[0] = p % 3; dg[1] = p / 3; (void)cnt;
  for (;;) { for (i = 0; i < 16; ++i) img[i] = 0.011f*i; for (i = 0; i < 8; ++i) img[pos[i]] = v[dg[i]] * (1 + 0.173f*i); img[5] = 0.31f; img[6] = -0.77f; img[9] = 1.19f; img[10] = 0.05f; image(0); for (i = 2; i < 8; ++i) { if (++dg[i] < m) break; dg[i] = 0; } if (i == 8) break; } }
static void fields(void) { /* polar fields: one vector at every position with every one of 64 angles; border included */
  int a, k, x, y; VlHog *l; float *f; w = 4 + mc_choose(3)*2; h = 4 + mc_choose(3); C = 1; cs = 1 + mc_choose(4); n = 1 + mc_choose(9); var = mc_choose(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs; bil = mc_choose(2); directed = mc_choose(2); tr = mc_choose(2); l = make();
  for (y = 0; y < h; ++y) for (x = 0; x < w; x += 1 + (x == 1)) for (a = 0; a < 64; a += MC_TIER(5, 1)) { memset(mod_, 0, sizeof mod_); memset(ang, 0, sizeof ang); mod_[y*w+x] = 2.5; ang[y*w+x] = (float)((a - 32) * 2 * M_PI / 32 + 0.0371); for (k = 0; k < w*h; ++k) if ((k*7 + a) % 11 == 0 && k != y*w+x) { mod_[k] = (k % 3) - 0.5; ang[k] = (float)(0.7*k - 9); } mc_case(1); if (mc_verbose) mc_note("field %dx%d cell %d n %d var %d bil %d directed %d vector at (%d,%d) angle %g", w, h, cs, n, var, bil, directed, x, y, ang[y*w+x]); if (!reference()) continue; f = put_field(l); compare(f, "field", 4e-4); mc_state(mc_hash(n, f, 4*D*hw*hh)); mc_gfree(f); }
  vl_hog_delete(l); }
static void history(void) { /* every sequence of inputs through one object against a fresh object */
  int d, L = MC_BOUND(3,3,4), i; VlHog *l; var = mc_choose(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs; bil = 0; tr = mc_choose(2); n = 5; mc_fill = mc_choose(2) ? 0xff : 0x41; l = make();
  for (d = 0; d < L; ++d) { int q = mc_choose(8); static int const sh[][3] = {{4,4,2},{8,4,2},{8,8,4},{4,8,2},{6,5,3},{8,8,2}}; VlHog *fr; float *f, *g; if (q >= 6) { bil = q == 6; vl_hog_set_use_bilinear_orientation_assignments(l, bil); q = d; } w = sh[q][0]; h = sh[q][1]; cs = sh[q][2]; C = 1 + (q + d) % 2; content(q % 5, 77 + q); fr = make(); if (mc_choose(2)) { C = 1; gradient(); directed = d & 1; f = put_field(l); g = put_field(fr); } else { f = put_image(l); g = put_image(fr); } mc_case(1); for (i = 0; i < D*hw*hh; ++i) MC_CHECK("history", f[i] == g[i], "value %d is %g, a fresh object gives %g", i, f[i], g[i]); mc_gfree(g); if (mc_choose(2)) { g = extract(l); for (i = 0; i < D*hw*hh; ++i) MC_CHECK("repeat", f[i] == g[i], "value %d is %g, then %g", i, f[i], g[i]); mc_gfree(g); } mc_gfree(f); vl_hog_delete(fr); }
  vl_hog_delete(l); }
static void render(void) { /* a rendered cell depends on that cell only, scales with it and stays within its weights */
  int i, x, y, k, G, cw = 1 + mc_choose(3), ch = 1 + mc_choose(3), sx = mc_choose(cw), sy = mc_choose(ch), one; float *im, *im1, *d, *d1; VlHog *l; var = mc_choose(2) ? VlHogVariantUoctti : VlHogVariantDalalTriggs; tr = mc_choose(2); bil = 0; n = 1 + mc_choose(9); l = make(); G = vl_hog_get_glyph_size(l); D = dim(); im = mc_galloc(4*G*G*cw*ch); d = mc_galloc(4*D*cw*ch); im1 = mc_galloc(4*G*G); d1 = mc_galloc(4*D);
  for (one = -1; one < n; ++one) { uint32_t s = 5; double lo = 0, hi = 0, sum = 0; for (i = 0; i < D*cw*ch; ++i) d[i] = (mc_lcg(&s) % 100) / 90.f - (var == VlHogVariantUoctti ? 0.3f : 0); for (k = 0; k < D; ++k) { if (one >= 0) d[k*cw*ch + sy*cw + sx] = k == one ? 1.5f : 0; d1[k] = d[k*cw*ch + sy*cw + sx]; } memset(im, 0, 4*G*G*cw*ch); memset(im1, 0, 4*G*G); vl_hog_render(l, im, d, cw, ch); vl_hog_render(l, im1, d1, 1, 1); mc_gcheck(im); mc_gcheck(d); mc_gcheck(im1); mc_op(); mc_case(1);
    for (k = 0; k < n; ++k) { double wt = d1[k] + d1[k+n] + d1[k+2*n] + (var == VlHogVariantUoctti ? 0 : d1[k+3*n]); lo = fmin(lo, wt); hi = fmax(hi, wt); }
    for (y = 0; y < G; ++y) for (x = 0; x < G; ++x) { float v = im[(sy*G + y)*G*cw + sx*G + x]; MC_CHECK("tile", v == im1[y*G+x], "pixel (%d,%d) of the glyph of cell (%d,%d) depends on other cells", x, y, sx, sy); MC_CHECK("renderrange", v >= lo - 1e-4 && v <= hi + 1e-4, "rendered value %g out of [%g,%g]", v, lo, hi); sum += v; if (one >= 0) { /* a bar across the gradient through the centre */ double t = M_PI*one/n, gx = tr ? y : x, gy = tr ? x : y, r = (gx - (G-1)/2.)*cos(t) + (gy - (G-1)/2.)*sin(t); MC_CHECK("bar", v == 0 || v == 1.5f, "value %g", v); MC_CHECK("glyph", v == 0 || fabs(r) <= 0.75, "the glyph of orientation %d of %d has the pixel (%d,%d)", one, n, x, y); } }
    if (one >= 0) MC_CHECK("glyphlen", sum/1.5 >= G*0.65, "the glyph has %g pixels", sum/1.5); }
  vl_hog_delete(l); mc_gfree(im); mc_gfree(im1); mc_gfree(d); mc_gfree(d1); }
static void large(void) { int k, s = mc_choose(MC_TIER(24, 200)); w = 16 + (s*7) % 24; h = 16 + (s*5) % 24; cs = 4 + s % 5; for (k = 0; k < 8; ++k) { C = 1 + k % 3; n = 3 + (s + k) % 7; var = k & 1 ? VlHogVariantUoctti : VlHogVariantDalalTriggs; bil = k >> 1 & 1; tr = k >> 2 & 1; content((s + k) % 5, s*8 + k); image(0); } }
mc_suite mc_suites[] = {
 {"small", small, "all 2187/6561 4x4 images over three values at the pixels next to the centre x cells 1..4 x 1..6 orientations x variants x assignments x layouts"},
 {"geometry", geometry, "4..15 x 4..15 pixels (20 thorough), cells 1..5, 1..9 orientations, 1..3 channels, 5 contents, both variants, assignments and layouts: image, polar fields, mirror image, second extraction"},
 {"fields", fields, "a vector at each position with angles over two turns both ways, directed and undirected, border included"},
 {"history", history, "all sequences of 3/4 images or fields of 6 shapes through one object against a fresh object, extracted once or twice"},
 {"render", render, "glyphs of all orientations for grids up to 3x3"},
 {"large", large, "24/200 images up to 39x39"},
 {0}};
