/* C30: Gaussian scale space: geometry, contents of every level, equality, copies, reuse, memory. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/scalespace.h>
#define MAXP (160*160)
typedef VlScaleSpaceGeometry G;
static G g; static float *image; static long verified, ambiguous;
static double lev[64][MAXP]; /* reference levels, octave by octave */
static int ns, no;
static double sig(int o, int s) { return g.baseScale * pow(2.0, o + (double)s / (double)g.octaveResolution); }
static int ow(int o) { return o <= 0 ? (int)g.width << -o : (int)g.width >> o; }
static int oh(int o) { return o <= 0 ? (int)g.height << -o : (int)g.height >> o; }
/* smoothing with the sampled Gaussian of three sigmas, continuing the image at the border; 0 if the support is on the edge of two sizes */
static int smooth(double *dst, double const *src, int w, int h, double s) { static double k[4096], tmp[MAXP]; int R = (int)ceil(3*s), i, x, y, ok = fabs(3*s - floor(3*s + .5)) > 1e-4 || s == 0; double m = 0; for (i = -R; i <= R; ++i) m += k[i+R] = i ? exp(-0.5*i*i/(s*s)) : 1;
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double a = 0; for (i = -R; i <= R; ++i) { int xx = x+i; xx = xx < 0 ? 0 : xx >= w ? w-1 : xx; a += k[i+R]*src[y*w+xx]; } tmp[y*w+x] = a/m; }
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double a = 0; for (i = -R; i <= R; ++i) { int yy = y+i; yy = yy < 0 ? 0 : yy >= h ? h-1 : yy; a += k[i+R]*tmp[yy*w+x]; } dst[y*w+x] = a/m; } return ok; }
static double *L(int o, int s) { return lev[(o - (int)g.firstOctave)*ns + s - (int)g.octaveFirstSubdivision]; }
static int reference(void) { static double a[MAXP], b[MAXP]; int o, s, x, y, i, ok = 1, fs = g.octaveFirstSubdivision, ls = g.octaveLastSubdivision, fo = g.firstOctave; double d;
  ns = ls - fs + 1; no = g.lastOctave - g.firstOctave + 1;
  for (o = fo; o <= g.lastOctave; ++o) { int w = ow(o), h = oh(o);
    if (o == fo) { int cw = g.width, ch = g.height; for (i = 0; i < cw*ch; ++i) a[i] = image[i];
      if (o > 0) { for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) b[y*w+x] = a[(y << o)*cw + (x << o)]; memcpy(a, b, 8*w*h); }
      for (i = 0; i > o; --i) { for (y = 0; y < 2*ch; ++y) for (x = 0; x < 2*cw; ++x) { int x0 = x/2, y0 = y/2, x1 = x % 2 && x0 < cw-1 ? x0+1 : x0, y1 = y % 2 && y0 < ch-1 ? y0+1 : y0; b[y*2*cw+x] = (a[y0*cw+x0] + a[y0*cw+x1] + a[y1*cw+x0] + a[y1*cw+x1])/4; } cw *= 2; ch *= 2; memcpy(a, b, 8*cw*ch); }
      d = sig(o,fs); if (d > g.nominalScale) { ok &= smooth(b, a, w, h, sqrt(d*d - g.nominalScale*g.nominalScale) / pow(2,o)); memcpy(a, b, 8*w*h); } }
    else { int ps = fs + (int)g.octaveResolution, pw = ow(o-1); double *p, q; if (ps > ls) ps = ls; p = L(o-1,ps); for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) a[y*w+x] = p[2*y*pw+2*x]; d = sig(o,fs); q = sig(o-1,ps); if (d > q*(1+1e-9)) { ok &= smooth(b, a, w, h, sqrt(d*d-q*q) / pow(2,o)); memcpy(a, b, 8*w*h); } }
    memcpy(L(o,fs), a, 8*w*h);
    for (s = fs+1; s <= ls; ++s) { double q = sig(o,s-1); d = sig(o,s); ok &= smooth(L(o,s), L(o,s-1), w, h, sqrt(d*d-q*q)/pow(2,o)); } }
  return ok; }
static int same(G a, G b) { return a.width == b.width && a.height == b.height && a.firstOctave == b.firstOctave && a.lastOctave == b.lastOctave && a.octaveResolution == b.octaveResolution && a.octaveFirstSubdivision == b.octaveFirstSubdivision && a.octaveLastSubdivision == b.octaveLastSubdivision && a.baseScale == b.baseScale && a.nominalScale == b.nominalScale; }
static void describe(void) { if (mc_verbose) mc_note("%dx%d octaves %d..%d resolution %d sublevels %d..%d base %g nominal %g", (int)g.width, (int)g.height, (int)g.firstOctave, (int)g.lastOctave, (int)g.octaveResolution, (int)g.octaveFirstSubdivision, (int)g.octaveLastSubdivision, g.baseScale, g.nominalScale); }
static uint64_t verify(VlScaleSpace *ss, char const *key) { int o, s, i, ok = reference(); uint64_t hsh = 0; double sc = 1; G q = vl_scalespace_get_geometry(ss); MC_CHECK("geometry", same(q, g), "the geometry read back differs"); for (i = 0; i < (int)(g.width*g.height); ++i) if (fabs(image[i]) > sc) sc = fabs(image[i]); mc_case(1);
  for (o = g.firstOctave; o <= g.lastOctave; ++o) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(ss, o); MC_CHECK("octave", (int)og.width == ow(o) && (int)og.height == oh(o) && og.step == pow(2,o), "octave %d is %d x %d with step %g", o, (int)og.width, (int)og.height, og.step);
    for (s = g.octaveFirstSubdivision; s <= g.octaveLastSubdivision; ++s) { float const *l = vl_scalespace_get_level_const(ss, o, s); MC_CHECK("const", l == vl_scalespace_get_level(ss, o, s), "two addresses of a level"); MC_CHECK("sigma", mc_close(vl_scalespace_get_level_sigma(ss,o,s), sig(o,s), 0, 1e-12), "sigma of (%d,%d) is %g, expected %g", o, s, vl_scalespace_get_level_sigma(ss,o,s), sig(o,s)); hsh = mc_hash(hsh, l, 4*ow(o)*oh(o));
      for (i = 0; i < ow(o)*oh(o); ++i) if (ok) MC_CHECK(key, fabs(l[i] - L(o,s)[i]) < 3e-5*sc, "pixel (%d,%d) of the level (%d,%d) is %g, expected %g", i % ow(o), i / ow(o), o, s, l[i], L(o,s)[i]); else MC_CHECK("range", fabs(l[i]) < 1.001*sc, "pixel (%d,%d) of the level (%d,%d) is %g", i % ow(o), i / ow(o), o, s, l[i]); } }
  if (ok) ++verified; else ++ambiguous; mc_state(hsh); return hsh; }
static void fill(int mode, uint32_t s) { int i, n = g.width*g.height; for (i = 0; i < n; ++i) image[i] = mode == 0 ? (mc_lcg(&s) % 1000) / 10.f - 20 : mode == 1 ? (i == (int)(s % n) ? 100 : 0) : mode == 2 ? (i % (int)g.width) * 3.f - (i / (int)g.width) * 1.7f : 7; }
static int levels_fit(int o) { return o <= 0 || (g.width >> o && g.height >> o); }
static void everything(int mode, uint32_t seed) { long live = mc_live; VlScaleSpace *ss, *c, *sc; uint64_t a, b; image = mc_galloc(4*g.width*g.height); describe(); fill(mode, seed); ss = vl_scalespace_new_with_geometry(g); MC_CHECK("null", !!ss, "null"); vl_scalespace_put_image(ss, image); mc_op(); mc_gcheck(image); a = verify(ss, "level");
  c = vl_scalespace_new_copy(ss); b = verify(c, "copy"); MC_CHECK("copy", a == b, "the copy differs"); fill(mode+1, seed+3); sc = vl_scalespace_new_shallow_copy(ss); MC_CHECK("shallow", same(vl_scalespace_get_geometry(sc), g), "the geometry of a shallow copy differs"); vl_scalespace_put_image(ss, image); mc_op(); b = verify(ss, "second"); vl_scalespace_put_image(sc, image); MC_CHECK("history", verify(sc, "level") == b, "the second image of an object gives other levels than a fresh object"); fill(mode, seed); MC_CHECK("independent", verify(c, "level") == a, "the copy changed with the original"); vl_scalespace_delete(ss); MC_CHECK("independent", verify(c, "level") == a, "the copy changed with the original"); vl_scalespace_delete(c); vl_scalespace_delete(sc); mc_gfree(image); MC_CHECK("leak", live == mc_live, "%ld blocks leaked", mc_live - live); }
static double const bs[] = {2.0158736798, 0.83, 1.3, 0, 0.31}, nsc[] = {0.5, 0, 1.37};
static void geometry(void) { static int const sz[][2] = {{1,1},{2,3},{5,4},{7,7},{8,8},{9,6},{3,10},{16,13},{1,6}}; int z = mc_choose(MC_BOUND(7,8,9)), l; g.width = sz[z][0]; g.height = sz[z][1]; g.firstOctave = mc_choose(5) - 2; l = mc_choose(4); g.lastOctave = g.firstOctave + l; if (!levels_fit(g.lastOctave)) mc_skip(); g.octaveResolution = 1 + mc_choose(MC_BOUND(3,3,5)); g.octaveFirstSubdivision = mc_choose(4) - 2; g.octaveLastSubdivision = g.octaveFirstSubdivision + mc_choose((int)g.octaveResolution + 3); for (l = 0; l < 5; ++l) { if (!mc_thorough && (l + z) % 3) continue; g.baseScale = bs[l]; g.nominalScale = nsc[(l + z + (int)g.octaveResolution) % 3]; everything(l % 3, 3 + l); } }
static void sizes(void) { /* every size */
  int k; g.width = 1 + mc_choose(MC_BOUND(12,18,24)); g.height = 1 + mc_choose(MC_BOUND(12,18,24)); for (k = 0; k < 7; ++k) { static int const oo[][4] = {{0,0,0,0},{-1,1,-1,2},{0,2,0,2},{1,2,0,0},{2,3,0,0},{-2,-1,0,1},{1,1,-1,3}}; g.firstOctave = oo[k][0]; g.lastOctave = oo[k][1]; g.octaveResolution = k == 2 || k == 1 ? 3 : 1 + k % 2; g.octaveFirstSubdivision = oo[k][2]; g.octaveLastSubdivision = oo[k][3]; g.baseScale = 1.6 * pow(2, 1./3); g.nominalScale = 0.5; if (levels_fit(g.lastOctave)) everything(k % 3, k); } }
static void equality(void) { /* equal exactly when every field is */
  G a, b; int f = mc_choose(9), d = mc_choose(2), k; g = vl_scalespace_get_default_geometry(20, 30); g.octaveFirstSubdivision = mc_choose(4) - 1; g.octaveLastSubdivision = g.octaveFirstSubdivision + mc_choose(4); g.firstOctave = -1; a = b = g; mc_case(1); MC_CHECK("equal", vl_scalespacegeometry_is_equal(a, b), "sublevels %d..%d: a geometry differs from itself", (int)a.octaveFirstSubdivision, (int)a.octaveLastSubdivision);
  k = d ? 1 : -1; switch (f) { case 0: b.width += k; break; case 1: b.height += k; break; case 2: b.firstOctave += k; break; case 3: b.lastOctave += k; break; case 4: b.octaveResolution += k; break; case 5: b.octaveFirstSubdivision += k; break; case 6: b.octaveLastSubdivision += k; break; case 7: b.baseScale *= 1 + 0.01*k; break; default: b.nominalScale *= 1 + 0.01*k; } MC_CHECK("different", !vl_scalespacegeometry_is_equal(a, b) && !vl_scalespacegeometry_is_equal(b, a), "geometries differing in field %d are equal (sublevels %d..%d)", f, (int)a.octaveFirstSubdivision, (int)a.octaveLastSubdivision); mc_op();
  /* two fields exchanged or shifted together */
  b = a; b.octaveFirstSubdivision = a.octaveLastSubdivision; b.octaveLastSubdivision = a.octaveFirstSubdivision; MC_CHECK("different", !!vl_scalespacegeometry_is_equal(a, b) == same(a, b), "sublevels %d..%d", (int)a.octaveFirstSubdivision, (int)a.octaveLastSubdivision); b = a; b.width = a.height; b.height = a.width; MC_CHECK("different", !vl_scalespacegeometry_is_equal(a, b), "transposed sizes"); }
static void defaults(void) { int w = 1 + mc_choose(40), h = 1 + mc_choose(40), m = w < h ? w : h, lo = 0; VlScaleSpace *ss; while (m >> (lo + 1 + 3)) ++lo; g = vl_scalespace_get_default_geometry(w, h); MC_CHECK("default", (int)g.width == w && (int)g.height == h && g.firstOctave == 0 && g.lastOctave == lo && g.octaveResolution == 3 && g.octaveFirstSubdivision == 0 && g.octaveLastSubdivision == 2 && mc_close(g.baseScale, 1.6*pow(2,1./3), 0, 1e-12) && g.nominalScale == 0.5, "the default geometry of %d x %d has octaves %d..%d", w, h, (int)g.firstOctave, (int)g.lastOctave); ss = vl_scalespace_new(w, h); image = mc_galloc(4*w*h); fill(0, w); vl_scalespace_put_image(ss, image); mc_op(); verify(ss, "level"); vl_scalespace_delete(ss); mc_gfree(image); }
static void analytic(void) { /* a wave is attenuated as the declared scale says, up to the sampling of the kernels */
  int o, s, x, k = mc_choose(3); double om = 0.06 + 0.05*k; VlScaleSpace *ss; g = vl_scalespace_get_default_geometry(160, 1 + mc_choose(3)*20); g.firstOctave = mc_choose(2) ? -1 : 0; if (g.height > 80 || (g.firstOctave < 0 && g.height > 1)) mc_skip(); g.octaveFirstSubdivision = -1; g.octaveLastSubdivision = 3; g.lastOctave = g.height < 4 ? 0 : 2; image = mc_galloc(4*g.width*g.height); for (x = 0; x < (int)(g.width*g.height); ++x) image[x] = 100*cos(om*(x % (int)g.width)); ss = vl_scalespace_new_with_geometry(g); vl_scalespace_put_image(ss, image); mc_op(); mc_case(1);
  for (o = g.firstOctave; o <= g.lastOctave; ++o) for (s = g.octaveFirstSubdivision; s <= g.octaveLastSubdivision; ++s) { float *l = vl_scalespace_get_level(ss, o, s); double sg = vl_scalespace_get_level_sigma(ss, o, s), st = pow(2,o), amp = 100*exp(-0.5*om*om*(sg*sg-0.25)); for (x = 0; x < ow(o); ++x) { double p = x*st; if (p > 5*sg + 2 && p < 159 - 5*sg - 2) MC_CHECK("scale", fabs(l[x + ow(o)*(oh(o)/2)] - amp*cos(om*p)) < 1.5, "level (%d,%d) at %g is %g; smoothed to the scale %g the wave would be %g", o, s, p, l[x + ow(o)*(oh(o)/2)], sg, amp*cos(om*p)); } }
  vl_scalespace_delete(ss); mc_gfree(image); }
static void oom(void) { /* any allocation failing while creating or copying: null and nothing leaked */
  int k; VlScaleSpace *ss, *c; long live; g = vl_scalespace_get_default_geometry(40, 40); g.firstOctave = -1; g.lastOctave = mc_choose(3); image = mc_galloc(4*1600); fill(0, 1); live = mc_live; ss = vl_scalespace_new_with_geometry(g); vl_scalespace_put_image(ss, image); for (k = 1; k < 20; ++k) { long l2 = mc_live; mc_fail_at = mc_allocs + k; c = k % 2 ? vl_scalespace_new_with_geometry(g) : vl_scalespace_new_copy(ss); mc_fail_at = 0; mc_op(); mc_case(1); if (c) vl_scalespace_delete(c); MC_CHECK("oomleak", mc_live == l2, "allocation %d failing: %ld blocks leaked", k, mc_live - l2); } vl_scalespace_delete(ss); MC_CHECK("leak", mc_live == live, "leak"); vl_scalespace_delete(NULL); mc_gfree(image); }
mc_suite mc_suites[] = {
 {"geometry", geometry, "8/9 sizes x first octave -2..2 x 1..4 octaves x resolution 1..3 (5) x first sublevel -2..1 x any number of sublevels x base and nominal scales: contents, copies, second image"},
 {"sizes", sizes, "all sizes 1..18 x 1..18 (24 thorough) x 7 geometries"},
 {"equality", equality, "each field changed either way, sublevel ranges and exchanges"},
 {"defaults", defaults, "default geometry of all sizes 1..40 x 1..40"},
 {"analytic", analytic, "attenuation of waves at every level"},
 {"oom", oom, "each allocation failing in creation and copy"},
 {0}};
