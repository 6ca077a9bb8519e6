/* C09: distance transform, integral image and gradients against their definitions. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/mathop.h>
#include <vl/imopv.h>
#define INF HUGE_VAL
static const double co[] = {0, 0.25, 0.5, 1, 2, 5}, of[] = {0, 1, -1, 0.5, -2.25, 3};
static double getd(void *p, size_t i, int f) { return f ? ((float*)p)[i] : ((double*)p)[i]; }
static void setd(void *p, size_t i, int f, double v) { if (f) ((float*)p)[i] = v; else ((double*)p)[i] = v; }
static double cost(double v, int u2, int u, double c, double o) { double d = u - u2 - o; return c*d*d + v; }
static void dt(void *im, int f, int nc, int nr, int cs, int rs, void *out, vl_uindex *idx, double c, double o) { if (f) vl_image_distance_transform_f(im, nc, nr, cs, rs, out, idx, c, o); else vl_image_distance_transform_d(im, nc, nr, cs, rs, out, idx, c, o); mc_op(); }
/* every row of values from the alphabet */
static void dtrow(void) {
  static const double al[] = {0, 1, 3, 10, INF, -2}; int f = mc_choose(2), c = mc_choose(6), o = mc_choose(6), n = 1 + mc_choose(MC_BOUND(4, 6, 7)), k, u, v, i, pl; double v0[8]; long N = 1, q, na = n <= 5 ? 6 : 5; int sz = f ? 4 : 8;
  if (n > 6) na = 4;
  for (i = 0; i < n; ++i) N *= na;
  for (q = 0; q < N; ++q) for (pl = 0; pl < 2; ++pl) { long r = q; void *im = mc_galloc(n*sz), *out = pl ? im : mc_galloc(n*sz); vl_uindex *ix = mc_galloc(n*sizeof *ix), ix0[8];
    if (n == 6 && pl) { mc_gfree(im); mc_gfree(out == im ? ix : out); if (out != im) mc_gfree(ix); continue; }
    for (i = 0; i < n; ++i) { v0[i] = al[r % na]; r /= na; setd(im, i, f, v0[i]); ix0[i] = ix[i] = 100 + i*7; }
    mc_note("%s coeff %g offset %g row %g %g %g %g %g %g %g%s", f ? "float" : "double", co[c], of[o], v0[0], n>1?v0[1]:0, n>2?v0[2]:0, n>3?v0[3]:0, n>4?v0[4]:0, n>5?v0[5]:0, n>6?v0[6]:0, pl ? " in place" : "");
    dt(im, f, n, 1, 1, n, out, ix, co[c], of[o]);
    mc_gcheck(im); mc_gcheck(out); mc_gcheck(ix);
    for (u = 0; u < n; ++u) { double best = INF, got = getd(out, u, f); for (v = 0; v < n; ++v) { double x = cost(v0[v], v, u, co[c], of[o]); if (x < best) best = x; }
      MC_CHECK("dt", mc_close(got, best, f ? 1e-5 : 1e-12, f ? 1e-6 : 1e-12), "length %d, coefficient %g, offset %g: D(%d) = %g, minimum %g", n, co[c], of[o], u, got, best);
      for (k = 0; k < n && ix0[k] != ix[u]; ++k);
      MC_CHECK("dt-index", k < n, "the index at %d is none of the input indexes", u);
      MC_CHECK("dt-index", mc_close(cost(v0[k], k, u, co[c], of[o]), best, 1e-5, 1e-6), "length %d, coefficient %g, offset %g: the index at %d is that of %d, with cost %g, minimum %g", n, co[c], of[o], u, k, cost(v0[k], k, u, co[c], of[o]), best); }
    if (!pl) { for (i = 0; i < n; ++i) MC_CHECK("dt-input", getd(im, i, f) == v0[i], "the image was changed"); mc_gfree(out); }
    mc_state(mc_hash(q, ix, n*sizeof *ix)); mc_case(1); mc_gfree(im); mc_gfree(ix); }
}
/* two passes on 2-d images, with strides, as documented */
static void dt2(void) {
  int f = mc_choose(2), w = 1 + mc_choose(MC_TIER(5,7)), h = 1 + mc_choose(MC_TIER(4,6)), c1 = 1 + mc_choose(3), c2 = 1 + mc_choose(3), o1 = mc_choose(4), o2 = mc_choose(4), pad = mc_choose(2), pat = mc_choose(4), x, y, a, b, sz = f ? 4 : 8, st = w + 2*pad, withidx; double v0[64];
  for (withidx = 0; withidx < 2; ++withidx) { size_t n = (size_t)(h-1)*st + w; void *im = mc_galloc(n*sz), *out = mc_galloc(n*sz); vl_uindex *ix = mc_galloc(n*sizeof *ix); size_t i;
    for (i = 0; i < n; ++i) { setd(im, i, f, -777); setd(out, i, f, -555); ix[i] = 9999; }
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double v = pat == 0 ? (x*7 + y*5 + x*y*3) % 11 : pat == 1 ? ((x + y*w) == (w*h)/2 ? 0 : INF) : pat == 2 ? ((x*3 + y) % 4 == 0 ? 0 : 20) : (x-2)*(x-2) + 3*y; v0[x+y*w] = v; setd(im, x+y*st, f, v); ix[x+y*st] = x + y*st; }
    dt(im, f, w, h, 1, st, out, withidx ? ix : 0, co[c1], of[o1]); dt(out, f, h, w, st, 1, out, withidx ? ix : 0, co[c2], of[o2]);
    mc_gcheck(im); mc_gcheck(out); mc_gcheck(ix);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double best = INF, g; for (b = 0; b < h; ++b) for (a = 0; a < w; ++a) { double q = cost(cost(v0[a+b*w], a, x, co[c1], of[o1]), b, y, co[c2], of[o2]); if (q < best) best = q; }
      g = getd(out, x+y*st, f); MC_CHECK("dt2", mc_close(g, best, f ? 1e-4 : 1e-11, f ? 1e-5 : 1e-12), "%dx%d, pattern %d: D(%d,%d) = %g, minimum %g", w, h, pat, x, y, g, best);
      if (withidx) { int k = ix[x+y*st]; a = k % st; b = k / st; MC_CHECK("dt2-index", k >= 0 && a < w && b < h, "index %d at (%d,%d)", k, x, y); g = cost(cost(v0[a+b*w], a, x, co[c1], of[o1]), b, y, co[c2], of[o2]); MC_CHECK("dt2-index", mc_close(g, best, 1e-4, 1e-5), "index (%d,%d) at (%d,%d) has cost %g, minimum %g", a, b, x, y, g, best); }
    }
    for (i = 0; i < n; ++i) if ((int)(i % st) >= w) MC_CHECK("dt-stray", getd(out, i, f) == -555 && getd(im, i, f) == -777, "padding of the image written");
    mc_state(mc_hash(pat, out, n*sz)); mc_gfree(im); mc_gfree(out); mc_gfree(ix); }
}
static void integral(void) {
  int ty = mc_choose(4), w = mc_choose(MC_TIER(6, 10)), h = mc_choose(MC_TIER(6, 10)), si = w + mc_choose(3), so = w + mc_choose(3), pat = mc_choose(3), x, y, a, b, sz = ty == 1 ? 8 : 4; size_t ni = h ? (size_t)(h-1)*si + w : 0, no = h ? (size_t)(h-1)*so + w : 0, i; void *im = mc_galloc(ni*sz), *out = mc_galloc(no*sz);
  memset(im, 0x55, ni*sz); memset(out, 0xA7, no*sz); mc_note("type %d %dx%d strides %d %d", ty, w, h, si, so);
#define V(x,y) (pat == 0 ? 1 + x*3 + y*7 : pat == 1 ? (x*5 + y*3) % 7 - 3 : (x == w/2 && y == h/2) * 1000)
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double v = V(x,y); switch (ty) { case 0: ((float*)im)[x+y*si] = v; break; case 1: ((double*)im)[x+y*si] = v; break; case 2: ((vl_uint32*)im)[x+y*si] = (vl_uint32)(int)v * (pat == 1 ? 0x10000001u : 1); break; default: ((vl_int32*)im)[x+y*si] = v; } }
  switch (ty) { case 0: vl_imintegral_f(out, so, im, w, h, si); break; case 1: vl_imintegral_d(out, so, im, w, h, si); break; case 2: vl_imintegral_ui32(out, so, im, w, h, si); break; default: vl_imintegral_i32(out, so, im, w, h, si); }
  mc_op(); mc_gcheck(im); mc_gcheck(out);
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double s = 0; vl_uint32 u = 0; for (b = 0; b <= y; ++b) for (a = 0; a <= x; ++a) { s += V(a,b); if (ty == 2) u += ((vl_uint32*)im)[a+b*si]; }
    switch (ty) { case 0: MC_CHECK("integral", ((float*)out)[x+y*so] == s, "float (%d,%d)", x, y); break; case 1: MC_CHECK("integral", ((double*)out)[x+y*so] == s, "double (%d,%d)", x, y); break; case 2: MC_CHECK("integral", ((vl_uint32*)out)[x+y*so] == u, "uint32 (%d,%d)", x, y); break; default: MC_CHECK("integral", ((vl_int32*)out)[x+y*so] == s, "int32 (%d,%d)", x, y); } mc_case(1); }
  for (i = 0; i < no; ++i) if ((int)(i % so) >= w) MC_CHECK("integral-stray", ((unsigned char*)out)[i*sz] == 0xA7, "padding written");
  mc_state(mc_hash(ty, out, no*sz)); mc_gfree(im); mc_gfree(out);
}
/* gradients: every image over a 3-letter alphabet for small sizes, fixed patterns for larger */
static void gradcase(int f, int w, int h, int is, int ws, int hs, double *v) {
  int sz = f ? 4 : 8, x, y, pol; size_t ni = (size_t)(h-1)*is + w, no = (size_t)(h-1)*hs + (size_t)(w-1)*ws + 1, i;
  for (pol = 0; pol < 2; ++pol) { void *im = mc_galloc(ni*sz), *A = mc_galloc(no*sz), *B = mc_galloc(no*sz); char *set = calloc(no, 1);
    memset(im, 0x7e, ni*sz); memset(A, 0xA7, no*sz); memset(B, 0xA7, no*sz);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) setd(im, x+y*is, f, v[x+y*w]);
    if (!pol) { if (f) vl_imgradient_f(A, B, ws, hs, im, w, h, is); else vl_imgradient_d(A, B, ws, hs, im, w, h, is); }
    else { if (f) vl_imgradient_polar_f(A, B, ws, hs, im, w, h, is); else vl_imgradient_polar_d(A, B, ws, hs, im, w, h, is); }
    mc_op(); mc_gcheck(im); mc_gcheck(A); mc_gcheck(B);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double gx, gy, a = getd(A, x*ws+y*hs, f), b = getd(B, x*ws+y*hs, f); set[x*ws+y*hs] = 1;
      gx = w == 1 ? 0 : x == 0 ? v[1+y*w] - v[y*w] : x == w-1 ? v[x+y*w] - v[x-1+y*w] : 0.5*(v[x+1+y*w] - v[x-1+y*w]);
      gy = h == 1 ? 0 : y == 0 ? v[x+w] - v[x] : y == h-1 ? v[x+y*w] - v[x+(y-1)*w] : 0.5*(v[x+(y+1)*w] - v[x+(y-1)*w]);
      if (!pol) MC_CHECK("gradient", a == gx && b == gy, "%dx%d: gradient at (%d,%d) is (%g,%g), expected (%g,%g)", w, h, x, y, a, b, gx, gy);
      else { double m = sqrt(gx*gx+gy*gy), t = atan2(gy,gx), d; MC_CHECK("modulus", mc_close(a, m, 1e-6, 1e-4), "%dx%d: modulus at (%d,%d) is %g, expected %g", w, h, x, y, a, m); MC_CHECK("angle", b >= 0 && b <= 2*M_PI + 1e-5, "angle %g out of range", b); d = fabs(remainder(b - t, 2*M_PI)); if (m > 0) MC_CHECK("angle", d < 0.012, "%dx%d: angle at (%d,%d) is %g, expected %g", w, h, x, y, b, t); } }
    for (i = 0; i < no; ++i) if (!set[i]) MC_CHECK("gradient-stray", ((unsigned char*)A)[i*sz] == 0xA7 && ((unsigned char*)B)[i*sz] == 0xA7, "%dx%d strides %d,%d: element %zu of the gradient planes is not part of them but was written", w, h, ws, hs, i);
    mc_state(mc_mix(mc_hash(w, A, no*sz), h)); mc_case(1); mc_gfree(im); mc_gfree(A); mc_gfree(B); free(set); }
}
static void gradall(void) {
  int f = mc_choose(2), w = 1 + mc_choose(4), h = 1 + mc_choose(4), n = w*h, i; long N = 1, q; double v[16]; static const double al[] = {0, 1, 5}; int na = n <= 8 ? 3 : 2, mx = MC_BOUND(9, 12, 16);
  if (n > mx) mc_skip();
  for (i = 0; i < n; ++i) N *= na;
  for (q = 0; q < N; ++q) { long r = q; for (i = 0; i < n; ++i) { v[i] = al[r % na]; r /= na; } gradcase(f, w, h, w, 1, w, v); }
}
static void gradgeo(void) {
  int f = mc_choose(2), w = 1 + mc_choose(MC_TIER(7,12)), h = 1 + mc_choose(MC_TIER(7,12)), pi = mc_choose(3), lay = mc_choose(4), x, y; double v[256];
  for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) v[x+y*w] = (x*x*3 + y*7 + x*y*5) % 23 - 9;
  mc_note("%dx%d stride %d layout %d", w, h, w + pi, lay);
  if (lay == 0) gradcase(f, w, h, w+pi, 1, w+2, v); else if (lay == 1) gradcase(f, w, h, w+pi, 2, 2*w, v); else if (lay == 2) gradcase(f, w, h, w+pi, h, 1, v); else gradcase(f, w, h, w+pi, 3, 3*w+4, v);
}
mc_suite mc_suites[] = {
  {"dt-rows", dtrow, "float/double x 6 coefficients x 6 offsets x every row of length 1..5 over {0,1,3,10,inf,-2} and 6..7 over a smaller alphabet x in place or not", 0},
  {"dt-2d", dt2, "float/double x all sizes up to 5x4 (7x6) x 9 coefficient pairs x 16 offset pairs x stride x 4 patterns x with/without indexes", 0},
  {"integral", integral, "4 types x all sizes 0..5 (0..9) x strides x 3 patterns", 0},
  {"gradient-all", gradall, "float/double x every image of up to 8 pixels over {0,1,5}, up to 12 (16) pixels over {0,1}, plain and polar", 0},
  {"gradient-geometry", gradgeo, "float/double x all sizes up to 7x7 (12x12) x image strides x 4 output layouts, plain and polar", 0},
  {0}};
