/* C08: column convolution, triangular convolution and Gaussian smoothing against the direct sum. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/mathop.h>
#include <vl/imopv.h>
/* a source image of exactly (h-1)*stride+w elements, aligned so that the vectorised path is taken for stride%16==0 */
static void *src_new(size_t bytes) { void *p; if (posix_memalign(&p, 16, bytes ? bytes : 1)) abort(); memset(p, 0x7f, bytes); return p; }
static double pix(int x, int y) { return 1 + (x*37 + y*101 + x*y*13) % 61; }
static double tap(int t) { static const int p[] = {3,-5,7,11,-13,17,19,-23,29}; return p[(t + 18) % 9]; }
static double at(int x, int y, int h, int zero, double (*I)(int,int)) { if (y < 0) return zero ? 0 : I(x, 0); if (y >= h) return zero ? 0 : I(x, h-1); return I(x, y); }
static double getd(void *p, size_t i, int f) { return f ? ((float*)p)[i] : ((double*)p)[i]; }
static void check_out(const char *key, void *dst, size_t n, int f, double *want, char *set, double atol, double rtol) {
  size_t i;
  for (i = 0; i < n; ++i) {
    if (!set[i]) { unsigned char *b = (unsigned char*)dst + i*(f?4:8); int k; for (k = 0; k < (f?4:8); ++k) MC_CHECK("stray", b[k] == 0xA7, "%s: element %zu of the destination, not part of the result, was written", key, i); }
    else { double g = getd(dst, i, f); MC_CHECK(key, mc_close(g, want[i], atol, rtol), "element %zu is %.9g, direct sum %.9g", i, g, want[i]); }
  }
  mc_case(1);
}
static void conv(void) {
  int f = mc_choose(2), simd = mc_choose(2), w = 1 + mc_choose(MC_BOUND(10, 12, 22)), h = 1 + mc_choose(MC_BOUND(4, 6, 9)), fb, fe, step, flags, sp, R = MC_BOUND(3, 5, 7), sz = f ? 4 : 8;
  for (sp = 0; sp < 3; ++sp) { /* stride: exact, padded, aligned */
    int ss = sp == 0 ? w : sp == 1 ? w + 3 : (w + 15) / 16 * 16, x, y; size_t ns = (size_t)(h-1)*ss + w; void *src = src_new(ns*sz);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) if (f) ((float*)src)[x + y*ss] = pix(x,y); else ((double*)src)[x + y*ss] = pix(x,y);
    for (fb = -R; fb <= R; ++fb) for (fe = fb; fe <= R; ++fe) {
      void *filt = mc_galloc((fe-fb+1)*sz); int t; for (t = fb; t <= fe; ++t) if (f) ((float*)filt)[t-fb] = tap(t); else ((double*)filt)[t-fb] = tap(t);
      for (step = 1; step <= 3; ++step) for (flags = 0; flags < 4; ++flags) {
        int tr = flags & 1, cont = flags >> 1, dh = (h-1)/step + 1, ds = (tr ? dh : w) + (sp + flags) % 3; size_t nd = tr ? (size_t)(w-1)*ds + dh : (size_t)(dh-1)*ds + w, i; void *dst = mc_galloc(nd*sz); double *want = malloc(nd*8); char *set = calloc(nd, 1);
        mc_note("%s simd %d: image %dx%d stride %d, filter [%d,%d], step %d, %s, %s", f ? "float" : "double", simd, w, h, ss, fb, fe, step, cont ? "continuity" : "zero", tr ? "transposed" : "plain");
        memset(dst, 0xA7, nd*sz);
        for (x = 0; x < w; ++x) for (y = 0; y < dh; ++y) { double a = 0; int p; for (p = y*step - fe; p <= y*step - fb; ++p) a += at(x, p, h, !cont, pix) * tap(y*step - p); i = tr ? y + (size_t)x*ds : x + (size_t)y*ds; want[i] = a; set[i] = 1; }
        vl_set_simd_enabled(simd);
        flags = flags; { unsigned fl = (cont ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO) | (tr ? VL_TRANSPOSE : 0);
        if (f) vl_imconvcol_vf(dst, ds, src, w, h, ss, filt, fb, fe, step, fl); else vl_imconvcol_vd(dst, ds, src, w, h, ss, filt, fb, fe, step, fl); }
        vl_set_simd_enabled(1); mc_op(); mc_gcheck(dst); mc_gcheck(filt);
        check_out("sum", dst, nd, f, want, set, 0, 0); mc_state(mc_hash(w*100+h, dst, nd*sz));
        mc_gfree(dst); free(want); free(set);
      }
      mc_gfree(filt);
    }
    free(src);
  }
}
static void tri(void) {
  int f = mc_choose(2), w = 1 + mc_choose(4), h = mc_choose(MC_BOUND(9, 14, 24)), n = 1 + mc_choose(MC_BOUND(8, 12, 20)), step, flags, sp, sz = f ? 4 : 8, x, y;
  for (sp = 0; sp < 2; ++sp) { int ss = w + 2*sp; size_t ns = h ? (size_t)(h-1)*ss + w : 0; void *src = src_new(ns*sz);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) if (f) ((float*)src)[x + y*ss] = pix(x,y); else ((double*)src)[x + y*ss] = pix(x,y);
    for (step = 1; step <= 4; ++step) for (flags = 0; flags < 4; ++flags) {
      int tr = flags & 1, cont = flags >> 1, dh = h ? (h-1)/step + 1 : 0, ds = (tr ? dh : w) + sp; size_t nd = !h ? 0 : tr ? (size_t)(w-1)*ds + dh : (size_t)(dh-1)*ds + w, i; void *dst = mc_galloc(nd*sz); double *want = malloc(nd*8+8); char *set = calloc(nd+1, 1); long live = mc_live;
      mc_note("%s triangle %d: image %dx%d stride %d, step %d, %s, %s", f ? "float" : "double", n, w, h, ss, step, cont ? "continuity" : "zero", tr ? "transposed" : "plain");
      memset(dst, 0xA7, nd*sz);
      for (x = 0; x < w; ++x) for (y = 0; y < dh; ++y) { double a = 0; int t; for (t = -n+1; t < n; ++t) a += at(x, y*step - t, h, !cont, pix) * (n - abs(t)); i = tr ? y + (size_t)x*ds : x + (size_t)y*ds; want[i] = a / ((double)n*n); set[i] = 1; }
      { unsigned fl = (cont ? VL_PAD_BY_CONTINUITY : VL_PAD_BY_ZERO) | (tr ? VL_TRANSPOSE : 0);
      if (f) vl_imconvcoltri_f(dst, ds, src, w, h, ss, n, step, fl); else vl_imconvcoltri_d(dst, ds, src, w, h, ss, n, step, fl); }
      mc_op(); mc_gcheck(dst); MC_CHECK("leak", mc_live == live, "triangular convolution of a %dx%d image leaks %ld blocks", w, h, mc_live - live);
      check_out("triangle", dst, nd, f, want, set, f ? 2e-4 : 1e-10, f ? 1e-5 : 1e-12); mc_state(mc_hash(n, dst, nd*sz));
      mc_gfree(dst); free(want); free(set);
    }
    free(src); }
}
static double gauss(double *g, double sigma) { int w = (int)ceil(sigma*3.0), i; double m = 0; for (i = -w; i <= w; ++i) { g[i+w] = i ? exp(-0.5*(i/sigma)*(i/sigma)) : 1; m += g[i+w]; } for (i = 0; i <= 2*w; ++i) g[i] /= m; return w; }
static void smooth(void) {
  static const double S[] = {0, 0.3, 0.6, 1, 1.6, 2.5}; double gx[40], gy[40], *t, *want; char *set;
  int f = mc_choose(2), simd = mc_choose(2), w = 1 + mc_choose(MC_BOUND(9, 20, 36)), h = 1 + mc_choose(MC_BOUND(7, 9, 18)), a = mc_choose(6), b = mc_choose(6), sp, x, y, sz = f ? 4 : 8, wx = gauss(gx, S[a]), wy = gauss(gy, S[b]), k;
  for (sp = 0; sp < 2; ++sp) { int ss = w + 5*sp, ds = w + 3*sp; size_t ns = (size_t)(h-1)*ss + w, nd = (size_t)(h-1)*ds + w; void *src = src_new(ns*sz), *dst = mc_galloc(nd*sz); long live;
    mc_note("%s simd %d: smoothing %dx%d by %g,%g", f ? "float" : "double", simd, w, h, S[a], S[b]);
    t = malloc(w*h*8); want = malloc(nd*8); set = calloc(nd, 1); memset(dst, 0xA7, nd*sz);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) if (f) ((float*)src)[x + y*ss] = pix(x,y); else ((double*)src)[x + y*ss] = pix(x,y);
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double s = 0; for (k = -wy; k <= wy; ++k) s += gy[k+wy] * at(x, y-k, h, 0, pix); t[x+y*w] = s; }
    for (y = 0; y < h; ++y) for (x = 0; x < w; ++x) { double s = 0; for (k = -wx; k <= wx; ++k) { int q = x - k; q = q < 0 ? 0 : q >= w ? w-1 : q; s += gx[k+wx] * t[q+y*w]; } want[x + y*ds] = s; set[x+y*ds] = 1; }
    vl_set_simd_enabled(simd); live = mc_live;
    if (f) vl_imsmooth_f(dst, ds, src, w, h, ss, S[a], S[b]); else vl_imsmooth_d(dst, ds, src, w, h, ss, S[a], S[b]);
    vl_set_simd_enabled(1); mc_op(); mc_gcheck(dst); MC_CHECK("leak", mc_live == live, "smoothing leaks %ld blocks", mc_live - live);
    check_out("smooth", dst, nd, f, want, set, f ? 3e-4 : 1e-10, 0); mc_state(mc_hash(a*6+b, dst, nd*sz));
    mc_gfree(dst); free(src); free(t); free(want); free(set); }
}
mc_suite mc_suites[] = {
  {"convolution", conv, "float/double x SIMD on/off x all image sizes up to 12x6 (22x9) x 3 strides x all supports within [-5,5] ([-7,7]) x steps 1..3 x padding x transposition; exact integer sums", 0},
  {"triangle", tri, "float/double x widths 1..4 x heights 0..13 (0..23) x triangle sizes 1..12 (20) x strides x steps 1..4 x padding x transposition", 0},
  {"smooth", smooth, "float/double x SIMD on/off x all image sizes up to 20x9 (36x18) x 6x6 sigmas x strides", 0},
  {0}};
