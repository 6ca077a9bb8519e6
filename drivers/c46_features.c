/* C46: the feature functions of the toolbox give the library's features in MATLAB's conventions. */
#include "mc.h"
#include "mex.h"
#include "zoo.h"
#include <vl/generic.h>
#include <vl/sift.h>
#include <vl/dsift.h>
#include <vl/covdet.h>
#include <vl/mser.h>
#include <vl/hog.h>
#include <vl/lbp.h>
#include <vl/liop.h>
#define F(n) extern void mex_##n(int, mxArray **, int, const mxArray **);
F(vl_sift) F(vl_siftdescriptor) F(vl_dsift) F(vl_covdet) F(vl_mser) F(vl_erfill) F(vl_hog) F(vl_lbp) F(vl_liop)
#define PI 3.14159265358979323846

/* Two calls with different remains on the stack: a result made of uninitialised memory differs. */
static void __attribute__((noinline)) dirty(int c) { volatile char b[40000]; for (size_t i = 0; i < sizeof b; i++) b[i] = c; }
static int twice(const char *fn, mexfn f, int nout, mxArray **out, int nin, mxArray **in) {
  mxArray *o[8]; dirty(0x3e); int r = mex_call(f, nout, out, nin, in); char m[200]; snprintf(m, sizeof m, "%s", mex_message); dirty(0x41); int q = mex_call(f, nout, o, nin, in); MC_CHECK("repeat", r == q, "%s: the same call gives '%s' and then '%s'", fn, m, mex_message); if (r) return r;
  for (int i = 0; i < (nout ? nout : 1); i++) MC_CHECK("repeat", mx_hash(out[i]) == mx_hash(o[i]), "%s: the same call gives two different results (result %d): %s and %s", fn, i + 1, out[i] ? show(out[i]) : "", o[i] ? show(o[i]) : ""); return 0;
}
/* images: column-major values of a smooth scene with some structure, or noise */
static float pix(int pat, int x, int y) {
  switch (pat) {
    case 0: return 0; case 1: return 100 * expf(-.08f * ((x - 6) * (x - 6) + (y - 4) * (y - 4))) + 60 * expf(-.3f * ((x - 13) * (x - 13) + (y - 11) * (y - 11)));
    case 2: { unsigned h = x * 7919u + y * 104729u + 12345u; h = h * 1664525u + 1013904223u; h ^= h >> 13; h *= 2654435761u; return (h >> 8) % 251 * .9f; }
    case 3: return ((x / 4) + (y / 3)) % 2 * 200.f + x * .37f + y * .11f; case 4: return x * 5.f + y * y * .4f;
    default: return 120 * expf(-.05f * ((x - 9) * (x - 9) * .5f + (y - 8) * (y - 8) * 2)) * (1 + .2f * x) + (x * y) % 7;
  }
}
static mxArray *img(int pat, int M, int N) { mxArray *I = mx2(mxSINGLE_CLASS, M, N, 0); for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) ((float *)mxGetData(I))[x * M + y] = pix(pat, x, y); return I; }
static float rowbuf[64 * 64 * 3];                 /* the same image, row by row */
static float *rows(const mxArray *I) { int M = mxGetM(I), N = mxGetN(I); for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) rowbuf[y * N + x] = ((float *)mxGetData(I))[x * M + y]; return rowbuf; }
/* the descriptor of the mirror image of a patch: rows of bins in reverse order, orientations mirrored */
static void mirror(float *d, const float *s) { for (int by = 0; by < 4; by++) for (int bx = 0; bx < 4; bx++) for (int t = 0; t < 8; t++) d[((3 - by) * 4 + bx) * 8 + (8 - t) % 8] = s[(by * 4 + bx) * 8 + t]; }
static double f512(float v) { return 512.0F * v; }

/* ---- SIFT ---- */
static const int SH[][2] = {{16, 20}, {20, 12}, {9, 9}, {1, 1}, {2, 3}, {1, 8}, {33, 18}, {8, 8}, {0, 4}, {0, 0}, {40, 40}};
static const double FR[][4] = {{7, 5, 2, 0}, {7, 5, 1.2, 0.7}, {3.5, 8.25, 3.3, -2}, {13.4, 11.6, 4.4, 3}, {1, 1, 1.6, 0}, {-3, 4, 1.8, 1}, {12, 90, 2.1, 0.3}, {7, 5, 0.2, 0}, {6, 6, 40, 1}, {12, 2.5, 2.6, -7}, {0.5, 0.5, 2.2, 0}};
typedef struct { double f[4]; float d[128]; int has; } Res; static Res R[4096]; static int nR;
typedef struct { int O, S, o; double peak, edge, norm, mag, win; } Sopt;
static VlSiftFilt *filt(int w, int h, Sopt *p) { VlSiftFilt *f = vl_sift_new(w, h, p->O, p->S, p->o); if (p->peak >= 0) vl_sift_set_peak_thresh(f, p->peak); if (p->edge >= 0) vl_sift_set_edge_thresh(f, p->edge); if (p->norm >= 0) vl_sift_set_norm_thresh(f, p->norm); if (p->mag >= 0) vl_sift_set_magnif(f, p->mag); if (p->win >= 0) vl_sift_set_window_size(f, p->win); return f; }
static void emit(VlSiftFilt *f, const VlSiftKeypoint *k, double a) { Res *r = R + nR++; float b[128]; memset(b, 0, sizeof b); vl_sift_calc_keypoint_descriptor(f, b, k, a); mirror(r->d, b); r->f[0] = k->y + 1.; r->f[1] = k->x + 1.; r->f[2] = k->sigma; r->f[3] = PI / 2 - a; r->has = 1; }
static void s_sift(void) {
  mx_release(); int s = mc_choose(MC_BOUND(8, 10, 11)), pat = mc_choose(MC_BOUND(4, 6, 4)), M = SH[s][0], N = SH[s][1], mode = mc_choose(3); Sopt p = {-1, 3, 0, -1, -1, -1, -1, -1}; mxArray *in[32], *out[2]; int k = 0, flt = 0, v; double fr[12]; int nf = -1; in[k++] = img(pat, M, N);
  static const double PK[] = {0, .5, 4, 0}, ED[] = {0, 5, 1.5, 1}, NO[] = {0, 1, 5}, MA[] = {0, 1.5, 0, 6}, WI[] = {0, .5, 0, 20};
  if ((v = mc_dev(5))) { p.O = v == 4 ? 9 : v - 1; in[k++] = str("octaves"); in[k++] = sc(p.O); }
  if ((v = mc_dev(4))) { p.S = v == 3 ? 5 : v; in[k++] = str("Levels"); in[k++] = sc(p.S); }
  if ((v = mc_dev(4))) { p.o = v == 1 ? -1 : v == 3 ? -2 : 1; in[k++] = str("FIRSTOCTAVE"); in[k++] = sc(p.o); }
  if ((v = mc_dev(4))) { p.peak = PK[v]; in[k++] = str("PeakThresh"); in[k++] = sc(p.peak); }
  if ((v = mc_dev(4))) { p.edge = ED[v]; in[k++] = str("EdgeThresh"); in[k++] = sc(p.edge); }
  if ((v = mc_dev(3))) { p.norm = NO[v]; in[k++] = str("NormThresh"); in[k++] = sc(p.norm); }
  if ((v = mc_dev(4))) { p.mag = MA[v]; in[k++] = str("Magnif"); in[k++] = sc(p.mag); }
  if ((v = mc_dev(4))) { p.win = WI[v]; in[k++] = str("WindowSize"); in[k++] = sc(p.win); }
  if (mode) { nf = mc_choose(3); static int u[3]; for (int i = 0; i < nf; i++) { u[i] = mc_choose(MC_BOUND(7, 9, 9)); for (int j = 0; j < i; j++) if (u[j] == u[i]) mc_skip(); memcpy(fr + 4 * i, FR[u[i]], 32); } in[k++] = str("Frames"); in[k++] = mx2(mxDOUBLE_CLASS, 4, nf, fr); if (mode == 2) in[k++] = str("Orientations"); }
  if (mc_dev(2)) { flt = 1; in[k++] = str("FloatDescriptors"); } if (mc_dev(2)) in[k++] = str("verbose"); int nout = 2 - mc_dev(3);
  mc_note("vl_sift of %dx%d, image %d, %s, %d octaves from %d, %d levels, frames %s", M, N, pat, mode == 0 ? "detect" : mode == 1 ? "frames" : "frames and orientations", p.O, p.o, p.S, mode ? show(mx2(mxDOUBLE_CLASS, 4, nf, fr)) : "");
  int r = twice("vl_sift", mex_vl_sift, nout, out, k, in); if (!M || !N) { if (!r) MC_CHECK("sift", nf > 0 || mxGetN(out[0]) == 0, "vl_sift finds keypoints in an empty image"); return; } MC_CHECK("sift", r == 0, "vl_sift: error '%s'", mex_message);
  nR = 0; VlSiftFilt *f = filt(M, N, &p); float *copy = malloc(M * N * sizeof(float)); memcpy(copy, mxGetData(in[0]), M * N * sizeof(float)); int done[3] = {0};
  for (int err = vl_sift_process_first_octave(f, copy); !err; err = vl_sift_process_next_octave(f)) {
    double a[4]; if (nf < 0) { vl_sift_detect(f); const VlSiftKeypoint *kk = vl_sift_get_keypoints(f); int n = vl_sift_get_nkeypoints(f); for (int i = 0; i < n; i++) { int na = vl_sift_calc_keypoint_orientations(f, a, kk + i); for (int q = 0; q < na; q++) emit(f, kk + i, a[q]); } }
    else for (int i = 0; i < nf; i++) { VlSiftKeypoint kp; vl_sift_keypoint_init(f, &kp, fr[4 * i + 1] - 1, fr[4 * i] - 1, fr[4 * i + 2]); if (kp.o != vl_sift_get_octave_index(f)) continue; int na = 1; a[0] = PI / 2 - fr[4 * i + 3]; if (mode == 2) na = vl_sift_calc_keypoint_orientations(f, a, &kp); for (int q = 0; q < na; q++) emit(f, &kp, a[q]); done[i]++; }
  }
  vl_sift_delete(f); if (nf > 0 && p.O) for (int i = 0; i < nf; i++) MC_CHECK("harness", done[i] == 1 || fr[4 * i + 2] > 8 || M < 4 || N < 4 || p.O > 0, "frame %d handled %d times", i, done[i]);
  const mxArray *Fm = out[0], *D = nout > 1 ? out[1] : 0; MC_CHECK("sift", mxGetClassID(Fm) == mxDOUBLE_CLASS && mxGetM(Fm) == 4 && (int)mxGetN(Fm) == nR, "vl_sift gives %dx%d frames rather than 4x%d", (int)mxGetM(Fm), (int)mxGetN(Fm), nR);
  if (D) MC_CHECK("sift", mxGetClassID(D) == (flt ? mxSINGLE_CLASS : mxUINT8_CLASS) && mxGetM(D) == 128 && (int)mxGetN(D) == nR, "vl_sift: class or size of the descriptors");
  for (int i = 0; i < nR; i++) {
    if (nf >= 0 && i) MC_CHECK("sift-order", mxv(Fm, 4 * i + 2) >= mxv(Fm, 4 * i - 2), "vl_sift: frame %d has a smaller scale than the one before it", i + 1);
    int j, best = -1; for (j = nf < 0 ? i : 0; j < (nf < 0 ? i + 1 : nR); j++) { if (!R[j].has) continue; int ok = 1; for (int q = 0; q < 4; q++) ok &= fabs(mxv(Fm, 4 * i + q) - R[j].f[q]) <= 1e-6 * (1 + fabs(R[j].f[q])); if (ok && D) for (int q = 0; q < 128; q++) { double e = f512(R[j].d[q]); if (!flt) { e = e < 255 ? e : 255; ok &= fabs(mxv(D, 128 * i + q) - floor(e)) <= (e - floor(e) < 1e-3 || e - floor(e) > .999); } else ok &= fabs(mxv(D, 128 * i + q) - e) <= 1e-4 * (1 + fabs(e)) || (isnan(e) && isnan(mxv(D, 128 * i + q))); /* a window of no extent */ } if (ok) { best = j; break; } }
    MC_CHECK("sift", best >= 0, "vl_sift: frame %d (%g, %g, %g, %g) or its descriptor is not the library's (%g, %g, %g, %g)", i + 1, mxv(Fm, 4 * i), mxv(Fm, 4 * i + 1), mxv(Fm, 4 * i + 2), mxv(Fm, 4 * i + 3), R[i].f[0], R[i].f[1], R[i].f[2], R[i].f[3]); R[best].has = 0;
  }
  /* the same descriptors from the image stored row by row, without any transposition */
  if (mode == 1 && D && flt) { f = filt(N, M, &p); memcpy(copy, rows(in[0]), M * N * sizeof(float)); for (int err = vl_sift_process_first_octave(f, copy); !err; err = vl_sift_process_next_octave(f)) for (int i = 0; i < nR; i++) {
    VlSiftKeypoint kp; float d[128]; vl_sift_keypoint_init(f, &kp, mxv(Fm, 4 * i) - 1, mxv(Fm, 4 * i + 1) - 1, mxv(Fm, 4 * i + 2)); if (kp.o != vl_sift_get_octave_index(f)) continue; memset(d, 0, sizeof d); vl_sift_calc_keypoint_descriptor(f, d, &kp, mxv(Fm, 4 * i + 3));
    double sum = 0, df = 0; for (int q = 0; q < 128; q++) { sum += f512(d[q]) * f512(d[q]); df += pow(mxv(D, 128 * i + q) - f512(d[q]), 2); } MC_CHECK("sift-transposed", df <= .01 * sum + 1 || p.norm >= 0 || isnan(sum) /* a window of no extent */, "vl_sift: the descriptor of frame %d is not that of the image (distance %g of %g)", i + 1, sqrt(df), sqrt(sum)); } vl_sift_delete(f); }
  free(copy); mc_state(mc_mix(mx_hash(Fm), D ? mx_hash(D) : 0));
}
static void s_siftd(void) {
  mx_release(); int s = mc_choose(MC_BOUND(8, 10, 11)), pat = 1 + mc_choose(5), M = SH[s][0], N = SH[s][1], nf = mc_choose(mc_thorough ? 4 : 3), k = 0, flt, v; double fr[12], mag = -1, nt = -1; mxArray *in[16], *D; mwSize d3[3] = {2, M, N};
  if (M * N == 0) { d3[1] = M; } mxArray *G = mxCreateNumericArray(3, d3, mxSINGLE_CLASS, mxREAL); float *g = mxGetData(G); static float gr[2 * 64 * 64]; if (N == 1) mc_skip();
  for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) { float m = pix(pat, x, y), a = fmodf(pix(2, y + 3, x), 6.28f) - (pat & 1 ? 3.14f : 0); g[2 * (x * M + y)] = m; g[2 * (x * M + y) + 1] = a; gr[2 * (y * N + x)] = m; gr[2 * (y * N + x) + 1] = a; }
  for (int i = 0; i < nf; i++) memcpy(fr + 4 * i, FR[mc_choose(MC_BOUND(7, 10, 11))], 32); in[k++] = G; in[k++] = mx2(mxDOUBLE_CLASS, 4, nf, fr);
  if ((v = mc_choose(3))) { mag = v == 1 ? 1.5 : 0; in[k++] = str("magnif"); in[k++] = sc(mag); } if ((v = mc_choose(3))) { nt = v == 1 ? 1 : 40; in[k++] = str("NormThresh"); in[k++] = sc(nt); } if ((flt = mc_choose(2))) in[k++] = str("floatdescriptors");
  mc_note("vl_siftdescriptor of 2x%dx%d, frames %s", M, N, show(in[1])); int r = twice("vl_siftdescriptor", mex_vl_siftdescriptor, 1, &D, k, in); if (M * N == 0 && r) return;
  MC_CHECK("siftdescriptor", r == 0 && mx_is(D, flt ? mxSINGLE_CLASS : mxUINT8_CLASS, 128, nf), "vl_siftdescriptor: error '%s' or size", mex_message); if (M * N == 0) return;
  VlSiftFilt *f = vl_sift_new(16, 16, 1, 3, 0); if (mag >= 0) vl_sift_set_magnif(f, mag); if (nt >= 0) vl_sift_set_norm_thresh(f, nt); float *cp = malloc(sizeof(float) * 2 * M * N); memcpy(cp, gr, sizeof(float) * 2 * M * N);
  for (int i = 0; i < nf; i++) { float e[128]; double *q = fr + 4 * i, sum = 0, df = 0; memset(e, 0, sizeof e); vl_sift_calc_raw_descriptor(f, cp, e, N, M, q[0] - 1, q[1] - 1, q[2], q[3]); for (int j = 0; j < 128; j++) { double t = f512(e[j]), z = mxv(D, 128 * i + j); if (!flt && t > 255) t = 255; sum += t * t; df += (z - t) * (z - t); MC_CHECK("siftdescriptor", fabs(z - t) <= 2 + .02 * fabs(t) || nt >= 0 || mag == 0, "vl_siftdescriptor of frame (%g, %g, %g, %g): value %d is %g rather than %g", q[0], q[1], q[2], q[3], j + 1, z, t); } MC_CHECK("siftdescriptor", nt < 0 || (sum == 0) == (df == 0 && sum == 0) || df > 1, "norm threshold"); }
  free(cp); vl_sift_delete(f); mc_state(mx_hash(D));
}
/* ---- dense SIFT ---- */
static void s_dsift(void) {
  mx_release(); static const int sh[][2] = {{16, 20}, {20, 13}, {14, 14}, {9, 9}, {10, 10}, {11, 24}, {1, 1}, {2, 30}, {0, 5}, {5, 0}, {24, 9}, {30, 30}}; int s = mc_choose(MC_BOUND(8, 10, 12)), pat = 1 + mc_choose(MC_BOUND(3, 5, 5)), M = sh[s][0], N = sh[s][1], k = 0, fast, norm, flt, v, B[2] = {3, 3}, T[2] = {1, 1}, G[3] = {4, 4, 8}; double win = -1, bd[4]; int hb = 0; mxArray *in[32], *out[2];
  static const int SZ[][2] = {{3, 3}, {1, 1}, {2, 2}, {4, 2}, {2, 5}, {7, 7}}, ST[][2] = {{1, 1}, {2, 2}, {3, 1}, {1, 4}, {50, 50}}, GE[][3] = {{4, 4, 8}, {1, 1, 8}, {2, 3, 8}, {3, 2, 4}, {4, 1, 1}, {2, 2, 3}}; static const double BO[][4] = {{0}, {1, 1, 12, 12}, {3, 2, 16, 15}, {-5, -6, 100, 14}, {5, 5, 5, 5}, {8, 3, 4, 12}, {40, 40, 60, 60}, {-9, -9, -2, -2}, {2.5, 3.5, 14.5, 15.25}};
  in[k++] = img(pat, M, N);
  if ((v = mc_dev(6))) { B[0] = SZ[v][0]; B[1] = SZ[v][1]; in[k++] = str("size"); double q[2] = {B[0], B[1]}; in[k++] = mx2(mxDOUBLE_CLASS, 1, B[0] == B[1] ? 1 : 2, q); }
  if ((v = mc_dev(5))) { T[0] = ST[v][0]; T[1] = ST[v][1]; in[k++] = str("STEP"); double q[2] = {T[0], T[1]}; in[k++] = mx2(mxDOUBLE_CLASS, T[0] == T[1] ? 1 : 2, 1, q); }
  if ((v = mc_dev(6))) { memcpy(G, GE[v], sizeof G); in[k++] = str("geometry"); double q[3] = {G[0], G[1], G[2]}; in[k++] = mx2(mxDOUBLE_CLASS, 1, 3, q); }
  if ((v = mc_dev(9))) { hb = 1; memcpy(bd, BO[v], sizeof bd); in[k++] = str("Bounds"); in[k++] = mx2(mxDOUBLE_CLASS, 1, 4, bd); }
  if ((v = mc_dev(4))) { win = v == 1 ? .5 : v == 2 ? 4 : 0; in[k++] = str("WindowSize"); in[k++] = sc(win); }
  if ((fast = mc_dev(2))) in[k++] = str("Fast"); if ((norm = mc_dev(2))) in[k++] = str("norm"); flt = mc_choose(2); if (flt) in[k++] = str("FloatDescriptors"); if (mc_dev(2)) in[k++] = str("Verbose"); int nout = 2 - mc_dev(2);
  mc_note("vl_dsift of %dx%d, size %d %d, step %d %d, geometry %d %d %d, %s", M, N, B[0], B[1], T[0], T[1], G[0], G[1], G[2], hb ? show(mx2(mxDOUBLE_CLASS, 1, 4, bd)) : "whole image");
  int r = twice("vl_dsift", mex_vl_dsift, nout, out, k, in); if ((!M || !N) && r) return; MC_CHECK("dsift", r == 0, "vl_dsift: error '%s'", mex_message);
  /* the frames, from the definition */
  int x0 = 0, y0 = 0, x1 = N - 1, y1 = M - 1; if (hb) { x0 = VL_MAX(bd[0] - 1, 0); y0 = VL_MAX(bd[1] - 1, 0); x1 = VL_MIN(bd[2] - 1, N - 1); y1 = VL_MIN(bd[3] - 1, M - 1); }
  int rx = x1 - x0 - (G[0] - 1) * B[0], ry = y1 - y0 - (G[1] - 1) * B[1], nx = rx >= 0 ? rx / T[0] + 1 : 0, ny = ry >= 0 ? ry / T[1] + 1 : 0, n = nx * ny, dim = G[0] * G[1] * G[2]; const mxArray *Fm = out[0], *D = nout > 1 ? out[1] : 0;
  MC_CHECK("dsift", mx_is(Fm, mxDOUBLE_CLASS, norm ? 3 : 2, n) && (!D || mx_is(D, flt ? mxSINGLE_CLASS : mxUINT8_CLASS, dim, n)), "vl_dsift gives %dx%d frames and %dx%d descriptors rather than %d of %d", (int)mxGetM(Fm), (int)mxGetN(Fm), D ? (int)mxGetM(D) : -1, D ? (int)mxGetN(D) : -1, n, dim);
  VlDsiftFilter *f = 0; float *cp = 0; if (n) { f = vl_dsift_new(N, M); VlDsiftDescriptorGeometry g; g.numBinT = G[2]; g.numBinX = G[0]; g.numBinY = G[1]; g.binSizeX = B[0]; g.binSizeY = B[1]; vl_dsift_set_geometry(f, &g); vl_dsift_set_steps(f, T[0], T[1]); vl_dsift_set_bounds(f, x0, y0, x1, y1); vl_dsift_set_flat_window(f, fast); if (win >= 0) vl_dsift_set_window_size(f, win); cp = malloc(sizeof(float) * M * N); memcpy(cp, rows(in[0]), sizeof(float) * M * N); vl_dsift_process(f, cp); MC_CHECK("harness", vl_dsift_get_keypoint_num(f) == n, "library gives %d keypoints rather than %d", vl_dsift_get_keypoint_num(f), n); }
  if (D && !flt) { mxArray *o2[2]; in[k++] = str("floatdescriptors"); r = mex_call(mex_vl_dsift, 2, o2, k, in); MC_CHECK("dsift", r == 0 && mx_is(o2[1], mxSINGLE_CLASS, dim, n), "vl_dsift with FloatDescriptors: error '%s' or size", mex_message); for (size_t i = 0; i < (size_t)dim * n; i++) { double e = mxv(o2[1], i); if (!isnan(e)) MC_CHECK("dsift-integer", mxv(D, i) == floor(fmin(e, 255)), "vl_dsift: value %d is %g, as integer %g", (int)i + 1, e, mxv(D, i)); } }
  double mxn_ = 0; for (int i = 0; i < n; i++) mxn_ = fmax(mxn_, vl_dsift_get_keypoints(f)[i].norm); /* running sums lose what is much smaller */
  for (int ix = 0; ix < nx; ix++) for (int iy = 0; iy < ny; iy++) { /* the order of the toolbox: the row changes first */
    int i = ix * ny + iy, j = iy * nx + ix; double ex = x0 + ix * T[0] + .5 * (G[0] - 1) * B[0] + 1, ey = y0 + iy * T[1] + .5 * (G[1] - 1) * B[1] + 1; int nr = norm ? 3 : 2; MC_CHECK("dsift", fabs(mxv(Fm, nr * i) - ex) < 1e-9 && fabs(mxv(Fm, nr * i + 1) - ey) < 1e-9, "vl_dsift: frame %d is at (%g, %g) rather than (%g, %g)", i + 1, mxv(Fm, nr * i), mxv(Fm, nr * i + 1), ex, ey);
    const VlDsiftKeypoint *kk = vl_dsift_get_keypoints(f) + j; MC_CHECK("harness", fabs(kk->x + 1 - ex) < 1e-9 && fabs(kk->y + 1 - ey) < 1e-9, "library frame"); if (norm && !(win == 0)) MC_CHECK("dsift-norm", fabs(mxv(Fm, 3 * i + 2) - kk->norm) <= 1e-3 * (1e-3 + kk->norm) + (fast ? 1e-4 * mxn_ : 0), "vl_dsift: the norm of frame %d is %g rather than %g", i + 1, mxv(Fm, 3 * i + 2), kk->norm);
    if (D && win != 0 && G[2] % 4 == 0 && !(fast && kk->norm < .01 * mxn_) && kk->norm > 1e-2 /* else the gradient is rounding */) { double df = 0, sm = 0; int wq = 0; double wd = 0; for (int q = 0; q < dim; q++) { double e = f512(vl_dsift_get_descriptors(f)[(size_t)j * dim + q]); e = e < 255 ? e : 255; double z = mxv(D, (size_t)i * dim + q); if (!flt) z = z < 255 && z > 0 ? z + .5 : z; df += (z - e) * (z - e); sm += e * e; if (fabs(z - e) > wd) wd = fabs(z - e), wq = q; } MC_CHECK("dsift", sqrt(df) <= 15 + .05 * sqrt(sm), "vl_dsift: descriptor %d is at a distance of %g from the library's, whose norm is %g; value %d is off by %g", i + 1, sqrt(df), sqrt(sm), wq + 1, wd); }
  }
  if (f) vl_dsift_delete(f); free(cp); mc_state(mc_mix(mx_hash(Fm), D ? mx_hash(D) : 0));
}
/* ---- covariant features ---- */
static const char *ME[] = {"DoG", "Hessian", "HessianLaplace", "HarrisLaplace", "MultiscaleHessian", "multiscaleharris"};
static const VlCovDetMethod MV[] = {VL_COVDET_METHOD_DOG, VL_COVDET_METHOD_HESSIAN, VL_COVDET_METHOD_HESSIAN_LAPLACE, VL_COVDET_METHOD_HARRIS_LAPLACE, VL_COVDET_METHOD_MULTISCALE_HESSIAN, VL_COVDET_METHOD_MULTISCALE_HARRIS};
static const char *DE[] = {"", "none", "Patch", "SIFT", "liop"};
static mxArray *bo(int v) { return mxCreateLogicalScalar(v); }
static int narrow;
static void s_covdet(void) {
  mx_release(); static const int sh[][2] = {{20, 24}, {16, 16}, {24, 17}, {9, 30}, {4, 5}, {40, 44}}; int s = narrow ? 0 : mc_choose(MC_BOUND(3, 4, 6)), pat = narrow ? 2 : mc_choose(MC_BOUND(3, 6, 6)), me = mc_choose(6), fd = mc_choose(6), M = sh[s][0], N = sh[s][1], k = 0, v, res = -1, dt, oct = -1, no = 0, mo = 0, dbl = 1, aff, ori, pad = 1, lb = 6, ln = 4; double base = -1, pk = -1, ed = -1, lap = -1, ext = -1, smo = -1, lr = 6, lt = NAN; mxArray *in[48], *out[3]; int D = fd ? fd + 1 : 0, nf = 0; double fr[18];
  in[k++] = img(pat, M, N); if (me || mc_dev(2)) { in[k++] = str("Method"); in[k++] = str(ME[me]); } if (D && me > 1) mc_skip();
  if (D) { nf = 1 + mc_choose(2) * 2; static const double C[][3][6] = {{{0}}, {{0}}, {{8, 7}, {2, 14}, {-3, 50}}, {{8, 7, 1.5}, {13, 4, 2.5}, {1, 1, .7}}, {{8, 7, 1.5, .6}, {11.5, 9.25, 2, -2}, {3, 15, 1, 4}}, {{8, 7, 4, 1, 2}, {9.5, 9, 1, 0, 1}, {10, 12, 2.25, -1, 5}}, {{8, 7, 1, .5, -.3, 1.2}, {12, 10, 0, 2, -2, 0}, {5, 5, 2, 0, 0, -1}}}; for (int i = 0; i < nf; i++) for (int j = 0; j < D; j++) fr[i * D + j] = C[D][i][j]; in[k++] = str("frames"); in[k++] = mx2(mxDOUBLE_CLASS, D, nf, fr); }
  dt = mc_choose(5); if (dt) { in[k++] = str("Descriptor"); in[k++] = str(DE[dt]); } else dt = 3;
  if ((v = mc_dev(3))) { oct = v; in[k++] = str("OctaveResolution"); in[k++] = sc(oct); } if ((v = mc_dev(3))) { no = v; in[k++] = str("NumOctaves"); in[k++] = sc(no); }
  if ((v = mc_dev(3))) { base = v == 1 ? 1.2 : 2.1; in[k++] = str("BaseScale"); in[k++] = sc(base); } if (mc_dev(2)) { dbl = 0; in[k++] = str("DoubleImage"); in[k++] = bo(0); }
  if ((v = mc_dev(3))) { pk = v == 1 ? 3 : 0; in[k++] = str("PeakThreshold"); in[k++] = sc(pk); } if ((v = mc_dev(3))) { ed = v == 1 ? 3 : 100; in[k++] = str("EdgeThreshold"); in[k++] = sc(ed); } if (mc_dev(2)) { lap = 2; in[k++] = str("LaplacianPeakThreshold"); in[k++] = sc(lap); }
  if ((aff = mc_dev(2))) { in[k++] = str("EstimateAffineShape"); in[k++] = bo(1); } if ((ori = mc_dev(2))) { in[k++] = str("EstimateOrientation"); in[k++] = bo(1); if ((v = mc_dev(3))) { mo = v == 1 ? 1 : 2; in[k++] = str("MaxNumOrientations"); in[k++] = sc(mo); } }
  if ((v = mc_dev(3))) { res = v == 1 ? 8 : 11; in[k++] = str("PatchResolution"); in[k++] = sc(res); } if ((v = mc_dev(3))) { ext = v == 1 ? 2 : 5.5; in[k++] = str("PatchRelativeExtent"); in[k++] = sc(ext); } if ((v = mc_dev(3))) { smo = v == 1 ? 0 : 1.7; in[k++] = str("PatchRelativeSmoothing"); in[k++] = sc(smo); }
  if (mc_dev(2)) { pad = 0; in[k++] = str("AllowPaddedWarping"); in[k++] = bo(0); }
  if (dt == 4) { if (mc_dev(2)) { lb = 3; in[k++] = str("LiopNumSpatialBins"); in[k++] = sc(3); } if (mc_dev(2)) { ln = 3; in[k++] = str("LiopNumNeighbours"); in[k++] = sc(3); } if (mc_dev(2)) { lr = 4.5; in[k++] = str("LiopRadius"); in[k++] = sc(lr); } if (mc_dev(2)) { lt = .5; in[k++] = str("LiopIntensityThreshold"); in[k++] = sc(lt); } }
  if (mc_dev(2)) in[k++] = str("Verbose"); int nout = 3 - mc_dev(4);
  mc_note("vl_covdet of %dx%d, image %d, %s, frames %s, descriptor '%s'", M, N, pat, ME[me], D ? show(mx2(mxDOUBLE_CLASS, D, nf, fr)) : "detected", DE[dt]);
  int r = twice("vl_covdet", mex_vl_covdet, nout, out, k, in);
  if (res < 0) res = dt == 3 ? 15 : dt == 1 ? -1 : 20; if (ext < 0) ext = dt == 2 ? 6 : dt == 3 ? 7.5 : dt == 4 ? 4 : -1; if (smo < 0) smo = dt == 4 ? .5 : dt == 1 ? -1 : 1;
  MC_CHECK("covdet", r == 0, "vl_covdet: error '%s'", mex_message);
  VlCovDet *c = vl_covdet_new(MV[me]); vl_covdet_set_transposed(c, 1); vl_covdet_set_first_octave(c, dbl ? -1 : 0); if (no) vl_covdet_set_num_octaves(c, no); if (oct > 0) vl_covdet_set_octave_resolution(c, oct); if (base > 0) vl_covdet_set_base_scale(c, base); if (mo) vl_covdet_set_max_num_orientations(c, mo); if (pk >= 0) vl_covdet_set_peak_threshold(c, pk); if (ed >= 0) vl_covdet_set_edge_threshold(c, ed); if (lap >= 0) vl_covdet_set_laplacian_peak_threshold(c, lap);
  float *cp = malloc(sizeof(float) * M * N); memcpy(cp, mxGetData(in[0]), sizeof(float) * M * N); vl_covdet_put_image(c, cp, M, N);
  if (D) for (int i = 0; i < nf; i++) { double *u = fr + i * D, A[4] = {1, 0, 0, 1}; /* a11 a21 a12 a22: the image of a unit disc */ if (D == 3) A[0] = A[3] = u[2]; if (D == 4) { A[0] = A[3] = u[2] * cos(u[3]); A[1] = u[2] * sin(u[3]); A[2] = -A[1]; } if (D == 5) { A[0] = sqrt(u[2]); A[1] = u[3] / A[0]; A[2] = 0; A[3] = sqrt(u[4] - A[1] * A[1]); } if (D == 6) memcpy(A, u + 2, sizeof A);
    VlCovDetFeature ft; memset(&ft, 0, sizeof ft); ft.peakScore = VL_INFINITY_F; ft.edgeScore = 1; ft.frame.x = (float)u[1] - 1; ft.frame.y = (float)u[0] - 1; ft.frame.a11 = A[3]; ft.frame.a21 = A[2]; ft.frame.a12 = A[1]; ft.frame.a22 = A[0]; vl_covdet_append_feature(c, &ft); }
  else { vl_covdet_detect(c); double mg = pad ? 2 : ext; if (mg > 0) vl_covdet_drop_features_outside(c, mg); }
  if (aff) vl_covdet_extract_affine_shape(c); if (ori) vl_covdet_extract_orientations(c);
  int n = vl_covdet_get_num_features(c); const VlCovDetFeature *ft = vl_covdet_get_features(c); MC_CHECK("covdet", mx_is(out[0], mxDOUBLE_CLASS, 6, n), "vl_covdet gives %d frames rather than %d", (int)mxGetN(out[0]), n);
  for (int i = 0; i < n; i++) { double e[6] = {ft[i].frame.y + 1., ft[i].frame.x + 1., ft[i].frame.a22, ft[i].frame.a12, ft[i].frame.a21, ft[i].frame.a11}; for (int q = 0; q < 6; q++) { double z = mxv(out[0], 6 * i + q); MC_CHECK("covdet", fabs(z - e[q]) <= 1e-5 * (1 + fabs(e[q])), "vl_covdet: element %d of frame %d is %g rather than %g", q + 1, i + 1, z, e[q]); if (D && !aff && !ori && D != 5) { double *u = fr + i * D, A[6] = {u[0], u[1], 1, 0, 0, 1}; if (D == 3) A[2] = A[5] = u[2]; if (D == 4) { A[2] = A[5] = u[2] * cos(u[3]); A[3] = u[2] * sin(u[3]); A[4] = -A[3]; } if (D == 6) memcpy(A, u, sizeof A); MC_CHECK("covdet-frames", fabs(z - A[q]) <= 1e-5 * (1 + fabs(A[q])), "vl_covdet: element %d of the given frame %d comes back as %g rather than %g", q + 1, i + 1, z, A[q]); } } }
  if (nout > 1) { int P = 2 * res + 1, dim = dt == 2 ? P * P : dt == 3 ? 128 : 0; VlLiopDesc *li = 0; float *p = 0, *d = 0, *xy = 0; VlSiftFilt *sf = 0; if (dt == 4) { li = vl_liopdesc_new(ln, lb, lr, P); if (!isnan(lt)) vl_liopdesc_set_intensity_threshold(li, lt); dim = vl_liopdesc_get_dimension(li); } if (dt == 3) { sf = vl_sift_new(16, 16, 1, 3, 0); vl_sift_set_magnif(sf, 3); }
    if (dt == 1) MC_CHECK("covdet", mxIsEmpty(out[1]), "vl_covdet gives descriptors of type none"); else { MC_CHECK("covdet", mx_is(out[1], mxSINGLE_CLASS, dim, n), "vl_covdet: class or size of the descriptors (%dx%d rather than %dx%d)", (int)mxGetM(out[1]), (int)mxGetN(out[1]), dim, n); p = malloc(sizeof(float) * P * P); xy = malloc(sizeof(float) * 2 * P * P); d = malloc(sizeof(float) * dim);
      for (int i = 0; i < n; i++) { vl_covdet_extract_patch_for_frame(c, p, res, ext, smo, ft[i].frame); memset(d, 0, sizeof(float) * dim); double rel = 1e-4, ab = 1e-4; if (dt == 2) memcpy(d, p, sizeof(float) * dim); if (dt == 4) vl_liopdesc_process(li, d, p);
        if (dt == 3) { float t[128]; vl_imgradient_polar_f(xy, xy + 1, 2, 2 * P, p, P, P, P); memset(t, 0, sizeof t); vl_sift_calc_raw_descriptor(sf, xy, t, P, P, (P - 1) / 2., (P - 1) / 2., ext / 7.5 / (ext / res), PI / 2); /* the patch is transposed, its gradient too: see the mirror */ for (int by = 0; by < 4; by++) for (int bx = 0; bx < 4; bx++) for (int o = 0; o < 8; o++) d[((3 - by) * 4 + bx) * 8 + (8 - o) % 8] = t[(by * 4 + bx) * 8 + o]; rel = 1e-3; ab = 1e-3; (void)ext; }
        for (int q = 0; q < dim; q++) { double z = mxv(out[1], (size_t)i * dim + q), e = d[q]; MC_CHECK("covdet-descriptor", (isnan(e) && isnan(z)) || fabs(z - e) <= ab + rel * fabs(e), "vl_covdet: value %d of descriptor %d of type '%s' is %g rather than %g", q + 1, i + 1, DE[dt], z, e); } } }
    if (li) vl_liopdesc_delete(li); if (sf) vl_sift_delete(sf); free(p); free(d); free(xy); }
  if (nout > 2) { static const char *nm[] = {"peakScores", "edgeScores", "orientationScore", "laplacianScaleScore"}; for (int j = 0; j < 4; j++) { mxArray *a = mxGetField(out[2], 0, nm[j]); if (!a) continue; MC_CHECK("covdet-info", mx_is(a, mxSINGLE_CLASS, 1, n), "vl_covdet: info.%s", nm[j]); for (int i = 0; i < n; i++) { double e = j == 0 ? ft[i].peakScore : j == 1 ? ft[i].edgeScore : j == 2 ? ft[i].orientationScore : ft[i].laplacianScaleScore, z = mxv(a, i); MC_CHECK("covdet-info", z == e || fabs(z - e) <= 1e-5 * fabs(e), "vl_covdet: info.%s(%d) is %g rather than %g", nm[j], i + 1, z, e); } }
    MC_CHECK("covdet-info", mxGetField(out[2], 0, "peakScores") && mxGetField(out[2], 0, "edgeScores"), "vl_covdet: info has no scores"); mxArray *g = mxGetField(out[2], 0, "gss"), *dat = g ? mxGetField(g, 0, "data") : 0; VlScaleSpace *ss = vl_covdet_get_gss(c); VlScaleSpaceGeometry ge = vl_scalespace_get_geometry(ss); MC_CHECK("covdet-info", dat && (int)mxGetNumberOfElements(dat) == ge.lastOctave - ge.firstOctave + 1, "vl_covdet: info.gss.data"); mxArray *fo = mxGetField(g, 0, "firstOctave"); MC_CHECK("covdet-info", fo && mxv(fo, 0) == ge.firstOctave, "info.gss.firstOctave");
    for (int o = ge.firstOctave; o <= ge.lastOctave; o++) { VlScaleSpaceOctaveGeometry og = vl_scalespace_get_octave_geometry(ss, o); mxArray *cell = mxGetCell(dat, o - ge.firstOctave); int S = ge.octaveLastSubdivision - ge.octaveFirstSubdivision + 1; MC_CHECK("covdet-info", cell && mxGetDimensions(cell)[0] == og.width && mxGetDimensions(cell)[1] == og.height && mxGetNumberOfElements(cell) == og.width * og.height * S, "info.gss.data{%d} has the wrong size", (int)(o - ge.firstOctave + 1)); for (int q = 0; q < S; q++) MC_CHECK("covdet-info", !memcmp((float *)mxGetData(cell) + q * og.width * og.height, vl_scalespace_get_level(ss, o, ge.octaveFirstSubdivision + q), sizeof(float) * og.width * og.height), "info.gss.data{%d}, level %d", (int)(o - ge.firstOctave + 1), q); } }
  vl_covdet_delete(c); free(cp); mc_state(mc_mix(mx_hash(out[0]), nout > 1 ? mx_hash(out[1]) : 0));
}
/* ---- extremal regions ---- */
static const int MS[][5] = {{2, 1, 1, 0, 4}, {2, 2, 1, 0, 4}, {2, 1, 3, 0, 4}, {2, 2, 2, 0, 4}, {2, 3, 2, 0, 3}, {3, 2, 2, 2, 2}, {2, 1, 7, 0, 3}, {2, 3, 3, 0, 3}, {3, 1, 2, 3, 3}, {2, 0, 0, 0, 1}, {2, 0, 3, 0, 1}, {2, 4, 3, 0, 2}, {3, 3, 2, 2, 2}, {2, 3, 4, 0, 3}};
static const double MPV[] = {10, 0, 255, 100};
static mxArray *mimg(int s, const double *vals) { mxArray *I = mxn(mxUINT8_CLASS, MS[s][0], MS[s][1], MS[s][2], MS[s][3]); int n = mxGetNumberOfElements(I); for (int i = 0; i < n; i++) mxsv(I, i, vals[mc_choose(MS[s][4])]); return I; }
static void s_erfill(void) {
  mx_release(); int s = mc_choose(MC_BOUND(10, 13, 14)); mxArray *I = mimg(s, MPV), *in[2] = {I}, *out; int n = mxGetNumberOfElements(I), nd = MS[s][0];
  for (int er = -n - 1; er <= n + 1; er++) {
    in[1] = sc(er); mc_note("vl_erfill(%s, %d)", show(I), er); int r = twice("vl_erfill", mex_vl_erfill, 1, &out, 2, in); mc_case(1); if (er == 0 || abs(er) > n) { MC_CHECK("erfill", r == 1, "vl_erfill(%s) accepts the seed %d", show(I), er); continue; } MC_CHECK("erfill", r == 0, "vl_erfill(%s, %d): error '%s'", show(I), er, mex_message);
    char in_[40] = {0}, got[40] = {0}; int seed = abs(er) - 1, ch = 1, cnt = 1; double v = mxv(I, seed); in_[seed] = 1; const int *d = MS[s] + 1; int d3 = nd == 3 ? d[2] : 1;
    while (ch) { ch = 0; for (int i = 0; i < n; i++) if (!in_[i] && (er > 0 ? mxv(I, i) <= v : mxv(I, i) >= v)) for (int j = 0; j < n && !in_[i]; j++) if (in_[j] && abs(i % d[0] - j % d[0]) < 2 && abs(i / d[0] % d[1] - j / d[0] % d[1]) < 2 && abs(i / d[0] / d[1] - j / d[0] / d[1]) < 2) { in_[i] = 1; ch = 1; cnt++; } } (void)d3;
    MC_CHECK("erfill", mxGetClassID(out) == mxUINT32_CLASS && (int)mxGetNumberOfElements(out) == cnt, "vl_erfill(%s, %d) = %s: %d members rather than %d", show(I), er, show(out), (int)mxGetNumberOfElements(out), cnt); for (int i = 0; i < cnt; i++) { int m = mxv(out, i); MC_CHECK("erfill", m >= 1 && m <= n && in_[m - 1] && !got[m - 1], "vl_erfill(%s, %d) = %s: member %d", show(I), er, show(out), m); got[m - 1] = 1; }
    mc_state(mx_hash(out));
  }
}
static void s_mser(void) {
  mx_release(); int s = mc_choose(MC_BOUND(9, 12, 14)), k = 0, v, dark = 1, bright = 1; mxArray *I = mimg(s, MPV), *in[20], *out[2]; double de = -1, xa = -1, na = -1, xv = -1, md = -1; int n = mxGetNumberOfElements(I), nd = MS[s][0], dims[3] = {MS[s][1], MS[s][2], MS[s][3]}; in[k++] = I;
  if ((v = mc_dev(5))) { static const double q[] = {0, 1, 100, 0, 255}; de = q[v]; in[k++] = str("delta"); in[k++] = sc(de); } if ((v = mc_dev(4))) { static const double q[] = {0, .5, 1, 0}; xa = q[v]; in[k++] = str("MaxArea"); in[k++] = sc(xa); } if ((v = mc_dev(4))) { static const double q[] = {0, .3, 1, 0}; na = q[v]; in[k++] = str("MinArea"); in[k++] = sc(na); } if ((v = mc_dev(4))) { static const double q[] = {0, .5, 10, 0}; xv = q[v]; in[k++] = str("MaxVariation"); in[k++] = sc(xv); } if ((v = mc_dev(4))) { static const double q[] = {0, .5, 1, 0}; md = q[v]; in[k++] = str("MinDiversity"); in[k++] = sc(md); }
  if (mc_dev(2)) { dark = 0; in[k++] = str("DarkOnBright"); in[k++] = sc(0); } if (mc_dev(2)) { bright = 0; in[k++] = str("BrightOnDark"); in[k++] = sc(0); } if (mc_dev(2)) in[k++] = str("verbose"); int nout = 2 - mc_dev(2);
  mc_note("vl_mser(%s) with delta %g, areas %g %g, variation %g, diversity %g", show(I), de, xa, na, xv, md); int r = twice("vl_mser", mex_vl_mser, nout, out, k, in); if (!n) { MC_CHECK("mser", r == 1 || mxIsEmpty(out[0]), "vl_mser of an empty image"); return; } MC_CHECK("mser", r == 0, "vl_mser(%s): error '%s'", show(I), mex_message);
  double seeds[64], el[64][9]; int c = 0, dof = nd * (nd + 1) / 2 + nd; for (int inv = 0; inv < 2; inv++) if (inv ? bright : dark) { unsigned char b[40]; for (int i = 0; i < n; i++) b[i] = inv ? 255 - mxv(I, i) : mxv(I, i); VlMserFilt *f = vl_mser_new(nd, dims); if (de >= 0) vl_mser_set_delta(f, de); if (xa >= 0) vl_mser_set_max_area(f, xa); if (na >= 0) vl_mser_set_min_area(f, na); if (xv >= 0) vl_mser_set_max_variation(f, xv); if (md >= 0) vl_mser_set_min_diversity(f, md); vl_mser_process(f, b); int q = vl_mser_get_regions_num(f); for (int i = 0; i < q; i++) seeds[c + i] = (inv ? -1. : 1.) * (vl_mser_get_regions(f)[i] + 1); vl_mser_ell_fit(f); for (int i = 0; i < q; i++) for (int j = 0; j < dof; j++) el[c + i][j] = vl_mser_get_ell(f)[i * dof + j] + (j < nd); c += q; vl_mser_delete(f); }
  MC_CHECK("mser", mxGetClassID(out[0]) == mxDOUBLE_CLASS && (int)mxGetNumberOfElements(out[0]) == c, "vl_mser(%s) gives %d regions rather than %d", show(I), (int)mxGetNumberOfElements(out[0]), c); char used[64] = {0};
  if (nout > 1) MC_CHECK("mser", (int)mxGetN(out[1]) == c && (c == 0 || (int)mxGetM(out[1]) == dof), "vl_mser(%s): %dx%d ellipsoids for %d regions", show(I), (int)mxGetM(out[1]), (int)mxGetN(out[1]), c);
  for (int i = 0; i < c; i++) { int j; for (j = 0; j < c; j++) if (!used[j] && seeds[j] == mxv(out[0], i)) break; MC_CHECK("mser", j < c, "vl_mser(%s) = %s: seed %d is not the library's", show(I), show(out[0]), i + 1); used[j] = 1; if (nout > 1) for (int q = 0; q < dof; q++) MC_CHECK("mser", fabs(mxv(out[1], i * dof + q) - el[j][q]) <= 1e-5 * (1 + fabs(el[j][q])), "vl_mser(%s): element %d of ellipsoid %d is %g rather than %g", show(I), q + 1, i + 1, mxv(out[1], i * dof + q), el[j][q]); }
  mc_state(mx_hash(out[0]));
}
/* ---- histograms of gradients ---- */
static void s_hog(void) {
  mx_release(); static const int sh[][3] = {{12, 16, 1}, {9, 7, 1}, {8, 8, 3}, {5, 11, 2}, {3, 3, 1}, {16, 12, 1}, {2, 2, 1}, {1, 9, 1}, {4, 4, 1}, {0, 5, 1}, {20, 33, 3}, {1, 1, 1}, {3, 2, 1}}; int s = mc_choose(MC_BOUND(10, 11, 13)), pat = 1 + mc_choose(MC_BOUND(3, 5, 5)), M = sh[s][0], N = sh[s][1], C = sh[s][2], k = 0, v, cs, var, no = 9, bil, pol; static const int CS[] = {4, 2, 8, 3, 1, 16}; cs = CS[mc_choose(MC_BOUND(4, 6, 6))]; static const int NO[] = {9, 1, 4, 5, 18}; var = mc_choose(2); pol = mc_choose(3); bil = mc_choose(2); mxArray *in[16], *out, *I; if (pol) C = 2; mwSize d[3] = {M, N, C}; I = mxCreateNumericArray(3, d, mxSINGLE_CLASS, mxREAL);
  for (int c = 0; c < C; c++) for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) ((float *)mxGetData(I))[(c * N + x) * M + y] = pol && c ? fmodf(pix(pat, y, x), 6.2f) - (bil ? 3.1f : 0) : pix((pat + c) % 6, x, y);
  in[k++] = I; in[k++] = sc(cs); if (var || mc_dev(2)) { in[k++] = str("Variant"); in[k++] = str(var ? "DalalTriggs" : "UoCTTI"); } if ((v = mc_choose(MC_BOUND(3, 5, 5)))) { no = NO[v]; in[k++] = str("numOrientations"); in[k++] = sc(no); } if (pol) in[k++] = str(pol == 1 ? "DirectedPolarField" : "UndirectedPolarField"); if (bil) in[k++] = str("BilinearOrientations"); if (mc_dev(2)) in[k++] = str("verbose");
  mc_note("vl_hog of %dx%dx%d, cells of %d, %s, %d orientations%s%s", M, N, C, cs, var ? "DalalTriggs" : "UoCTTI", no, bil ? ", bilinear" : "", pol == 1 ? ", directed field" : pol ? ", undirected field" : ""); int r = twice("vl_hog", mex_vl_hog, 1, &out, k, in); if (r && (M < 3 || N < 3 || M < cs || N < cs)) return; MC_CHECK("hog", r == 0, "vl_hog: error '%s'", mex_message);
  if (M < 3 || N < 3) return; int hw = (M + cs / 2) / cs, hh = (N + cs / 2) / cs; VlHog *h = vl_hog_new(var ? VlHogVariantDalalTriggs : VlHogVariantUoctti, no, 1); vl_hog_set_use_bilinear_orientation_assignments(h, bil); int dim = vl_hog_get_dimension(h); float *cp = malloc(sizeof(float) * M * N * C); memcpy(cp, mxGetData(I), sizeof(float) * M * N * C);
  const mwSize *od = mxGetDimensions(out); MC_CHECK("hog", mxGetClassID(out) == mxSINGLE_CLASS && (int)mxGetNumberOfElements(out) == hw * hh * dim && (int)od[0] == hw && (int)od[1] == hh, "vl_hog: size of the result is %s rather than %dx%dx%d", show(out), hw, hh, dim); if (!hw || !hh) { vl_hog_delete(h); free(cp); return; }
  float *e = malloc(sizeof(float) * hw * hh * dim); if (pol) vl_hog_put_polar_field(h, cp, cp + M * N, pol == 1, M, N, cs); else vl_hog_put_image(h, cp, M, N, C, cs); vl_hog_extract(h, e); for (int i = 0; i < hw * hh * dim; i++) MC_CHECK("hog", fabs(mxv(out, i) - e[i]) <= 1e-5 * (1 + fabs(e[i])), "vl_hog: value %d is %g rather than %g", i + 1, mxv(out, i), e[i]);
  if (bil && !pol && C == 1) { VlHog *q = vl_hog_new(var ? VlHogVariantDalalTriggs : VlHogVariantUoctti, no, 0); vl_hog_set_use_bilinear_orientation_assignments(q, 1); float *rw = rows(I); vl_hog_put_image(q, rw, N, M, 1, cs); float *z = malloc(sizeof(float) * hw * hh * dim); vl_hog_extract(q, z); for (int t = 0; t < dim; t++) for (int y = 0; y < hw; y++) for (int x = 0; x < hh; x++) MC_CHECK("hog-transposed", fabs(mxv(out, (t * hh + x) * hw + y) - z[(t * hw + y) * hh + x]) <= 2e-3, "vl_hog: component %d of cell (%d, %d) is %g rather than %g", t + 1, y + 1, x + 1, mxv(out, (t * hh + x) * hw + y), z[(t * hw + y) * hh + x]); free(z); vl_hog_delete(q); }
  mc_state(mx_hash(out));
  /* rendering, and mirroring by the permutation */
  mxArray *ri[8] = {str("render"), out}, *ro; k = 2; if (var) { ri[k++] = str("Variant"); ri[k++] = str("dalaltriggs"); } if (no != 9) { ri[k++] = str("NumOrientations"); ri[k++] = sc(no); } r = twice("vl_hog('render')", mex_vl_hog, 1, &ro, k, ri); mc_case(1); int gs = vl_hog_get_glyph_size(h); MC_CHECK("hog-render", r == 0 && mx_is(ro, mxSINGLE_CLASS, gs * hw, gs * hh), "vl_hog('render'): error '%s' or size", mex_message);
  float *im = malloc(sizeof(float) * gs * gs * hw * hh); memset(im, 0, sizeof(float) * gs * gs * hw * hh); vl_hog_render(h, im, e, hw, hh); for (int i = 0; i < gs * gs * hw * hh; i++) MC_CHECK("hog-render", fabs(mxv(ro, i) - im[i]) <= 1e-5 * (1 + fabs(im[i])), "vl_hog('render'): pixel %d is %g rather than %g", i + 1, mxv(ro, i), im[i]); free(im);
  ri[0] = str("permutation"); for (int i = 1; i + 1 < k; i++) ri[i] = ri[i + 1]; r = mex_call(mex_vl_hog, 1, &ro, k - 1, ri); mc_case(1); MC_CHECK("hog-permutation", r == 0 && mx_is(ro, mxUINT32_CLASS, dim, 1), "vl_hog('permutation'): error '%s' or size", mex_message); for (int i = 0; i < dim; i++) MC_CHECK("hog-permutation", mxv(ro, i) == vl_hog_get_permutation(h)[i] + 1, "vl_hog('permutation'): element %d", i + 1);
  if (bil && !pol && C == 1 && N % cs == 0) { mxArray *fl = mx2(mxSINGLE_CLASS, M, N, 0), *fo; for (int x = 0; x < N; x++) memcpy((float *)mxGetData(fl) + x * M, (float *)mxGetData(I) + (N - 1 - x) * M, 4 * M); in[0] = fl; int kk = 2; if (var) { in[kk++] = str("variant"); in[kk++] = str("DalalTriggs"); } if (no != 9) { in[kk++] = str("NumOrientations"); in[kk++] = sc(no); } in[kk++] = str("BilinearOrientations"); r = mex_call(mex_vl_hog, 1, &fo, kk, in); MC_CHECK("hog-permutation", r == 0, "vl_hog: '%s'", mex_message); for (int t = 0; t < dim; t++) for (int x = 0; x < hh; x++) for (int y = 0; y < hw; y++) { int p = mxv(ro, t) - 1; double a = mxv(fo, (t * hh + hh - 1 - x) * hw + y), b = mxv(out, (p * hh + x) * hw + y); MC_CHECK("hog-permutation", fabs(a - b) <= 2e-3, "vl_hog of the mirrored image: component %d of cell (%d, %d) is %g; the permuted one is %g", t + 1, y + 1, hh - x, a, b); } }
  free(e); free(cp); vl_hog_delete(h);
}
/* ---- binary patterns and intensity orders ---- */
static void s_lbp(void) {
  mx_release(); static const int sh[][2] = {{8, 12}, {5, 3}, {3, 3}, {4, 4}, {9, 16}, {1, 1}, {2, 2}, {0, 3}, {1, 7}, {17, 20}}; static const double CS[] = {4, 2, 3, 1, 8, 2.9, 1e9}; int s = mc_choose(MC_BOUND(9, 9, 10)), pat = mc_choose(6), M = sh[s][0], N = sh[s][1]; double c = CS[mc_choose(7)]; int cs = c; mxArray *I = img(pat, M, N), *in[2] = {I, sc(c)}, *out; mc_note("vl_lbp of %dx%d, cells of %g", M, N, c); int r = twice("vl_lbp", mex_vl_lbp, 1, &out, 2, in); MC_CHECK("lbp", r == 0, "vl_lbp: error '%s'", mex_message);
  VlLbp *l = vl_lbp_new(VlLbpUniform, 0); int h = M / cs, w = N / cs, dim = vl_lbp_get_dimension(l); const mwSize *d = mxGetDimensions(out); MC_CHECK("lbp", mxGetClassID(out) == mxSINGLE_CLASS && (int)d[0] == h && (int)d[1] == w && (mxGetNumberOfDimensions(out) == 3 ? (int)d[2] == dim : 0) && dim == 58, "vl_lbp: size of the result is %s rather than %dx%dx58", show(out), h, w);
  if (h && w) { float *e = malloc(sizeof(float) * h * w * dim); memset(e, 0, sizeof(float) * h * w * dim); vl_lbp_process(l, e, rows(I), N, M, cs); for (int t = 0; t < dim; t++) for (int x = 0; x < w; x++) for (int y = 0; y < h; y++) MC_CHECK("lbp", fabs(mxv(out, (t * w + x) * h + y) - e[(t * h + y) * w + x]) <= 1e-5, "vl_lbp: bin %d of cell (%d, %d) is %g rather than %g", t + 1, y + 1, x + 1, mxv(out, (t * w + x) * h + y), e[(t * h + y) * w + x]); free(e); } vl_lbp_delete(l); mc_state(mx_hash(out));
}
static void s_liop(void) {
  mx_release(); int side = 2 * mc_choose(MC_BOUND(6, 9, 12)) + 1, np = mc_choose(3), pat = mc_choose(6), k = 0, nn = 4, nb = 6, v; double rad = 6, th = NAN; static const double RA[] = {0, 1, 2, 3, 5}; mwSize d[3] = {side, side, np + 1}; mxArray *I = mxCreateNumericArray(np ? 3 : 2, d, mxSINGLE_CLASS, mxREAL), *in[16], *out; for (int p = 0; p <= np; p++) for (int x = 0; x < side; x++) for (int y = 0; y < side; y++) ((float *)mxGetData(I))[(p * side + x) * side + y] = pix((pat + p) % 6, x, y);
  in[k++] = I; if ((v = mc_choose(5))) { rad = RA[v]; in[k++] = str("radius"); in[k++] = sc(rad); } if ((v = mc_choose(3))) { nn = v + 1; in[k++] = str("NumNeighbours"); in[k++] = sc(nn); } if ((v = mc_choose(3))) { nb = v == 1 ? 1 : 4; in[k++] = str("NumSpatialBins"); in[k++] = sc(nb); } if ((v = mc_choose(4))) { th = v == 1 ? .5 : v == 2 ? -.1 : 0; in[k++] = str("IntensityThreshold"); in[k++] = sc(th); }
  mc_note("vl_liop of %d patches of side %d, radius %g, %d neighbours, %d bins, threshold %g", np + 1, side, rad, nn, nb, th); int r = twice("vl_liop", mex_vl_liop, 1, &out, k, in); if (rad >= side / 2) { MC_CHECK("liop", r == 1, "vl_liop accepts a radius of %g in a patch of side %d", rad, side); return; } MC_CHECK("liop", r == 0, "vl_liop: error '%s'", mex_message);
  VlLiopDesc *l = vl_liopdesc_new(nn, nb, rad, side); if (!isnan(th)) vl_liopdesc_set_intensity_threshold(l, th); int dim = vl_liopdesc_get_dimension(l), fac = 1; for (int i = 2; i <= nn; i++) fac *= i; MC_CHECK("liop", dim == fac * nb && mx_is(out, mxSINGLE_CLASS, dim, np + 1), "vl_liop: size of the result is %s rather than %dx%d", show(out), dim, np + 1); float *e = malloc(sizeof(float) * dim), *cp = malloc(sizeof(float) * side * side);
  for (int p = 0; p <= np; p++) { memset(e, 0, sizeof(float) * dim); memcpy(cp, (float *)mxGetData(I) + p * side * side, sizeof(float) * side * side); vl_liopdesc_process(l, e, cp); for (int i = 0; i < dim; i++) MC_CHECK("liop", fabs(mxv(out, p * dim + i) - e[i]) <= 1e-5 || (isnan(e[i]) && isnan(mxv(out, p * dim + i))), "vl_liop: value %d of patch %d is %g rather than %g", i + 1, p + 1, mxv(out, p * dim + i), e[i]); } free(e); free(cp); vl_liopdesc_delete(l); mc_state(mx_hash(out));
}
/* ---- unusual values ---- */
static void s_odd(void) {
  mx_release(); static const double V[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, -1, 0, 0.5, 40, 2147483648., 4294967297., 1e18}; enum { NV = 12 }; static const struct { const char *fn, *opt; } O[] = {{"sift", "Octaves"}, {"sift", "FirstOctave"}, {"sift", "PeakThresh"}, {"sift", "EdgeThresh"}, {"sift", "NormThresh"}, {"sift", "Magnif"}, {"sift", "WindowSize"}, {"sift", "frames"}, {"siftd", "magnif"}, {"siftd", "normthresh"}, {"siftd", "frames"}, {"dsift", "step"}, {"dsift", "size"}, {"dsift", "windowsize"}, {"dsift", "bounds"}, {"dsift", "geometry"}, {"covdet", "frames"}, {"covdet", "PeakThreshold"}, {"covdet", "EdgeThreshold"}, {"covdet", "BaseScale"}, {"covdet", "PatchRelativeExtent"}, {"covdet", "PatchRelativeSmoothing"}, {"covdet", "MaxNumOrientations"}, {"covdet", "NumOctaves"}, {"mser", "Delta"}, {"mser", "MaxArea"}, {"mser", "MinArea"}, {"mser", "MaxVariation"}, {"mser", "MinDiversity"}, {"mser", "BrightOnDark"}, {"erfill", ""}, {"hog", "cell"}, {"lbp", "cell"}, {"liop", "Radius"}, {"liop", "IntensityThreshold"}, {"liop", "NumNeighbours"}, {"image", "sift"}, {"image", "dsift"}, {"image", "covdet"}, {"image", "hog"}, {"image", "lbp"}, {"image", "liop"}};
  int o = mc_choose(sizeof O / sizeof *O), vi = mc_choose(NV), el = 0, k = 0; double v = V[vi]; const char *fn = O[o].fn, *opt = O[o].opt; mxArray *in[10], *out[3]; int nout = 2; mexfn f = 0; mxArray *I = img(1, 16, 18);
  if (!strcmp(fn, "image")) { ((float *)mxGetData(I))[mc_choose(2) ? 70 : 0] = v; fn = opt; opt = 0; }
  if (!strcmp(fn, "sift")) f = mex_vl_sift; if (!strcmp(fn, "siftd")) f = mex_vl_siftdescriptor, nout = 1; if (!strcmp(fn, "dsift")) f = mex_vl_dsift; if (!strcmp(fn, "covdet")) f = mex_vl_covdet; if (!strcmp(fn, "mser")) f = mex_vl_mser; if (!strcmp(fn, "erfill")) f = mex_vl_erfill, nout = 1; if (!strcmp(fn, "hog")) f = mex_vl_hog, nout = 1; if (!strcmp(fn, "lbp")) f = mex_vl_lbp, nout = 1; if (!strcmp(fn, "liop")) f = mex_vl_liop, nout = 1;
  if (f == mex_vl_mser || f == mex_vl_erfill) { I = mx2(mxUINT8_CLASS, 4, 5, 0); for (int i = 0; i < 20; i++) mxsv(I, i, i * 37 % 101); } if (f == mex_vl_liop && opt) I = img(1, 17, 17); if (f == mex_vl_liop && !opt) { mxArray *J = img(1, 17, 17); ((float *)mxGetData(J))[70] = v; I = J; }
  if (f == mex_vl_siftdescriptor) { mwSize d[3] = {2, 16, 18}; I = mxCreateNumericArray(3, d, mxSINGLE_CLASS, mxREAL); for (int i = 0; i < 576; i++) mxsv(I, i, i % 7); } in[k++] = I;
  double fr[4] = {6, 5, 2, .5}, fr6[6] = {6, 5, 2, 0, 0, 2}, b4[4] = {1, 1, 18, 16}; int isf = opt && !strcmp(opt, "frames");
  if (f == mex_vl_siftdescriptor) { if (isf) fr[el = mc_choose(4)] = v; in[k++] = mx2(mxDOUBLE_CLASS, 4, 1, fr); } if (f == mex_vl_erfill) in[k++] = sc(v); if (f == mex_vl_hog || f == mex_vl_lbp) in[k++] = sc(opt ? v : 4);
  if (opt && !(isf && f == mex_vl_siftdescriptor) && f != mex_vl_erfill && f != mex_vl_hog && f != mex_vl_lbp) { in[k++] = str(opt); if (isf && f == mex_vl_sift) fr[el = mc_choose(4)] = v, in[k++] = mx2(mxDOUBLE_CLASS, 4, 1, fr); else if (isf) fr6[el = mc_choose(6)] = v, in[k++] = mx2(mxDOUBLE_CLASS, 6, 1, fr6); else if (!strcmp(opt, "bounds")) b4[el = mc_choose(4)] = v, in[k++] = mx2(mxDOUBLE_CLASS, 4, 1, b4); else if (!strcmp(opt, "geometry")) { double g[3] = {4, 4, 8}; g[el = mc_choose(3)] = v; in[k++] = mx2(mxDOUBLE_CLASS, 3, 1, g); } else in[k++] = sc(v); }
  mc_note("vl_%s with %s (element %d) equal to %g", fn, opt ? opt : "a pixel", el + 1, v); int r = mex_call(f, nout, out, k, in); if (r == 0) for (int i = 0; i < nout; i++) mc_state(out[i] ? mx_hash(out[i]) : 0);
  if (f == mex_vl_erfill && !(v >= -20 && v <= 20 && fabs(v) >= 1)) MC_CHECK("odd", r == 1, "vl_erfill accepts the seed %g", v);
  if (opt && !isf && (f == mex_vl_hog || f == mex_vl_lbp) && !(v >= 1)) MC_CHECK("odd", r == 1, "vl_%s accepts a cell size of %g", fn, v);
  if (opt && (!strcmp(opt, "step") || !strcmp(opt, "size")) && !(v >= 1)) MC_CHECK("odd", r == 1, "vl_dsift accepts a %s of %g", opt, v);
}
static void s_args(void) {
  mx_release(); mxArray *in[12] = {0}, *I = img(1, 12, 13); double fr[8] = {6, 5, 2, .5, 3, 4, 1, 1}; switch (mc_choose(10)) {
    case 0: in[0] = I; in[1] = str("frames"); in[2] = mx2(mxDOUBLE_CLASS, 4, 2, fr); try_all("vl_sift", mex_vl_sift, 1, -1, 2, in, 3, 0); break;
    case 1: { mwSize d[3] = {2, 6, 7}; in[0] = mxCreateNumericArray(3, d, mxSINGLE_CLASS, mxREAL); in[1] = mx2(mxDOUBLE_CLASS, 4, 2, fr); in[2] = str("magnif"); in[3] = sc(2); try_all("vl_siftdescriptor", mex_vl_siftdescriptor, 2, -1, 1, in, 4, 0); } break;
    case 2: in[0] = img(1, 14, 14); in[1] = str("step"); in[2] = sc(3); try_all("vl_dsift", mex_vl_dsift, 1, -1, 2, in, 3, 0); break;
    case 3: in[0] = I; in[1] = str("frames"); in[2] = mx2(mxDOUBLE_CLASS, 4, 2, fr); try_all("vl_covdet", mex_vl_covdet, 1, -1, 3, in, 3, 0); break;
    case 4: in[0] = mx2(mxUINT8_CLASS, 3, 4, 0); in[1] = str("delta"); in[2] = sc(1); try_all("vl_mser", mex_vl_mser, 1, -1, 2, in, 3, 0); break;
    case 5: in[0] = mx2(mxUINT8_CLASS, 3, 4, 0); in[1] = sc(2); try_all("vl_erfill", mex_vl_erfill, 2, 2, 1, in, 2, 0); break;
    case 6: in[0] = I; in[1] = sc(4); in[2] = str("variant"); in[3] = str("uoctti"); try_all("vl_hog", mex_vl_hog, 1, -1, 1, in, 4, 0); break;
    case 7: in[0] = I; in[1] = sc(4); try_all("vl_lbp", mex_vl_lbp, 2, 2, 1, in, 2, 0); break;
    case 8: in[0] = img(1, 13, 13); in[1] = str("radius"); in[2] = sc(3); try_all("vl_liop", mex_vl_liop, 1, -1, 1, in, 3, 0); break;
    case 9: { in[0] = str("render"); mwSize d[3] = {2, 2, 31}; in[1] = mxCreateNumericArray(3, d, mxSINGLE_CLASS, mxREAL); try_all("vl_hog", mex_vl_hog, 2, -1, 1, in, 2, 0); } break;
  }
}
static void s_covdet1(void) { narrow = 0; s_covdet(); }
static void s_covdet2(void) { narrow = 1; s_covdet(); }
mc_suite mc_suites[] = {
  {"sift", s_sift, "images of up to 40x40, detection and up to 2 given frames, combinations of options", 0, 1, 2}, {"siftdescriptor", s_siftd, "gradient fields of up to 40x40, up to 3 frames"},
  {"dsift", s_dsift, "images of up to 30x30, combinations of options", 0, 2, 3}, {"covdet", s_covdet1, "images of up to 40x44, 6 detectors, 5 kinds of given frames, 4 descriptors, combinations of options", 0, 1, 1}, {"covdet2", s_covdet2, "one image, 6 detectors, 5 kinds of given frames, 4 descriptors, pairs of options", 0, 1, 2},
  {"mser", s_mser, "every small image over a small alphabet, each option", 0, 1, 1}, {"erfill", s_erfill, "every small image over a small alphabet, every seed"}, {"hog", s_hog, "13 shapes, cells, variants, fields, orientations", 0, 1, 1},
  {"lbp", s_lbp, "10 shapes, 7 cells"}, {"liop", s_liop, "patches of side up to 23, options"}, {"odd", s_odd, "every option with non-finite, huge and tiny values"}, {"args", s_args, "arguments of 30 kinds"}, {0}};
