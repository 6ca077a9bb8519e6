#define _GNU_SOURCE
/* C36: PGM images: written and read back, streams, every header layout, every truncation and corruption, failing allocations and devices. */
#include "mc.h"
#include <unistd.h>
#include <fcntl.h>
#include <vl/generic.h>
#include <vl/pgm.h>
/* ---- independent parser: 0 must be refused, 1 must be accepted, 2 either ---- */
typedef struct { long w, h, max; int raw, bpp; long end; unsigned v[4096]; } Im;
static int ws(int c) { return c == '\n' || c == '\t' || c == ' ' || c == '\r'; }
static int number(unsigned char const *b, long n, long *p, long *v, int *soft) { long s = *p; *v = 0; if (*p < n && (b[*p] == '+' || b[*p] == '-')) { int m = b[*p] == '-'; long i = *p+1, z = 1; for (; i < n && b[i] >= '0' && b[i] <= '9'; ++i) if (b[i] != '0') z = 0; if (i == *p+1) return 0; *soft = 1; if (m && !z) return 0; ++*p; s = *p; } for (; *p < n && b[*p] >= '0' && b[*p] <= '9'; ++*p) if (*v < 100000000000L) *v = *v*10 + b[*p]-'0'; return *p > s; }
static int blanks(unsigned char const *b, long n, long *p, int *soft) { long s = *p; for (; *p < n; ++*p) { if (ws(b[*p])) continue; if (b[*p] == '#') { while (*p < n && b[*p] != '\n') ++*p; if (*p >= n) break; continue; } if (b[*p] == '\v' || b[*p] == '\f') { *soft = 1; continue; } break; } return *p > s; }
static int parse(unsigned char const *b, long n, Im *im) { long p = 2, i, x; int soft = 0; memset(im, 0, sizeof(long)*3); if (n < 2 || b[0] != 'P' || (b[1] != '2' && b[1] != '5')) return 0; im->raw = b[1] == '5'; { long *f[3] = {&im->w, &im->h, &im->max}; for (i = 0; i < 3; ++i) { if (!blanks(b, n, &p, &soft) || !number(b, n, &p, f[i], &soft)) return 0; if (*f[i] > 2147483647L) return 0; if (*f[i] > 99999999L) soft = 1; } }
  if (p >= n) return 0; if (b[p] == '#' || b[p] == '\v' || b[p] == '\f') soft = 1; else if (!ws(b[p])) return 0; ++p; if (im->max < 1 || im->max > 65535) return 0; if (!im->w || !im->h) soft = 1; im->bpp = im->max > 255 ? 2 : 1;
  if (im->raw) { if (im->w && im->h && im->h > (n-p)/im->w/im->bpp) return 0; for (i = 0; i < im->w*im->h; ++i, p += im->bpp) { im->v[i] = im->bpp == 1 ? b[p] : b[p]*256+b[p+1]; if ((long)im->v[i] > im->max) soft = 1; } }
  else { if (im->w && im->h && im->h > (n-p)/im->w) return 0; for (i = 0; i < im->w*im->h; ++i) { long q = p; while (p < n && (ws(b[p]) || b[p] == '\v' || b[p] == '\f')) ++p; if (p < n && b[p] == '#') soft = 1; if (i && p == q && p < n && b[p] >= '0') return 0; if (i && p == q) { if (p < n && (b[p] == '+' || b[p] == '-')) soft = 1; else return 0; } if (!number(b, n, &p, &x, &soft)) return 0; if (x > im->max) return 0; if (p < n && i == im->w*im->h-1 && !ws(b[p])) soft = 1; im->v[i] = x; } }
  im->end = p; return soft ? 2 : 1; }
static Im ref; static char tmpn[64];
static int lowfd(void) { int d = dup(2); close(d); return d; }
static uint64_t readers(unsigned char const *b, long n, char const *key) { /* every way of reading the first image of these bytes */
  int want = parse(b, n, &ref), err = vl_get_last_error(), i, fd0 = lowfd(); VlPgmImage im; FILE *f; long live = mc_live, np; vl_uint8 *d; float *df; uint64_t hs = want; mc_alloc_max = 1<<20; if (mc_verbose) { char t[80]; int k; for (k = 0; k < n && k < 60; ++k) t[k] = b[k] >= 32 && b[k] < 127 ? b[k] : '~'; t[k] = 0; mc_note("%ld bytes \"%s\", expected %s", n, t, want == 0 ? "refused" : want == 1 ? "accepted" : "either"); }
  f = n ? fmemopen((void*)b, n, "rb") : fopen("/dev/null", "rb"); memset(&im, 0x5a, sizeof(im)); err = vl_pgm_extract_head(f, &im); mc_op(); mc_case(1); if (!err) { MC_CHECK("meta", im.max_value >= 1 && im.max_value <= 65535 && (im.is_raw == 0 || im.is_raw == 1) && im.width < 2147483648u && im.height < 2147483648u, "a header is accepted with size %ld x %ld, maximum %ld", (long)im.width, (long)im.height, (long)im.max_value); MC_CHECK("bpp", vl_pgm_get_bpp(&im) == (im.max_value > 255 ? 2u : 1u) && vl_pgm_get_npixels(&im) == im.width*im.height, "%ld pixels of %ld bytes", (long)vl_pgm_get_npixels(&im), (long)vl_pgm_get_bpp(&im)); np = im.width*im.height; if (np > 4096) { MC_CHECK(key, want != 1, "size"); } else { char *data = mc_galloc(np*vl_pgm_get_bpp(&im)); err = vl_pgm_extract_data(f, &im, data); mc_op(); mc_gcheck(data); if (!err) { MC_CHECK(key, want != 0, "a malformed file is read as a %ld x %ld image", (long)im.width, (long)im.height); MC_CHECK(key, (long)im.width == ref.w && (long)im.height == ref.h && (long)im.max_value == ref.max && im.is_raw == ref.raw, "read as %ld x %ld, maximum %ld", (long)im.width, (long)im.height, (long)im.max_value); for (i = 0; i < np; ++i) { unsigned v = ref.bpp == 1 ? ((vl_uint8*)data)[i] : ((vl_uint16*)data)[i]; MC_CHECK("pixels", v == ref.v[i], "pixel %d is read as %u instead of %u", i, v, ref.v[i]); hs = mc_mix(hs, v); } if (want == 1 && n) MC_CHECK("position", ftell(f) == ref.end || !ref.raw, "the stream is left at %ld instead of %ld", ftell(f), ref.end); } mc_gfree(data); } }
  MC_CHECK(key, !(err && want == 1), "a valid file is refused (error %d: %s)", err, vl_get_last_error_message()); if (err) MC_CHECK("code", err >= VL_ERR_PGM_INV_HEAD && err <= VL_ERR_PGM_IO, "error code %d", err); fclose(f);
  if (want == 0) MC_CHECK(key, err || (long)(im.width*im.height) > 4096, "a malformed file is accepted");
  { FILE *o; sprintf(tmpn, "pgm-%d.tmp", (int)getpid()); o = fopen(tmpn, "wb"); if (n) fwrite(b, 1, n, o); fclose(o); } d = (void*)0x77; err = vl_pgm_read_new(tmpn, &im, &d); mc_op(); if (!err) { MC_CHECK(key, want != 0, "a malformed file is read from its name as %ld x %ld", (long)im.width, (long)im.height); MC_CHECK("deep", ref.bpp == 1, "two bytes per pixel"); for (i = 0; i < ref.w*ref.h; ++i) MC_CHECK("pixels", d[i] == ref.v[i], "pixel %d is %u", i, d[i]); vl_free(d); } else MC_CHECK(key, want != 1 || ref.bpp == 2, "a valid file is refused by its name (error %d: %s)", err, vl_get_last_error_message());
  i = err; err = vl_pgm_read_new_f(tmpn, &im, &df); mc_op(); MC_CHECK("float", !err == !i, "reading as floats: error %d, as bytes: %d", err, i); if (!err) { for (i = 0; i < ref.w*ref.h; ++i) MC_CHECK("pixels", fabs(df[i]-(double)ref.v[i]/ref.max) < 1e-6*(1+(double)ref.v[i]/ref.max), "pixel %d is %g instead of %g", i, df[i], (double)ref.v[i]/ref.max); vl_free(df); } unlink(tmpn); MC_CHECK("files", lowfd() == fd0, "a file is left open"); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live-live); mc_state(hs); return hs; }
static unsigned char buf[9000]; static long bn;
static void put(char const *s) { strcpy((char*)buf+bn, s); bn += strlen(s); }
static void headers(void) { /* every layout of the header over an alphabet of separators */
  static char const *sep[] = {" ", "\n", "\t", "\r\n", "# a comment\n", "#\n#\n", "", " # 3 4\n ", "  ", "\n\n#x\n", "x", "#no end"}; static char const *end[] = {"\n", " ", "\r", "\t", "", "x"}; int k, a, s1 = mc_choose(12), s2 = mc_choose(12), raw = mc_choose(2), deep = mc_choose(2); char t[32]; for (a = 0; a < 12; ++a) for (k = 0; k < 6; ++k) { bn = 0; put(raw ? "P5" : "P2"); put(sep[s1]); put("3"); put(sep[s2]); put("2"); put(sep[a]); put(deep ? "300" : "255"); put(end[k]); { int i; for (i = 0; i < 6; ++i) { unsigned v = deep ? i*59 : i*51; if (raw) { if (deep) buf[bn++] = v >> 8; buf[bn++] = v; } else { sprintf(t, i%2 ? "%u\n" : "%u ", v); put(t); } } } readers(buf, bn, "header"); } }
static void values(void) { /* every combination of numbers in the header */
  static char const *num[] = {"1", "2", "0", "-1", "-2", "255", "256", "65535", "65536", "70000", "4294967297", "4294967298", "18446744073709551617", "99999999999999999999999", "2147483647", "-4294967295", "", "x", "01", "+2", "1.5", "0x2", "1e1", "2d"}; int a = mc_choose(24), b = mc_choose(24), c, raw; for (c = 0; c < 24; ++c) for (raw = 0; raw < 2; ++raw) { int i; bn = 0; put(raw ? "P5 " : "P2 "); put(num[a]); put(" "); put(num[b]); put(" "); put(num[c]); put("\n"); for (i = 0; i < 12; ++i) if (raw) buf[bn++] = i; else put(i%2 ? "1 " : "0 "); readers(buf, bn, "numbers"); } }
static void base(int m) { char t[40]; int w = m%3+1, h = m/3%3+1, i, deep = m/9%2, raw = m/18%2; bn = 0; sprintf(t, raw ? "P5\n%d %d\n%d\n" : "P2 #c\n%d\t%d %d\n", w, h, deep ? 1000 : 200); put(t); for (i = 0; i < w*h; ++i) { unsigned v = deep ? 997-i*101 : 199-i*17; if (raw) { if (deep) buf[bn++] = v >> 8; buf[bn++] = v; } else { sprintf(t, "%u ", v); put(t); } } if (!raw) --bn; }
static void truncations(void) { long n, k; base(mc_choose(36)); n = bn; for (k = 0; k <= n; ++k) readers(buf, k, k < n ? "truncated" : "whole"); }
static void corruptions(void) { /* every byte replaced by every value, removed, doubled */
  static unsigned char save[200]; long n, i, k; int st = mc_thorough ? 1 : 2; base(mc_choose(36)); n = bn; memcpy(save, buf, n); i = mc_choose(60); if (i >= n) mc_skip(); for (k = 0; k < 256; k += 1) { if (st > 1 && k > 127 && k % 16) continue; memcpy(buf, save, n); buf[i] = k; readers(buf, n, "corrupted"); } memcpy(buf, save, n); memmove(buf+i, buf+i+1, n-i-1); readers(buf, n-1, "removed"); memcpy(buf, save, i+1); memcpy(buf+i+1, save+i, n-i); readers(buf, n+1, "doubled"); }
static void pairs_(void) { /* two places corrupted with the characters that matter */
  static char const ch[] = "#\n 09-P25xd"; static unsigned char save[200]; long n, i, j, a, b; base(mc_choose(4)*9+4); n = bn; memcpy(save, buf, n); i = mc_choose(24); if (i >= n) mc_skip(); for (j = i+1; j < n && j < MC_BOUND(12,20,60); ++j) for (a = 0; a < 11; ++a) for (b = 0; b < 11; ++b) { memcpy(buf, save, n); buf[i] = ch[a]; buf[j] = ch[b]; readers(buf, n, "corrupted"); } }
static void roundtrip(void) { /* images written one after the other and read back */
  int w = mc_choose(MC_BOUND(5,7,10)), h = mc_choose(MC_BOUND(5,7,10)), mode = mc_choose(5), k, i, n = 3, err; static long const mx[] = {255, 1, 256, 65535, 254}; long live = mc_live; VlPgmImage im[3], r; void *data[3]; char *mem = NULL; size_t len = 0; FILE *f = open_memstream(&mem, &len); for (k = 0; k < n; ++k) { int np; im[k].width = k == 1 ? h : w; im[k].height = k == 1 ? w : h+k; im[k].max_value = mx[(mode+k)%5]; im[k].is_raw = 1; np = im[k].width*im[k].height; data[k] = mc_galloc(2*np+1); for (i = 0; i < np; ++i) { unsigned v = mode == 0 ? (i*37+k) : mode == 1 ? im[k].max_value : mode == 2 ? "\n# P5"[i%6] : mode == 3 ? 0 : 65535-i*4099; v %= im[k].max_value+1; if (im[k].max_value > 255) ((vl_uint16*)data[k])[i] = v; else ((vl_uint8*)data[k])[i] = v; } err = vl_pgm_insert(f, &im[k], data[k]); mc_op(); MC_CHECK("write", !err, "error %d", err); mc_gcheck(data[k]); }
  fclose(f); f = fmemopen(mem, len, "rb"); for (k = 0; k < n; ++k) { int np = im[k].width*im[k].height, bpp = im[k].max_value > 255 ? 2 : 1; char *d; err = vl_pgm_extract_head(f, &r); MC_CHECK("roundtrip", !err && r.width == im[k].width && r.height == im[k].height && r.max_value == im[k].max_value && r.is_raw, "image %d of %ld x %ld is read with error %d (%s), %ld x %ld", k, (long)im[k].width, (long)im[k].height, err, vl_get_last_error_message(), (long)r.width, (long)r.height); d = mc_galloc(np*bpp); err = vl_pgm_extract_data(f, &r, d); mc_op(); mc_case(1); MC_CHECK("roundtrip", !err && !memcmp(d, data[k], np*bpp), "image %d of %d x %d pixels of %d bytes differs (error %d)", k, (int)im[k].width, (int)im[k].height, bpp, err); mc_gcheck(d); mc_state(mc_hash(bpp, d, np*bpp)); mc_gfree(d); } MC_CHECK("roundtrip", vl_pgm_extract_head(f, &r) == VL_ERR_PGM_INV_HEAD, "an image after the last"); fclose(f); free(mem); for (k = 0; k < n; ++k) mc_gfree(data[k]); (void)live; }
static void files(void) { /* by name: bytes and floats */
  int w = 1 + mc_choose(9), h = 1 + mc_choose(9), mode = mc_choose(6), i, err, np = w*h, fd0 = lowfd(); long live = (vl_get_last_error(), mc_live); vl_uint8 b[100], *d; float fl[100], *df; VlPgmImage im; double mn = 1e30, ma = -1e30; sprintf(tmpn, "pgm-%d.tmp", (int)getpid()); for (i = 0; i < np; ++i) { b[i] = mode == 0 ? i*31 : mode == 1 ? 255 : mode == 2 ? '\n' : mode == 3 ? '#' : mode == 4 ? i : 255-i; fl[i] = mode == 0 ? i*.37f-3 : mode == 1 ? 5 : mode == 2 ? 1e6f*i : mode == 3 ? -1e-3f*i : mode == 4 ? (i == 3) : 255-i; if (fl[i] < mn) mn = fl[i]; if (fl[i] > ma) ma = fl[i]; }
  err = vl_pgm_write(tmpn, b, w, h); MC_CHECK("write", !err, "error %d", err); err = vl_pgm_read_new(tmpn, &im, &d); mc_ops(2); mc_case(2); MC_CHECK("file", !err && (int)im.width == w && (int)im.height == h && im.max_value == 255 && !memcmp(d, b, np), "written and read back: error %d (%s), %ld x %ld", err, vl_get_last_error_message(), (long)im.width, (long)im.height); vl_free(d); err = vl_pgm_write_f(tmpn, fl, w, h); MC_CHECK("write", !err, "error %d", err); err = vl_pgm_read_new_f(tmpn, &im, &df); MC_CHECK("file", !err && (int)im.width == w && (int)im.height == h, "error %d", err); for (i = 0; i < np; ++i) { double e = ma > mn ? (fl[i]-mn)/(ma-mn) : 0; MC_CHECK("file", df[i] >= 0 && df[i] <= 1 && fabs(df[i]-e) < 1.02/255, "pixel %d: %g in the range %g..%g is read back as %g", i, fl[i], mn, ma, df[i]); } vl_free(df); mc_state(mc_hash(w, b, np)); unlink(tmpn);
  MC_CHECK("missing", vl_pgm_read_new("no-such-directory/x.pgm", &im, &d) == VL_ERR_PGM_IO && vl_pgm_write("no-such-directory/x.pgm", b, w, h) == VL_ERR_PGM_IO && vl_pgm_read_new_f("no-such-directory/x.pgm", &im, &df) == VL_ERR_PGM_IO && vl_pgm_write_f("no-such-directory/x.pgm", fl, w, h) == VL_ERR_PGM_IO, "a missing directory is not reported"); MC_CHECK("full", vl_pgm_write("/dev/full", b, w, h) == VL_ERR_PGM_IO, "writing to a full device is reported as done"); MC_CHECK("files", lowfd() == fd0, "a file is left open"); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live-live); }
static long budget_; static ssize_t failing(void *c, char const *b, size_t n) { (void)c; (void)b; if (budget_ < (long)n) { long k = budget_; budget_ = 0; return k > 0 ? k : 0; } budget_ -= n; return n; }
static void faults(void) { /* a device which fills up after each number of bytes; each allocation failing */
  int deep = mc_choose(2), w = 1 + mc_choose(4), h = 1 + mc_choose(4), k, i, err; VlPgmImage im; char data[64]; long total, live; vl_get_last_error(); im.width = w; im.height = h; im.max_value = deep ? 1000 : 255; im.is_raw = 1; memset(data, 9, sizeof(data)); { char *mem; size_t len; FILE *f = open_memstream(&mem, &len); vl_pgm_insert(f, &im, data); fclose(f); total = len; free(mem); } live = mc_live; for (k = 0; k <= total; ++k) { cookie_io_functions_t io = {0}; FILE *f; io.write = failing; budget_ = k; f = fopencookie(NULL, "wb", io); setvbuf(f, NULL, _IONBF, 0); err = vl_pgm_insert(f, &im, data); mc_op(); mc_case(1); MC_CHECK("full", !err == (k == total), "a device full after %d of %ld bytes: error %d", k, total, err); fclose(f); }
  base(deep*9+18+4); sprintf(tmpn, "pgm-%d.tmp", (int)getpid()); { FILE *o = fopen(tmpn, "wb"); fwrite(buf, 1, bn, o); fclose(o); } for (i = 1; i < 8; ++i) { vl_uint8 *d = NULL; float *df = NULL; long l2 = mc_live; int fd0 = lowfd(); mc_fail_at = mc_allocs + i; err = vl_pgm_read_new(tmpn, &im, &d); mc_fail_at = 0; mc_op(); mc_case(1); if (!err) vl_free(d); MC_CHECK("oom", mc_live == l2 && lowfd() == fd0, "allocation %d failing: error %d, %ld blocks leaked", i, err, mc_live-l2); mc_fail_at = mc_allocs + i; err = vl_pgm_read_new_f(tmpn, &im, &df); mc_fail_at = 0; if (!err) vl_free(df); MC_CHECK("oom", mc_live == l2 && lowfd() == fd0, "allocation %d failing: error %d, %ld blocks leaked", i, err, mc_live-l2); if (deep) { FILE *f = fopen("/dev/null", "wb"); long l3 = mc_live; im.max_value = 1000; im.width = im.height = 2; mc_fail_at = mc_allocs + i; err = vl_pgm_insert(f, &im, data); mc_fail_at = 0; MC_CHECK("oom", mc_live == l3, "leak"); fclose(f); } } unlink(tmpn); MC_CHECK("leak", mc_live == live, "%ld blocks leaked", mc_live-live); }
mc_suite mc_suites[] = {
 {"roundtrip", roundtrip, "three images in a stream, all sizes 0..6 x 0..6 (9) x 5 contents and depths"},
 {"files", files, "all sizes 1..9 x 1..9 x 6 contents by name, bytes and floats; missing directories and full devices"},
 {"headers", headers, "all headers of 12^3 separators x 6 endings x ASCII and raw x depth"},
 {"values", values, "all triples of 24 numbers in the header, ASCII and raw"},
 {"truncations", truncations, "36 small files cut after every byte"},
 {"corruptions", corruptions, "36 small files with every byte replaced by all values (ASCII and 8 others; all in the thorough tier), removed, doubled"},
 {"pairs", pairs_, "4 files with each pair of the first bytes replaced by 11 characters"},
 {"faults", faults, "devices full after each byte; each allocation failing"},
 {0}};
