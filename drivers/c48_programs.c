/* C48: the command line programs sift and mser write the library's features to exactly the files asked for.  The
 * programs run on files kept in memory (lib/clisim); the reference calls the library directly. */
#include "mc.h"
#include "clirun.h"
#include <stdarg.h>
#include <vl/sift.h>
#include <vl/mser.h>
#include <vl/pgm.h>
#include <vl/stringop.h>
extern int cli_sift(int, char **), cli_mser(int, char **);
static char line[8192]; static int len_, exits; static long live0;
static void arg(char const *fmt, ...) { va_list a; line[len_++] = ' '; va_start(a, fmt); len_ += vsnprintf(line + len_, sizeof(line) - len_ - 2, fmt, a); va_end(a); }
static void begin(char const *program) { strcpy(line, program); len_ = strlen(line); }
static void body_begin(void) { cli_reset(); vl_get_last_error(); }
static int run(int (*program)(int, char **)) { int c; mc_note("%.200s", line); live0 = mc_live; c = cli_run(program, line);
  MC_CHECK("open", cli_open() == 0, "`%s' leaves %d files open", line, cli_open());
  MC_CHECK("leak", mc_live == live0, "`%s' leaves %ld blocks", line, mc_live - live0);
  MC_CHECK("status", c == 0 || c == 1, "`%s' exits with %d", line, c);
  MC_CHECK("message", !c == !cli_errors, "`%s' exits with %d and %d messages", line, c, cli_errors);
  mc_case(1); return c; }

/* ------------------------------------------------------------------ images */
typedef struct { int w, h, max; unsigned v[64*64]; } image;
static void picture(image *m, int k) { static int const W[] = {16, 24, 8, 20}, H[] = {16, 20, 8, 13}; int x, y; m->w = W[k]; m->h = H[k]; m->max = 255;
  for (y = 0; y < m->h; ++y) for (x = 0; x < m->w; ++x) { double v = 60, d1, d2, d3;
    d1 = (x-5.2)*(x-5.2) + (y-6)*(y-6); d2 = (x-10.5)*(x-10.5)/2 + (y-9.3)*(y-9.3); d3 = (x-14)*(x-14) + (y-4)*(y-4)/3.;
    if (k != 2) v += 150*exp(-d1/7) - 50*exp(-d2/5) + 90*exp(-d3/4); if (k == 1) v += 60*exp(-((x-18)*(x-18)+(y-14)*(y-14))/18.) + 3*((x*7+y*3)%4); if (k == 3) v += 4*((x/2*5 + y/2*3 + x*y/9)%3);
    if (k == 3 && x > 12) v += 80; m->v[y*m->w+x] = v < 0 ? 0 : v > 255 ? 255 : (unsigned)v; } }
static size_t pgm(image const *m, int raw, char *b) { size_t n = sprintf(b, "P%d\n%d %d\n%d\n", raw ? 5 : 2, m->w, m->h, m->max); int i;
  for (i = 0; i < m->w*m->h; ++i) if (!raw) n += sprintf(b + n, "%u ", m->v[i]); else { if (m->max > 255) b[n++] = m->v[i] >> 8; b[n++] = m->v[i]; }
  return n; }
static void put_picture(char const *name, image const *m) { static char b[64*64*6+64]; size_t n = pgm(m, 1, b); cli_put(name, b, n); }

/* --------------------------------------------------------------- reference */
typedef struct { double x[4]; unsigned char d[128]; int used; } record;
static record rec[4000]; static int nrec;
typedef struct { int O, S, omin; double edge, peak, magnif; } param;
static param const usual = {-1, 3, -1, -1, -1, -1};
typedef struct { char name[32]; int w, h; unsigned char *v; } level; static level levels[64]; static int nlevels; static unsigned char levelmem[1<<20]; static long levelused;
static void add(VlSiftFilt *f, VlSiftKeypoint const *k, double angle) { float d[128]; int i; record *r = rec + nrec++; memset(d, 0, sizeof d);
  vl_sift_calc_keypoint_descriptor(f, d, k, angle); r->x[0] = k->x; r->x[1] = k->y; r->x[2] = k->sigma; r->x[3] = angle;
  for (i = 0; i < 128; ++i) { double v = 512. * d[i]; r->d[i] = v < 255 ? (unsigned char)v : 255; } }
/* the features of an image; of the n frames given if n >= 0 */
static void reference(image const *m, param const *p, double const (*given)[4], int n, int force) { static float im[64*64]; int i, j, s, o, err; VlSiftFilt *f = vl_sift_new(m->w, m->h, p->O, p->S, p->omin);
  if (p->edge >= 0) vl_sift_set_edge_thresh(f, p->edge); if (p->peak >= 0) vl_sift_set_peak_thresh(f, p->peak); if (p->magnif >= 0) vl_sift_set_magnif(f, p->magnif);
  for (i = 0; i < m->w*m->h; ++i) im[i] = m->v[i];
  nrec = nlevels = 0; levelused = 0;
  for (err = vl_sift_process_first_octave(f, im); !err; err = vl_sift_process_next_octave(f)) { double a[4]; o = vl_sift_get_octave_index(f);
    for (s = 0; s < p->S && nlevels < 64; ++s) { level *L = levels + nlevels++; float *g = vl_sift_get_octave(f, s); L->w = vl_sift_get_octave_width(f); L->h = vl_sift_get_octave_height(f); sprintf(L->name, "_%02d_%03d", o, s); L->v = levelmem + levelused; levelused += L->w * L->h; for (i = 0; i < L->w*L->h; ++i) L->v[i] = (unsigned char)g[i]; }
    if (n < 0) { VlSiftKeypoint const *k; vl_sift_detect(f); k = vl_sift_get_keypoints(f); for (i = 0; i < vl_sift_get_nkeypoints(f); ++i) { int na = vl_sift_calc_keypoint_orientations(f, a, k + i); for (j = 0; j < na; ++j) add(f, k + i, a[j]); } }
    else for (i = 0; i < n; ++i) { VlSiftKeypoint k; vl_sift_keypoint_init(f, &k, given[i][0], given[i][1], given[i][2]); if (k.o != o) continue; if (force) { int na = vl_sift_calc_keypoint_orientations(f, a, &k); for (j = 0; j < na; ++j) add(f, &k, a[j]); } else add(f, &k, given[i][3]); } }
  vl_sift_delete(f); }

/* ------------------------------------------------------------ output files */
static double be_double(char const *p) { unsigned char b[8]; double v; int i; for (i = 0; i < 8; ++i) b[i] = p[7-i]; memcpy(&v, b, 8); return v; }
static int expected;
static char const *the_file(char const *name, size_t *n) { char const *d = cli_get(name, n); MC_CHECK("files", d, "`%s' does not write `%s' (%d files written, e.g. `%s')", line, name, cli_written(), cli_written_name(0)); ++expected; return d; }
static void no_other(void) { MC_CHECK("files", cli_written() == expected, "`%s' writes %d files instead of %d, e.g. `%s', `%s'", line, cli_written(), expected, cli_written_name(0), cli_written_name(1)); }
/* a file of frames (what & 1) and descriptors (what & 2) */
static void table(char const *name, int what, int binary, int ordered) { size_t n; char const *d = the_file(name, &n), *e = d + n; int rows = 0, i, j, cols = (what & 1 ? 4 : 0) + (what & 2 ? 128 : 0);
  for (i = 0; i < nrec; ++i) rec[i].used = 0;
  while (d < e) { double v[132]; int binarybytes = (what & 1 ? 32 : 0) + (what & 2 ? 128 : 0);
    if (binary) { MC_CHECK("binary", e - d >= binarybytes, "`%s': `%s' ends with %d bytes of a row", line, name, (int)(e - d)); i = 0; if (what & 1) for (; i < 4; ++i, d += 8) v[i] = be_double(d); for (; i < cols; ++i) v[i] = (unsigned char)*d++; }
    else { char *q; for (i = 0; ; ++i) { while (d < e && (*d == ' ' || *d == '\t' || *d == '\r')) ++d; if (d >= e || *d == '\n') break; MC_CHECK("ascii", i < cols, "`%s': row %d of `%s' has more than %d numbers", line, rows, name, cols); v[i] = strtod(d, &q); MC_CHECK("ascii", q > d, "`%s': `%s' has `%.10s'", line, name, d); d = q; } ++d;
      if (i == 0) continue; MC_CHECK("ascii", i == cols, "`%s': row %d of `%s' has %d numbers instead of %d", line, rows, name, i, cols); }
    MC_CHECK("rows", rows < nrec, "`%s': `%s' has more than %d rows", line, name, nrec);
    for (j = ordered ? rows : 0; j < (ordered ? rows + 1 : nrec); ++j) { record *r = rec + j; int ok = !r->used; i = 0;
      if (what & 1) for (; i < 4 && ok; ++i) ok = mc_close(v[i], r->x[i], binary ? 1e-9 : 1e-6, binary ? 1e-9 : 1e-5);
      if (what & 2) { int o = what & 1 ? 4 : 0; for (i = 0; i < 128 && ok; ++i) ok = v[o+i] == r->d[i]; }
      if (ok) { r->used = 1; break; } }
    MC_CHECK("row", j < (ordered ? rows + 1 : nrec), "`%s': row %d of `%s' is none of the %d features expected: %g %g %g %g ...", line, rows, name, nrec, v[0], v[1], v[2], v[3]);
    ++rows; }
  MC_CHECK("rows", rows == nrec, "`%s': `%s' has %d rows instead of %d", line, name, rows, nrec);
  mc_state(mc_hash(what*2 + binary, cli_get(name, 0), n)); }
static void gss(char const *prefix, char const *suffix) { int i; for (i = 0; i < nlevels; ++i) { char name[1200]; size_t n, k; char const *d; char head[64]; snprintf(name, sizeof name, "%s%s%s", prefix, levels[i].name, suffix); d = the_file(name, &n); k = sprintf(head, "P5\n%d\n%d\n255\n", levels[i].w, levels[i].h);
    MC_CHECK("gss", n == k + levels[i].w*levels[i].h && !memcmp(d, head, k) && !memcmp(d + k, levels[i].v, levels[i].w*levels[i].h), "`%s': `%s' is not the level %s of the scale space", line, name, levels[i].name); } }
static void meta(char const *name, char const *what, char const *input, char const *k1, char const *n1, char const *k2, char const *n2) { size_t n; char const *d = the_file(name, &n); char e[4000], *p; int l = sprintf(e, "<%s input='%s'", what, input); if (n1) l += sprintf(e + l, " %s='%s'", k1, n1); if (n2) l += sprintf(e + l, " %s='%s'", k2, n2); sprintf(e + l, ">");
  { static char s[8192], t[4096]; size_t i, j = 0; (void)p; for (i = 0; i < n && j < sizeof(s) - 1; ++i) if (!strchr(" \n\t\r", d[i])) s[j++] = d[i]; s[j] = 0; for (i = j = 0; e[i]; ++i) if (e[i] != ' ') t[j++] = e[i]; t[j] = 0; MC_CHECK("meta", !strcmp(s, t), "`%s': `%s' has %.300s instead of %.300s", line, name, s, t); } }

/* ------------------------------------------------------------------ suites */
static double const frames[][4] = {{5, 6, 1.6, .3}, {10.5, 9.25, 2, -1.5}, {5, 6, 4, 2}, {-3, 4, 1.6, 0}, {15.75, 15.75, 1.2, 1}, {9, 9, .4, .1}, {8, 8, 30, .5}, {10, 4, 1.6, 3}, {5, 6, 1.6, 1.25}};
static void put_frames(char const *name, double const (*f)[4], int n, int binary) { static char b[4096]; int i, j, k, l = 0; for (i = 0; i < n; ++i) { for (j = 0; j < 4; ++j) if (binary) { unsigned char c[8]; memcpy(c, &f[i][j], 8); for (k = 7; k >= 0; --k) b[l++] = c[k]; } else l += sprintf(b + l, "%.17g ", f[i][j]); if (!binary) b[l++] = '\n'; } cli_put(name, b, l); }
static void outputs(void) { /* which files, in which format, from which frames */
  static char const *const pat[] = {"", "", "=o-%s.%s", "=bin://b/%s.%s"}; static char const *const opt[] = {"output", "frames", "descriptors"}, *const ext[] = {"sift", "frame", "descr"}; int k, st[3], met, src, force, g, binary = 0, out; char name[3][64]; static image m; double f[3][4];
  for (k = 0; k < 3; ++k) st[k] = mc_choose(4); met = mc_choose(3); src = mc_choose(5); force = mc_choose(2); g = mc_choose(2);
  body_begin(); picture(&m, 1); put_picture("dir.x/im.age.pgm", &m); begin("sift");
  for (k = 0; k < 3; ++k) { char p[64]; if (!st[k]) continue; if (k == 0 && st[k] == 1) { arg("-o"); arg("%%.sift"); } else { snprintf(p, sizeof p, pat[st[k]], "%", ext[k]); arg("--%s%s", opt[k], p); } }
  if (met) arg(met == 1 ? "--meta" : "--meta=ascii://%%-%%.m"); if (g) arg("--gss=%%g.pgm");
  if (src) { memcpy(f, frames, sizeof f); if (src == 1) { put_frames("im.age.frame", frames, 3, 0); arg("--read-frames=ascii://"); } else if (src == 2) { put_frames("in/im.age", frames, 3, 1); arg("--read-frames=bin://in/%%"); } else if (src == 3) { put_frames("im.age.frame", frames, 0, 0); arg("--read-frames=%%.frame"); } else { put_frames("none", frames, 0, 1); arg("--read-frames=binary://none"); } }
  if (force) arg("--orientations"); if (st[0] == 3) arg("-v"); if (st[1] == 3) arg("-vv"); arg("dir.x/im.age.pgm");
  MC_CHECK("status", run(cli_sift) == 0, "`%s' fails: %s", line, cli_message); expected = 0;
  reference(&m, &usual, frames, src == 0 ? -1 : src <= 2 ? 3 : 0, force);
  out = st[0] || !(st[1] || st[2]);
  for (k = 0; k < 3; ++k) { sprintf(name[k], st[k] <= 1 ? "im.age.%s" : st[k] == 2 ? "o-im.age.%s" : "b/im.age.%s", ext[k]); if (k ? st[k] : out) table(name[k], k == 0 ? 3 : k == 1 ? 1 : 2, st[k] == 3, src == 0); }
  if (met) meta(met == 1 ? "im.age.meta" : "im.age-im.age.m", "sift", "dir.x/im.age.pgm", "descriptors", st[2] ? name[2] : 0, "frames", st[1] ? name[1] : 0);
  if (g) { MC_CHECK("gss", nlevels > 0, "no level"); gss("im.age", "g.pgm"); }
  (void)binary; no_other(); }

static void parameters(void) { /* the options of the detector and of the descriptor */
  static int const Os[] = {-1, 0, 1, 2}, Ss[] = {3, 1, 2, 5}, os[] = {-1, -1, 0, 1, 2, -2, 4}; static double const es[] = {-1, 1, 1.5, 40}, ps[] = {-1, 0, .9, 6}, ms[] = {-1, 1, 4.5}; int o, s, fo, e, q, mg, form, pic; param p = usual; static image m;
  pic = mc_choose(MC_BOUND(1,2,4)); o = mc_choose(4); s = mc_choose(4); fo = mc_choose(7); e = mc_choose(MC_BOUND(2,3,4)); q = mc_choose(MC_BOUND(2,4,4)); mg = mc_choose(MC_BOUND(2,3,3)); form = (o + s + fo + e) % 3; pic = (int[]){3,1,0,2}[pic];
  body_begin(); picture(&m, pic); put_picture("a.pgm", &m); begin("sift"); if (form == 1) arg("a.pgm");
  p.S = Ss[s]; p.O = Os[o]; p.omin = os[fo]; p.edge = es[e]; p.peak = ps[q]; p.magnif = ms[mg];
  if (o) { if (form) arg("--octaves=%d", p.O); else arg("-O%d", p.O); } if (s) { if (form) { arg("--levels"); arg("%d", p.S); } else { arg("-S"); arg("%d", p.S); } }
  if (fo) arg("--first-octave=%d", p.omin); if (e) arg("--edge-thresh=%g", p.edge); if (q) { arg("--peak-thresh"); arg("%g", p.peak); } if (mg) arg("--magnif=%g", p.magnif); if (form != 1) arg("a.pgm");
  MC_CHECK("status", run(cli_sift) == 0, "`%s' fails: %s", line, cli_message); expected = 0; reference(&m, &p, 0, -1, 0); table("a.sift", 3, 0, 1); no_other(); }

static void arguments(void) { /* arguments that are refused: no file is written */
  static char const *const bad[] = {"--octaves=x", "--octaves=", "--octaves=-1", "--levels=y", "--levels=", "--levels=-2", "--levels=0", "--first-octave=z", "--first-octave=", "--edge-thresh=w", "--edge-thresh=0.5", "--edge-thresh=", "--peak-thresh=-1", "--peak-thresh=p", "--magnif=q", "--magnif=-1", "--nothing", "-Z", "--output=foo://%", "--frames=Ascii://x", "--descriptors=bina://", "--gss=://", "--read-frames=x://", "--meta=bin://%.meta", "--meta=zip://x", "-O", "-S", "-o", "--output", "--read-frames", "--octaves",
    "--delta=x", "--delta=-1", "--delta=", "--delta=256", "-d", "--max-area=2", "--max-area=-0.1", "--max-area=a", "--min-area=1.5", "--min-area=-1", "--max-variation=-1", "--max-variation=v", "--min-diversity=2", "--min-diversity=-.5", "--min-diversity=", "--bright-on-dark=2", "--bright-on-dark=", "--dark-on-bright=x", "--dark-on-bright=-1", "--seeds=q://x", "--frames=q://x", "--meta=bin://", "--nothing", "--max-area"};
  int b = mc_choose(MC_LEN(bad)), where = mc_choose(4), mser = b >= 31; static image m; int c, last = !strchr(bad[b], '=') && strcmp(bad[b], "--nothing") && strcmp(bad[b], "-Z");
  body_begin(); picture(&m, 0); put_picture("a.pgm", &m); begin(mser ? "mser" : "sift"); if (last && where != 3) mc_skip();
  if (where == 0) arg("%s", bad[b]); arg("-v"); if (where == 1) arg("%s", bad[b]); arg("--frames=f"); if (where == 2) arg("%s", bad[b]); arg("a.pgm"); if (where == 3) arg("%s", bad[b]);
  c = run(mser ? cli_mser : cli_sift); MC_CHECK("refused", c == 1, "`%s' is accepted", line); expected = 0; no_other(); }

static void help(void) { static char const *const l[] = {"", " -h", " --help", " -v", " --verbose", " -h a.pgm", " a.pgm --help", " --frames"}; int k = mc_choose(8), mser = mc_choose(2); static image m; body_begin(); picture(&m, 0); put_picture("a.pgm", &m); begin(mser ? "mser" : "sift"); strcat(line, l[k]); MC_CHECK("help", run(mser ? cli_mser : cli_sift) == 0, "`%s' fails", line); expected = 0; no_other(); }

/* the features that mser reports */
typedef struct { double delta, amax, amin, var, div; } mparam;
static void mser_files(char const *base, image const *m, mparam const *p, int bright, int dark, char const *fr, char const *se) { static double row[4000][5]; static long seed[4000]; int nr = 0, ns = 0, pass, i, j, dims[2]; (void)base; dims[0] = m->w; dims[1] = m->h;
  for (pass = 0; pass < 2; ++pass) { VlMserFilt *f; static vl_mser_pix px[64*64]; int n; vl_uint const *r; float const *e; if (!(pass ? bright : dark)) continue; f = vl_mser_new(2, dims); for (i = 0; i < m->w*m->h; ++i) px[i] = pass ? 255 - m->v[i] : m->v[i];
    if (p->delta >= 0) vl_mser_set_delta(f, (vl_mser_pix)p->delta); if (p->amax >= 0) vl_mser_set_max_area(f, p->amax); if (p->amin >= 0) vl_mser_set_min_area(f, p->amin); if (p->var >= 0) vl_mser_set_max_variation(f, p->var); if (p->div >= 0) vl_mser_set_min_diversity(f, p->div);
    vl_mser_process(f, px); n = vl_mser_get_regions_num(f); r = vl_mser_get_regions(f); for (i = 0; i < n; ++i) seed[ns++] = pass ? -(long)r[i] : (long)r[i];
    vl_mser_ell_fit(f); n = vl_mser_get_ell_num(f); e = vl_mser_get_ell(f); for (i = 0; i < n; ++i, ++nr) for (j = 0; j < 5; ++j) row[nr][j] = *e++; vl_mser_delete(f); }
  if (se) { size_t n; char const *d = the_file(se, &n); char *q; for (i = 0; ; ++i) { long v = strtol(d, &q, 10); if (q == d) break; d = q; MC_CHECK("seeds", i < ns && v == seed[i], "`%s': seed %d is %ld instead of %ld (of %d)", line, i, v, i < ns ? seed[i] : 0, ns); } while (*d && strchr(" \n\r\t", *d)) ++d; MC_CHECK("seeds", !*d && i == ns, "`%s': %d seeds instead of %d", line, i, ns); mc_state(mc_hash(7, d, 0)); }
  if (fr) { size_t n; char const *d = the_file(fr, &n); int rows = 0; while (*d) { char const *nl = strchr(d, '\n'); char *q; if (!nl) nl = d + strlen(d); for (i = 0; ; ++i) { double v; while (d < nl && (*d == ' ' || *d == '\t')) ++d; if (d >= nl) break; v = strtod(d, &q); MC_CHECK("frames", q > d && i < 5 && rows < nr && mc_close(v, row[rows][i], 1e-5, 1e-5), "`%s': number %d of row %d is %g instead of %g (%d rows)", line, i, rows, v, i < 5 && rows < nr ? row[rows][i] : 0, nr); d = q; } d = *nl ? nl + 1 : nl; if (i) { MC_CHECK("frames", i == 5, "`%s': row %d has %d numbers", line, rows, i); ++rows; } } MC_CHECK("frames", rows == nr, "`%s': %d rows instead of %d", line, rows, nr); mc_state(mc_hash(9, row, sizeof(double)*5*nr)); } }
static mparam const musual = {-1, -1, -1, -1, -1};
static void mser_outputs(void) { int fr = mc_choose(3), se = mc_choose(3), me = mc_choose(3), br = mc_choose(3), dk = mc_choose(3), pic = mc_choose(4), prm = mc_choose(MC_BOUND(2,6,8)); static image m; mparam p = musual; char const *fn, *sn;
  body_begin(); picture(&m, pic); put_picture("d/q.pgm", &m); begin("mser"); if (prm == 1) { p.delta = 1; p.amin = 0; p.amax = 1; p.var = 2; p.div = 0; } else if (prm == 2) { p.delta = 20; p.var = .5; } else if (prm == 3) { p.amin = .05; p.div = .7; } else if (prm == 4) { p.delta = 0; p.var = 1; } else if (prm == 5) { p.amax = 0; p.amin = 0; } else if (prm == 6) { p.delta = 2; p.amax = .2; } else if (prm == 7) { p.delta = 255; p.var = 100; p.div = 1; }
  if (p.delta >= 0) { if (fr) arg("--delta=%g", p.delta); else if (se) arg("-d%g", p.delta); else { arg("-d"); arg("%g", p.delta); } } if (p.amin >= 0) arg("--min-area=%g", p.amin); if (p.amax >= 0) arg("--max-area=%g", p.amax); if (p.var >= 0) arg("--max-variation=%g", p.var); if (p.div >= 0) arg("--min-diversity=%g", p.div);
  if (fr) arg(fr == 1 ? "--frames" : "--frames=ascii://x/%%.f"); if (se) arg(se == 1 ? "--seeds" : "--seeds=%%%%.s"[0] ? "--seeds=s-%%" : ""); if (me) arg(me == 1 ? "--meta" : "--meta=mm"); if (br) arg("--bright-on-dark=%d", br - 1); if (dk) arg("--dark-on-bright=%d", dk - 1); arg("d/q.pgm");
  MC_CHECK("status", run(cli_mser) == 0, "`%s' fails: %s", line, cli_message); expected = 0;
  /* without --frames and --seeds there is a default output: which of the two is not settled (see DESIGN) */
  fn = fr == 1 ? "q.frame" : fr ? "x/q.f" : 0; sn = se == 1 ? "q.mser" : se ? "s-q" : 0; if (!fn && !sn) { if (cli_get("q.frame", 0)) fn = "q.frame"; else sn = "q.mser"; }
  mser_files("q", &m, &p, br != 1, dk != 1, fn, sn);
  if (me) meta(me == 1 ? "q.meta" : "mm", "mser", "d/q.pgm", "seeds", sn, "frames", fn); no_other(); }
static void mser_binary(void) { /* bin:// is documented for mser */
  int what = mc_choose(2); static image m; size_t n; char const *d; body_begin(); picture(&m, 0); put_picture("a.pgm", &m); begin("mser"); arg("-d1"); arg("--min-area=0"); arg(what ? "--seeds=bin://a.bin" : "--frames=bin://a.bin"); arg("a.pgm"); MC_CHECK("status", run(cli_mser) == 0, "`%s' fails: %s", line, cli_message); expected = 0; d = the_file("a.bin", &n);
  { size_t i, text = 0; for (i = 0; i < n; ++i) if (strchr("0123456789-. \n", d[i]) && d[i]) ++text; MC_CHECK("binary-ignored", n == 0 || text < n, "`%s' writes text (%d bytes)", line, (int)n); } no_other(); }

/* what an input file is: 0 an image with pixels, 1 not an image, 2 an image without pixels */
static int read_input(char const *b, size_t n, image *m) { FILE *f = n ? fmemopen((void*)b, n, "rb") : fopen("/dev/null", "rb"); VlPgmImage p; static vl_uint16 data[64*64]; int err, i, np; err = vl_pgm_extract_head(f, &p); if (!err && p.width * p.height > 64*64) { fclose(f); return 1; } if (!err) err = vl_pgm_extract_data(f, &p, data); fclose(f); if (err) return 1; m->w = p.width; m->h = p.height; m->max = p.max_value; np = m->w*m->h; for (i = 0; i < np; ++i) m->v[i] = m->max > 255 ? data[i] : ((vl_uint8*)data)[i]; return np ? 0 : 2; }
static void input(char const *b, size_t n) { static image m; int kind = read_input(b, n, &m), mser; 
  for (mser = 0; mser < 2; ++mser) { int c; cli_reset(); cli_put("a.pgm", b, n); begin(mser ? "mser" : "sift"); if (mser) arg("--frames"); arg("a.pgm"); c = run(mser ? cli_mser : cli_sift); expected = 0;
    if (kind == 1) { MC_CHECK("malformed", c == 1, "`%s' on a malformed image of %d bytes succeeds", line, (int)n); if (!mser) no_other(); }
    else if (kind == 0 && !(mser && m.max > 255)) { MC_CHECK("status", c == 0, "`%s' on an image of %dx%d (maximum %d) fails: %s", line, m.w, m.h, m.max, cli_message); if (mser) mser_files("a", &m, &musual, 1, 1, "a.frame", 0); else { reference(&m, &usual, 0, -1, 0); table("a.sift", 3, 0, 1); } no_other(); }
    else if (mser && kind == 0) MC_CHECK("16bit", c == 1, "`%s' on an image of 16 bits succeeds", line); } }
static char ib[64*64*6+100];
static void inputs_cut(void) { static image m; int raw = mc_choose(2), deep = mc_choose(2), i; size_t n, k, lo, st; body_begin(); picture(&m, mc_choose(2) ? 0 : 3); if (deep) { m.max = 60000; for (i = 0; i < m.w*m.h; ++i) m.v[i] *= 200; } n = pgm(&m, raw, ib); k = mc_choose(40); st = n/20; if (k < 20) lo = k; else lo = n - (k - 20)*(mc_thorough ? 1 : 1); if (lo > n) mc_skip(); input(ib, lo); (void)st; }
static void inputs_header(void) { static char const *const num[] = {"0", "1", "8", "12", "13", "-1", "255", "256", "65535", "65536", "x", "", "99999", "2147483647", "4294967297", "1000000"}; static char const *const magic[] = {"P5", "P2", "P3", "p5", "Q5", "P"}; int a = mc_choose(16), b = mc_choose(16), c = mc_choose(MC_BOUND(6,16,16)), g = mc_choose(MC_BOUND(2,3,6)), i; size_t n; if (mc_asan) c = (int[]){2,6,7,5,0,10}[c]; body_begin();
  n = sprintf(ib, "%s\n%s %s\n%s\n", magic[g], num[a], num[b], num[c]); for (i = 0; i < 12*13; ++i) if (g == 1) n += sprintf(ib + n, "%d ", (i*i*7) % 8); else ib[n++] = (i*i*7) % 8; input(ib, n); }
static void inputs_small(void) { /* all small sizes */
  static image m; int i; body_begin(); m.w = 1 + mc_choose(MC_BOUND(5,9,12)); m.h = 1 + mc_choose(MC_BOUND(5,9,12)); m.max = mc_choose(2) ? 255 : 1023; for (i = 0; i < m.w*m.h; ++i) m.v[i] = (i*i*37 + i) % (m.max+1); input(ib, pgm(&m, mc_choose(2), ib)); }

static void several(void) { /* histories of up to three images: each is treated as alone, failures do not stop the others */
  static char const *const name[] = {"a.pgm", "x/b.c.pgm", "gone.pgm", "broken.pgm", "header.pgm", "empty.pgm", "noext", "w\\v.pgm", "/abs/.pgm"}, *const base[] = {"a", "b.c", 0, 0, 0, 0, "noext", "v", ""}; static image m[4]; int k, n = 1 + mc_choose(MC_BOUND(2,3,3)), in[3], mser = mc_choose(2), fail = 0, binary = mc_choose(2), c, done[9] = {0}; if (binary && mser) mc_skip(); body_begin(); for (k = 0; k < 4; ++k) picture(m + k, k);
  put_picture(name[0], m); put_picture(name[1], m+1); put_picture(name[6], m+3); put_picture(name[7], m+1); put_picture(name[8], m); { size_t l = pgm(m, 1, ib); cli_put("broken.pgm", ib, l - 9); cli_put("header.pgm", "P5\nx 3\n255\n", 11); cli_put("empty.pgm", "", 0); }
  begin(mser ? "mser" : "sift"); arg("--frames%s", binary ? "=bin://%.frame" : "=%.frame"); for (k = 0; k < n; ++k) { in[k] = mc_choose(9); arg("%s", name[in[k]]); fail |= !base[in[k]]; done[in[k]] = 1; }
  c = run(mser ? cli_mser : cli_sift); MC_CHECK("status", c == fail, "`%s' exits with %d", line, c);
  for (k = 0; k < 9; ++k) if (done[k] && base[k]) { char o[64]; static int const pic[] = {0,1,0,0,0,0,3,1,0}; sprintf(o, "%s.frame", base[k]); if (mser) mser_files(base[k], m + pic[k], &musual, 1, 1, o, 0); else { reference(m + pic[k], &usual, 0, -1, 0); table(o, 1, binary, 1); } }
  }

static void frames_file(void) { /* sequences of frames to describe */
  int n = mc_choose(MC_BOUND(3,4,4)), k, binary = mc_choose(2), force = mc_choose(2), fo = mc_choose(2); double f[4][4]; static image m; param p = usual; body_begin(); picture(&m, 1); put_picture("a.pgm", &m); for (k = 0; k < n; ++k) memcpy(f[k], frames[mc_choose(MC_LEN(frames))], sizeof f[k]);
  put_frames("k", f, n, binary); begin("sift"); arg("--read-frames=%sk", binary ? "bin://" : ""); if (force) arg("--orientations"); if (fo) { arg("--first-octave=0"); p.omin = 0; } arg("-o"); arg("bin://o"); arg("a.pgm"); MC_CHECK("status", run(cli_sift) == 0, "`%s' with %d frames fails: %s", line, n, cli_message); expected = 0; reference(&m, &p, f, n, force); table("o", 3, 1, 0); no_other(); }
static void frames_bad(void) { /* files of frames that are malformed or missing */
  static char const *const t[] = {"x", "1 2", "1 2 3 4\n5", "1 2 3 4\n5 6", "1 2 3 y\n", "1 2 z 4\n", "1,2,3,4\n", "1 2 3 4\nfoo", "5 6 1.6 .3 # comment\n"}; int k = mc_choose(10 + 64), c; static image m; body_begin(); picture(&m, 0); put_picture("a.pgm", &m); begin("sift"); if (k < 9) cli_put("k", t[k], strlen(t[k])); else if (k > 9) { char *b; put_frames("kk", frames, 2, 1); (void)b; { static char buf[64]; int i, j, l = 0, cut = k - 10; for (i = 0; i < 2; ++i) for (j = 0; j < 4; ++j) { unsigned char q[8]; int z; memcpy(q, &frames[i][j], 8); for (z = 7; z >= 0; --z) buf[l++] = q[z]; } if (cut % 32 == 0 || cut % 32 == 24) mc_skip(); /* whole frames; a frame without its angle ends the list */ cli_put("k", buf, cut); } }
  arg("--read-frames=%sk", k > 9 ? "bin://" : ""); arg("a.pgm"); c = run(cli_sift); MC_CHECK("frames", c == 1, "`%s' succeeds on %s", line, k < 9 ? t[k] : k == 9 ? "a missing file" : "a truncated binary file"); }

static void patterns(void) { /* the name of the file: the basename of the image for each %, a % for each %% */
  static char const *const piece[] = {"%", "a", "/", "%%", ".x", "", "\\"}; static image m; char e[64] = "", p[64] = "", l[3000]; int n = 1 + mc_choose(4), k, pr = mc_choose(4), last = -1, c; static char const *const prot[] = {"", "ascii://", "bin://", "binary://"}; body_begin(); picture(&m, 2); put_picture("q.pgm", &m); (void)l;
  for (k = 0; k < n; ++k) { int x = mc_choose(MC_LEN(piece)); if (last == 0 && (x == 0 || x == 3)) mc_skip(); if (last == 3 && x == 0) mc_skip(); strcat(p, piece[x]); strcat(e, x == 0 ? "q" : x == 3 ? "%" : piece[x]); if (x != 5) last = x; }
  if (!e[0]) strcpy(e, "q.descr"); if (e[strlen(e)-1] == '/') mc_skip(); begin("sift"); arg("--descriptors=%s%s", prot[pr], p); arg("q.pgm"); c = run(cli_sift); MC_CHECK("status", c == 0, "`%s' fails: %s", line, cli_message); expected = 0; { size_t z; char const *d = cli_get(e, &z); MC_CHECK(strstr(p, "%%") ? "percent" : "name", d, "`%s' writes `%s' instead of `%s'", line, cli_written_name(0), e); ++expected; } no_other(); }
static void lengths(void) { /* names that are too long are refused */
  static image m; int what = mc_choose(3), n = 1000 + mc_choose(60), c, k, mser = mc_choose(2); static char big[2000]; body_begin(); picture(&m, 2); for (k = 0; k < n; ++k) big[k] = 'a' + k % 26; big[n] = 0; begin(mser ? "mser" : "sift"); expected = 0;
  if (what == 0) { put_picture("q.pgm", &m); arg("--frames=%s", big); arg("q.pgm"); c = run(mser ? cli_mser : cli_sift); MC_CHECK("length", c == (n >= 1024), "a pattern of %d characters: %d", n, c); if (!c) the_file(big, 0); }
  else if (what == 1) { put_picture(big, &m); arg("--frames=x"); arg("%s", big); c = run(mser ? cli_mser : cli_sift); MC_CHECK("length", c == (n >= 1024), "an image with a name of %d characters: %d", n, c); if (!c) the_file("x", 0); }
  else { put_picture(big, &m); arg("--frames=%%.frame"); arg("%s", big); c = run(mser ? cli_mser : cli_sift); MC_CHECK("length", c == (n >= 1024 - 6), "an image with a name of %d characters: %d", n, c); if (!c) { strcat(big, ".frame"); the_file(big, 0); } }
  no_other(); }

static void faults(void) { /* each file that cannot be opened, each allocation of the program that fails */
  int mser = mc_choose(2), kind = mc_choose(2), k = 1 + mc_choose(24), rf = mser ? 0 : mc_choose(2), c, i; static image m; body_begin(); picture(&m, 0); put_picture("a.pgm", &m); put_picture("b.pgm", &m); put_frames("k", frames, 3, 0); begin(mser ? "mser" : "sift"); arg("--frames=%%.f"); arg("--meta=%%.m"); if (mser) arg("--seeds=%%.s"); else { arg("--descriptors=%%.d"); arg("--gss=%%.g"); if (rf) arg("--read-frames=k"); } arg("a.pgm"); arg("b.pgm");
  live0 = mc_live; if (kind) cli_fail_fopen = k; else cli_fail_malloc = k; c = cli_run(mser ? cli_mser : cli_sift, line); i = kind ? cli_fopens : cli_mallocs; if (i < k) mc_skip(); mc_note("%s with the %s number %d failing", line, kind ? "file" : "allocation", k);
  MC_CHECK("fault", c == 1 && cli_errors, "`%s' succeeds although the %s number %d fails", line, kind ? "file" : "allocation", k); MC_CHECK("open", !cli_open(), "`%s' leaves %d files open after the %s number %d failed", line, cli_open(), kind ? "file" : "allocation", k); MC_CHECK("leak", mc_live == live0, "`%s' leaves %ld blocks after the %s number %d failed", line, mc_live - live0, kind ? "file" : "allocation", k);
  /* the other image is processed */
  MC_CHECK("other", cli_get("b.m", 0) || cli_get("a.m", 0), "`%s': no image is processed after the %s number %d failed", line, kind ? "file" : "allocation", k); }

mc_suite mc_suites[] = {
 {"outputs", outputs, "sift: each of the three outputs absent, default, ASCII or binary x meta x 5 sources of frames x forced orientations x scale space files"},
 {"parameters", parameters, "sift: 4 numbers of octaves x 4 of levels x 6 first octaves x edge, peak thresholds and magnifications x up to 4 images"},
 {"mser", mser_outputs, "mser: frames, seeds and meta absent, default or named x bright x dark x 4 images x up to 8 sets of parameters"},
 {"arguments", arguments, "55 arguments that must be refused, at 4 places"},
 {"help", help, "8 requests of help"},
 {"cut", inputs_cut, "images cut after each of the first 20 bytes and before each of the last 20, ASCII and raw, 8 and 16 bits"},
 {"headers", inputs_header, "headers with all triples of 16 numbers"},
 {"small", inputs_small, "all images up to 9 x 9 (12 x 12), 8 and 16 bits, ASCII and raw"},
 {"several", several, "all sequences of up to three of 9 files, some missing, broken or empty"},
 {"frames", frames_file, "all sequences of up to three of 9 frames, ASCII and binary, with and without orientations"},
 {"frames-bad", frames_bad, "malformed, truncated and missing files of frames"},
 {"patterns", patterns, "file specifiers of up to four pieces x 4 protocols"},
 {"lengths", lengths, "names and patterns of 1000..1059 characters"},
 {"faults", faults, "each fopen and each allocation of the program failing, two images"},
 {"binary", mser_binary, "binary output of mser"},
 {0}};
