/* C05: getopt_long on all argument vectors over a token alphabet, against a direct reading of its documentation. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/getopt_long.h>

static int flagvar;
static struct option longopts[] = {
  {"help", no_argument, 0, 'h'}, {"file", required_argument, 0, 'f'}, {"opt", optional_argument, 0, 1002},
  {"set", no_argument, &flagvar, 77}, {"fi", no_argument, 0, 501}, {"req", required_argument, &flagvar, 78}, {0, 0, 0, 0}};
static const char *tokens[] = {"-h", "-b", "-f", "-hb", "-hf", "-fx", "-z", "-hzb", "--help", "--file", "--file=v", "--file=", "--opt", "--opt=v", "--set", "--bad", "--fi", "--", "-", "x", "", "--req", "--fil", "---", "-bfx=y", "--helpx", "-h-"};
#define NT MC_LEN(tokens)
typedef struct { int ret, idx, opt; const char *arg; int hasarg; } ev;

/* the reference: one event per option, in order; operands in order */
static int model(int argc, char **argv, const char *shorts, int colon, ev *e, char **operands, int *nop) {
  int i, n = 0, no = 0;
  for (i = 1; i < argc; ++i) {
    char *a = argv[i];
    if (a[0] != '-' || !a[1]) { operands[no++] = a; continue; }
    if (!strcmp(a, "--")) { for (++i; i < argc; ++i) operands[no++] = argv[i]; break; }
    if (a[1] == '-') {
      char *name = a + 2; size_t L = strcspn(name, "="); int k;
      for (k = 0; longopts[k].name; ++k) if (strlen(longopts[k].name) == L && !memcmp(name, longopts[k].name, L)) break;
      if (!longopts[k].name) { e[n++] = (ev){'?', -1, 0, 0, 0}; continue; }
      { const char *arg = 0; int bad = 0;
        if (longopts[k].has_arg != no_argument && name[L] == '=') arg = name + L + 1;
        else if (longopts[k].has_arg == required_argument) { if (i + 1 < argc) arg = argv[++i]; else bad = 1; }
        if (bad) e[n++] = (ev){colon ? ':' : '?', k, 0, 0, 0};
        else e[n++] = (ev){longopts[k].flag ? 0 : longopts[k].val, k, 0, arg, 1}; }
      continue;
    }
    { char *c; for (c = a + 1; *c; ++c) {
        const char *o = strchr(shorts, *c);
        if (!o || *c == ':') { e[n++] = (ev){'?', -1, *c, 0, 0}; continue; }
        if (o[1] == ':') {
          if (c[1]) { e[n++] = (ev){*c, -1, *c, c + 1, 1}; break; }
          if (i + 1 < argc) e[n++] = (ev){*c, -1, *c, argv[++i], 1}; else e[n++] = (ev){colon ? ':' : '?', -1, *c, 0, 0};
        } else e[n++] = (ev){*c, -1, *c, 0, 1};
      } }
  }
  *nop = no; return n;
}
static int last;
static void parse(int argc, char **argv, const char *os, int colon, ev *e, int ne, char **operands, int nop, const char *when) {
  int n = 0, ch, i; char *orig[16]; int used[16] = {0};
  for (i = 0; i <= argc; ++i) orig[i] = argv[i];
  optind = 1; optreset = 1; opterr = 0;
  for (;;) {
    int idx = -7; flagvar = 0; optarg = (char*)"stale";
    ch = getopt_long(argc, argv, os, longopts, &idx); mc_op();
    if (ch == -1) break;
    MC_CHECK("extra", n < ne, "%s: option event %d returned (%d) but only %d expected", when, n, ch, ne);
    MC_CHECK("code", ch == e[n].ret, "%s: event %d is %d ('%c'), expected %d ('%c')", when, n, ch, ch > 31 && ch < 127 ? ch : ' ', e[n].ret, e[n].ret > 31 && e[n].ret < 127 ? e[n].ret : ' ');
    if (e[n].idx >= 0) MC_CHECK("index", idx == e[n].idx, "%s: event %d: long option index %d, expected %d", when, n, idx, e[n].idx);
    else MC_CHECK("index", idx == -7, "%s: event %d: long option index written (%d) for another option", when, n, idx);
    if (e[n].opt) MC_CHECK("optopt", optopt == e[n].opt, "%s: event %d: optopt %d expected %d", when, n, optopt, e[n].opt);
    if (e[n].arg) MC_CHECK("arg", optarg && !strcmp(optarg, e[n].arg) && optarg == e[n].arg, "%s: event %d: argument '%s', expected '%s'", when, n, optarg ? optarg : "(null)", e[n].arg);
    else if (e[n].ret != '?' && e[n].ret != ':' && e[n].idx >= 0) MC_CHECK("arg", optarg == 0, "%s: event %d: argument '%s', expected none", when, n, optarg);
    if (ch == 0) MC_CHECK("flag", flagvar == longopts[e[n].idx].val, "%s: event %d: flag variable is %d", when, n, flagvar); else MC_CHECK("flag", flagvar == 0, "%s: flag variable changed", when);
    ++n;
    MC_CHECK("endless", n < 40, "too many events");
  }
  MC_CHECK("missing", n == ne, "%s: %d option events, expected %d", when, n, ne);
  MC_CHECK("operands", argc - optind == nop, "%s: %d operands left (optind %d of %d), expected %d", when, argc - optind, optind, argc, nop);
  for (i = 0; i < nop; ++i) MC_CHECK("operands", argv[optind+i] == operands[i], "%s: operand %d is '%s', expected '%s'", when, i, argv[optind+i] ? argv[optind+i] : "(null)", operands[i]);
  /* argv is a permutation of what it was */
  for (i = 0; i < argc; ++i) { int k; for (k = 0; k < argc; ++k) if (!used[k] && orig[k] == argv[i]) break; MC_CHECK("permutation", k < argc, "%s: argv[%d] is not one of the original arguments", when, i); used[k] = 1; }
  MC_CHECK("permutation", argv[argc] == 0 && argv[0] == orig[0], "%s: argv[0] or the terminating null changed", when);
}
static void vec(int maxn, int nt) {
  int colon = mc_choose(2), n = mc_choose(maxn+1), i, ne, nop; const char *shorts = "hbf:", *os = colon ? ":hbf:" : "hbf:";
  char **argv = mc_galloc(sizeof(char*) * (n+2)); ev e[64]; char *operands[16]; uint64_t h = 0;
  argv[0] = (char*)"prog";
  for (i = 1; i <= n; ++i) { const char *t = tokens[mc_choose(nt)]; argv[i] = mc_galloc(strlen(t)+1); strcpy(argv[i], t); }
  argv[n+1] = 0;
  if (mc_verbose) { mc_note("optstring \"%s\", argv:", os); for (i = 1; i <= n; ++i) mc_note(" '%s'", argv[i]); }
  ne = model(n+1, argv, shorts, colon, e, operands, &nop);
  { char *keep[16]; for (i = 0; i <= n; ++i) keep[i] = argv[i];
    parse(n+1, argv, os, colon, e, ne, operands, nop, "first parse");
    /* restart on the original order gives the same answer */
    for (i = 0; i <= n; ++i) argv[i] = keep[i];
    parse(n+1, argv, os, colon, e, ne, operands, nop, "second parse");
    for (i = 0; i < ne; ++i) h = mc_mix(h, e[i].ret); mc_state(mc_mix(mc_mix(h, nop), ne));
    for (i = 1; i <= n; ++i) mc_gfree(keep[i]); }
  mc_gfree(argv); (void)last;
}
static void full(void) { vec(MC_BOUND(2, 3, 4), NT); }
static void longer(void) { vec(MC_BOUND(3, 4, 5), MC_BOUND(12, 19, 21)); }
/* a parse abandoned in the middle of a cluster and restarted on another vector */
static void restart(void) {
  static const char *first[] = {"-hbz", "-hb", "-zh", "--file=x"}; int a = mc_choose(4), cut = mc_choose(3), i, t = mc_choose(NT), u = mc_choose(NT), ne, nop; ev e[64]; char *operands[8];
  char *v1[] = {(char*)"p", (char*)first[a], (char*)"op", 0}, *v2[] = {(char*)"p", (char*)tokens[t], (char*)tokens[u], 0};
  optind = 1; optreset = 1; opterr = 0;
  for (i = 0; i < cut; ++i) { getopt_long(3, v1, "hbf:", longopts, 0); mc_op(); }
  ne = model(3, v2, "hbf:", 0, e, operands, &nop); mc_note("after %d options of '%s': '%s' '%s'", cut, first[a], tokens[t], tokens[u]);
  parse(3, v2, "hbf:", 0, e, ne, operands, nop, "restarted parse"); mc_state(mc_mix(ne, nop));
}
mc_suite mc_suites[] = {
  {"vectors", full, "all argument vectors up to 2/3/4 tokens from 27, with and without a leading colon; each parsed twice", 0},
  {"longer", longer, "all argument vectors up to 3/4/5 tokens from 12/19/21", 0},
  {"restart", restart, "all pairs of tokens parsed after abandoning another parse at 3 points", 0},
  {0}};
