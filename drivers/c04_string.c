/* C04: string utilities, on all strings over a small alphabet and all buffer sizes. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/stringop.h>
#include <ctype.h>
#define MAXS 16
/* exact-size source so that over-reads are seen */
static char *src(const char *alpha, int na, int maxlen, char *out) {
  int n = mc_choose(maxlen+1), i; char *p = mc_galloc(n+1);
  for (i = 0; i < n; ++i) p[i] = alpha[mc_choose(na)];
  p[n] = 0; if (out) strcpy(out, p); return p;
}
typedef vl_size (*call_t)(char *dst, vl_size n);
/* checks one writer for all buffer sizes against the complete expected result */
#define WRITER(label, full, CALL) do { \
  vl_size L_ = strlen(full), n; int v; \
  for (n = 0; n <= L_ + 3; ++n) { \
    char *dst = mc_galloc(n ? n : 1); vl_size r; char before = dst[0]; \
    { r = (CALL); } mc_op(); mc_case(1); \
    MC_CHECK("length", r == L_, "%s with a buffer of %d returned %d, the full length is %d", label, (int)n, (int)r, (int)L_); \
    if (n == 0) MC_CHECK("oob", dst[0] == before, "%s wrote to a buffer of size 0", label); \
    else { v = (int)(n - 1 < L_ ? n - 1 : L_); MC_CHECK("nul", dst[v] == 0, "%s: buffer of %d is not terminated at %d", label, (int)n, v); \
      MC_CHECK("prefix", memcmp(dst, full, v) == 0, "%s: buffer of %d holds '%.*s', expected a prefix of '%s'", label, (int)n, v, dst, full); } \
    mc_gfree(dst); } \
  { char *dst = 0; vl_size r; n = 0; r = (CALL); mc_op(); MC_CHECK("null", r == L_, "%s with no buffer returned %d, the full length is %d", label, (int)r, (int)L_); } \
  mc_state(mc_hash(L_, full, L_)); } while (0)

static void copy(void) {
  char s[MAXS]; char *p = src("a.\xff", 3, MC_BOUND(4, 6, 7), s); mc_note("copy '%s'", s);
  WRITER("vl_string_copy", s, vl_string_copy(dst, n, p));
  MC_CHECK("length", vl_string_length(p) == strlen(s), "vl_string_length"); mc_gfree(p);
}
static void copysub(void) {
  char s[MAXS], full[MAXS]; char *p = src("ab", 2, MC_BOUND(4, 5, 6), s); int L = strlen(s), b = mc_choose(L+1), e = mc_choose(L+4), k;
  /* the end may lie beyond the terminator or before the beginning */
  char *q = mc_galloc(L + 5); memset(q, 'z', L+5); memcpy(q, s, L+1); mc_gfree(p);
  for (k = 0; b + k < e && s[b+k]; ++k) full[k] = s[b+k]; full[k] = 0;
  mc_note("copy_sub '%s' %d..%d", s, b, e);
  WRITER("vl_string_copy_sub", full, vl_string_copy_sub(dst, n, q + b, q + e));
  mc_gfree(q);
}
static void basename_(void) {
  char s[MAXS], t[MAXS]; char *p = src("a./\\", 4, MC_BOUND(5, 7, 9), s); int m = mc_choose(4), k; char *b = s, *c;
  for (c = s; *c; ++c) if (*c == '/' || *c == '\\') b = c + 1;
  strcpy(t, b);
  for (k = 0; k < m; ++k) { char *d = strrchr(t, '.'); if (d) *d = 0; }
  mc_note("basename '%s' strip %d", s, m);
  WRITER("vl_string_basename", t, vl_string_basename(dst, n, p, m));
  mc_gfree(p);
}
static void wildcard(void) {
  char s[MAXS], full[128]; char *p = src("*\\a", 3, MC_BOUND(5, 7, 8), s);
  static const char *reps[] = {"", "x", "yz", "*", "\\", "\\*a"}; const char *rep = reps[mc_choose(6)]; char esc = mc_choose(2) ? '\\' : 0; int i, k = 0, e = 0;
  for (i = 0; s[i]; ++i) {
    if (!e && esc && s[i] == esc) { e = 1; continue; }
    if (!e && s[i] == '*') { strcpy(full + k, rep); k += strlen(rep); } else full[k++] = s[i];
    e = 0;
  }
  full[k] = 0; mc_note("replace_wildcard '%s' esc %d rep '%s'", s, esc, rep);
  WRITER("vl_string_replace_wildcard", full, vl_string_replace_wildcard(dst, n, p, '*', esc, rep));
  mc_gfree(p);
}
static void findrev(void) {
  char s[MAXS]; char *p = src("abc", 3, MC_BOUND(5, 7, 8), s); int L = strlen(s), b = mc_choose(L+1), e = b + mc_choose(L-b+1), i, want; char c;
  for (c = 'a'; c <= 'c'; ++c) { char *r; want = -1; for (i = b; i < e; ++i) if (s[i] == c) want = i;
    r = vl_string_find_char_rev(p + b, p + e, c); mc_op(); mc_case(1);
    MC_CHECK("find", r == (want < 0 ? 0 : p + want), "find_char_rev '%s' [%d,%d) '%c': got %d expected %d", s, b, e, c, r ? (int)(r - p) : -1, want); mc_state(mc_mix(want, L)); }
  mc_gfree(p);
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void casei(void) {
  char s[MAXS], t[MAXS]; char *p = src("aBz\xe9", 4, MC_BOUND(3, 4, 5), s), *q = src("AbZ[", 4, MC_BOUND(3, 4, 5), t); int i, want = 0, r;
  for (i = 0; ; ++i) { int a = tolower((unsigned char)s[i]), b = tolower((unsigned char)t[i]); if (a != b) { want = a < b ? -1 : 1; break; } if (!a) break; }
  r = vl_string_casei_cmp(p, q); mc_op(); mc_note("casei '%s' '%s'", s, t);
  MC_CHECK("casei", sgn(r) == want, "casei_cmp('%s','%s') = %d, expected sign %d", s, t, r, want);
  MC_CHECK("casei", sgn(vl_string_casei_cmp(q, p)) == -want, "casei_cmp is not antisymmetric");
  mc_state(mc_mix(strlen(s), want)); mc_gfree(p); mc_gfree(q);
}
static void casechars(void) { int a = mc_choose(256), b; for (b = 0; b < 256; ++b) { char s[2] = {(char)a, 0}, t[2] = {(char)b, 0}; int r = vl_string_casei_cmp(s, t); mc_op(); mc_case(1); MC_CHECK("casei", sgn(r) == sgn(tolower(a) - tolower(b)), "casei_cmp of bytes %d and %d: %d", a, b, r); mc_state(mc_mix(a, r)); } }
static const char *heads[] = {"", "a", "ascii", "asci", "asciix", "ASCII", "b", "bi", "bin", "binx", "binary", "binar", "binaryx", "x", "ascii:", "ascii/", ":", "bin:/"};
static void protocol(void) {
  char s[64]; int h = mc_choose(MC_LEN(heads)), i, n, want, rest, prot = -99; char *f, *p, *r;
  static const char *seps[] = {"", ":", "://", ":/", "//", ":///", "://://", "://bin://"};
  strcpy(s, heads[h]); strcat(s, seps[mc_choose(8)]); n = mc_choose(4); for (i = 0; i < n; ++i) { char c[2] = {":/ab"[mc_choose(4)], 0}; strcat(s, c); }
  mc_note("protocol '%s'", s);
  f = strstr(s, "://"); rest = f ? (int)(f - s) + 3 : 0;
  if (!f) want = VL_PROT_NONE; else { int L = f - s; want = (L == 5 && !memcmp(s, "ascii", 5)) ? VL_PROT_ASCII : ((L == 3 && !memcmp(s, "bin", 3)) || (L == 6 && !memcmp(s, "binary", 6))) ? VL_PROT_BINARY : VL_PROT_UNKNOWN; }
  p = mc_galloc(strlen(s)+1); strcpy(p, s);
  r = vl_string_parse_protocol(p, &prot); mc_op();
  MC_CHECK("protocol", prot == want, "'%s': protocol %d, expected %d", s, prot, want);
  MC_CHECK("rest", r == p + rest, "'%s': rest at %d, expected %d", s, (int)(r-p), rest);
  MC_CHECK("rest", vl_string_parse_protocol(p, 0) == r, "'%s': without a protocol pointer the rest differs", s);
  MC_CHECK("const", !strcmp(p, s), "the string was modified");
  { const char *nm = vl_string_protocol_name(prot); MC_CHECK("name", nm, "no protocol name for %d", prot);
    MC_CHECK("name", !strcmp(nm, want == VL_PROT_ASCII ? "ascii" : want == VL_PROT_BINARY ? "bin" : ""), "name of protocol %d is '%s'", prot, nm);
    /* a named protocol, used as prefix, parses back to itself */
    if (want > 0) { char b[64]; int p2; snprintf(b, 64, "%s://%s", nm, r); vl_string_parse_protocol(b, &p2); MC_CHECK("name", p2 == want, "'%s' does not parse back", b); } }
  mc_state(mc_mix(want, rest)); mc_gfree(p);
}
static void enums(void) {
  /* all enumerations of up to 4 members over 5 names and 3 values, looked up by every name and value */
  static const char *nm[] = {"a", "A", "ab", "B", ""}; int n = mc_choose(MC_BOUND(3, 4, 5)), i, k; VlEnumerator *e = mc_galloc(sizeof(*e) * (n+1));
  for (i = 0; i < n; ++i) { e[i].name = nm[mc_choose(5)]; e[i].value = mc_choose(3) - 1; }
  e[n].name = 0; e[n].value = 0;
  for (k = 0; k < 5; ++k) { VlEnumerator *w = 0, *c = 0; for (i = n-1; i >= 0; --i) { if (!strcmp(e[i].name, nm[k])) w = &e[i]; if (!strcasecmp(e[i].name, nm[k])) c = &e[i]; }
    mc_ops(2); mc_case(1);
    MC_CHECK("enum", vl_enumeration_get(e, nm[k]) == w, "lookup of '%s' among %d members", nm[k], n);
    MC_CHECK("enum", vl_enumeration_get_casei(e, nm[k]) == c, "case-insensitive lookup of '%s' among %d members", nm[k], n); mc_state(mc_mix(w ? w - e : -1, c ? c - e : -1)); }
  for (k = -2; k <= 2; ++k) { VlEnumerator *w = 0; for (i = n-1; i >= 0; --i) if (e[i].value == k) w = &e[i]; mc_op(); MC_CHECK("enum", vl_enumeration_get_by_value(e, k) == w, "lookup of value %d among %d members", k, n); }
  mc_gfree(e);
}
/* long strings: results longer than usual fixed buffers */
static void longs(void) {
  int L = (int[]){255, 256, 257, 1023, 1024, 1025, 4095, 4096, 5000, 70000}[mc_choose(10)], fn = mc_choose(4), i; vl_size n; char *p = mc_galloc(L+1), *full, *dst; vl_size r, F;
  for (i = 0; i < L; ++i) p[i] = 'a' + i % 23; p[L] = 0; if (fn == 2) p[L/2] = '/'; if (fn == 3) p[L/2] = '*';
  F = fn == 2 ? L - L/2 - 1 : fn == 3 ? L - 1 + 300 : L; full = mc_galloc(F+1);
  { char rep[301]; memset(rep, 'R', 300); rep[300] = 0;
    if (fn < 2) memcpy(full, p, L+1); else if (fn == 2) strcpy(full, p + L/2 + 1); else { memcpy(full, p, L/2); memcpy(full+L/2, rep, 300); strcpy(full+L/2+300, p+L/2+1); }
    for (i = 0; i < 5; ++i) { n = F + 2 - i; if (i == 4) n = F/2; dst = mc_galloc(n);
      r = fn == 0 ? vl_string_copy(dst, n, p) : fn == 1 ? vl_string_copy_sub(dst, n, p, p+L) : fn == 2 ? vl_string_basename(dst, n, p, 0) : vl_string_replace_wildcard(dst, n, p, '*', 0, rep); mc_op(); mc_case(1);
      MC_CHECK("length", r == F, "function %d on %d characters returned %d", fn, L, (int)r);
      MC_CHECK("prefix", strlen(dst) == (n-1 < F ? n-1 : F) && !memcmp(dst, full, strlen(dst)), "function %d on %d characters, buffer %d: wrong contents", fn, L, (int)n); mc_state(mc_mix(r, n)); mc_gfree(dst); } }
  mc_gfree(p); mc_gfree(full);
}
mc_suite mc_suites[] = {
  {"copy", copy, "all strings over 3 characters up to length 4/6/7 x every buffer size", 0},
  {"copy_sub", copysub, "all strings over 2 characters up to 4/5/6 x all begin/end (also beyond the terminator) x every buffer size", 0},
  {"basename", basename_, "all strings over {a . / \\\\} up to 5/7/9 x 0..3 extensions x every buffer size", 0},
  {"wildcard", wildcard, "all strings over {* \\\\ a} up to 5/7/8 x 6 replacements x escape on/off x every buffer size", 0},
  {"find-rev", findrev, "all strings over 3 characters x all ranges x all characters", 0},
  {"casei", casei, "all pairs of strings over 4 characters up to 3/4/5", MC_SHARD6},
  {"casei-bytes", casechars, "all pairs of bytes", 0},
  {"protocol", protocol, "18 heads x 8 separators x all tails over {: / a b} up to 3", 0},
  {"enumeration", enums, "all enumerations up to 2/3/4 members over 5 names and 3 values x all lookups", 0},
  {"long", longs, "10 lengths up to 70000 x 4 functions x 5 buffer sizes around the limit", 0},
  {0}};
