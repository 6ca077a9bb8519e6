/* C03: MT19937 conformance and independence, on all interleavings of operations on two generators. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/random.h>
/* reference: textbook MT19937, written independently with explicit modular arithmetic */
typedef struct { uint32_t s[624]; int i; int seeded; } R;
static void r_seed(R *r, uint32_t s) { int i; r->s[0] = s; for (i = 1; i < 624; ++i) r->s[i] = 1812433253u * (r->s[i-1] ^ (r->s[i-1] >> 30)) + (uint32_t)i; r->i = 624; r->seeded = 1; }
static void r_array(R *r, const uint32_t *k, int n) {
  int i = 1, j = 0, c; r_seed(r, 19650218u);
  for (c = n > 624 ? n : 624; c; --c) { r->s[i] = (r->s[i] ^ ((r->s[i-1] ^ (r->s[i-1] >> 30)) * 1664525u)) + k[j] + (uint32_t)j; if (++i == 624) { r->s[0] = r->s[623]; i = 1; } if (++j == n) j = 0; }
  for (c = 623; c; --c) { r->s[i] = (r->s[i] ^ ((r->s[i-1] ^ (r->s[i-1] >> 30)) * 1566083941u)) - (uint32_t)i; if (++i == 624) { r->s[0] = r->s[623]; i = 1; } }
  r->s[0] = 0x80000000u;
}
static uint32_t r_draw(R *r) {
  int k; uint32_t y;
  if (!r->seeded) r_seed(r, 5489u);
  if (r->i >= 624) { for (k = 0; k < 624; ++k) { y = (r->s[k] & 0x80000000u) | (r->s[(k+1) % 624] & 0x7fffffffu); r->s[k] = r->s[(k+397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } r->i = 0; }
  y = r->s[r->i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y;
}
static const uint32_t seeds[] = {0, 1, 5489, 0x7fffffffu, 0x80000000u, 0xffffffffu, 19650218u, 123456789u};
static uint32_t keybuf[1300];
static const int keylens[] = {1, 4, 2, 623, 624, 625, 1248, 1300};

#define NDRAW 10
static void draw(VlRand *g, R *r, int kind, const char *who) {
  uint32_t a, b; mc_op();
  switch (kind) {
    case 0: { uint32_t v = vl_rand_uint32(g); a = r_draw(r); MC_CHECK("uint32", v == a, "%s: uint32 gave %u, MT19937 gives %u", who, v, a); mc_state(v); break; }
    case 1: { int32_t v = vl_rand_int31(g); a = r_draw(r); MC_CHECK("int31", v >= 0 && v == (int32_t)(a >> 1), "%s: int31 gave %d", who, v); break; }
    case 2: { vl_uint64 v = vl_rand_uint64(g); a = r_draw(r); b = r_draw(r); MC_CHECK("uint64", v == (((uint64_t)a << 32) | b), "%s: uint64 gave %llx expected %x%08x", who, (unsigned long long)v, a, b); break; }
    case 3: { vl_int64 v = vl_rand_int63(g); a = r_draw(r); b = r_draw(r); MC_CHECK("int63", v >= 0 && (uint64_t)v == ((((uint64_t)a << 32) | b) >> 1), "%s: int63 gave %lld", who, (long long)v); break; }
    case 4: { double v = vl_rand_real1(g); a = r_draw(r); MC_CHECK("real1", v >= 0 && v <= 1 && mc_close(v, a / 4294967295.0, 1e-16, 1e-15), "%s: real1 gave %.17g", who, v); break; }
    case 5: { double v = vl_rand_real2(g); a = r_draw(r); MC_CHECK("real2", v >= 0 && v < 1 && v == a / 4294967296.0, "%s: real2 gave %.17g", who, v); break; }
    case 6: { double v = vl_rand_real3(g); a = r_draw(r); MC_CHECK("real3", v > 0 && v < 1 && v == (a + 0.5) / 4294967296.0, "%s: real3 gave %.17g", who, v); break; }
    case 7: { double v = vl_rand_res53(g); a = r_draw(r) >> 5; b = r_draw(r) >> 6; MC_CHECK("res53", v >= 0 && v < 1 && v == (a * 67108864.0 + b) / 9007199254740992.0, "%s: res53 gave %.17g", who, v); break; }
    case 8: { vl_uindex v = vl_rand_uindex(g, 10); a = r_draw(r); MC_CHECK("uindex", v == a % 10u, "%s: uindex(10) gave %llu expected %u", who, (unsigned long long)v, a % 10u); break; }
    case 9: { vl_uindex m = (vl_uindex)1 << 40, v = vl_rand_uindex(g, m + 3); uint64_t w; a = r_draw(r); b = r_draw(r); w = (((uint64_t)a << 32) | b) % (m + 3); MC_CHECK("uindex64", v == w, "%s: uindex(2^40+3) gave %llu expected %llu", who, (unsigned long long)v, (unsigned long long)w); break; }
  }
}
static void init_keys(void) { uint32_t s = 99; int i; for (i = 0; i < 1300; ++i) keybuf[i] = mc_lcg(&s) * 257u; keybuf[0] = 0x123; keybuf[1] = 0x234; keybuf[2] = 0x345; keybuf[3] = 0x456; }

/* all operation histories on two generators */
static void histories(void) {
  static VlRand g[2]; static R r[2]; int depth = MC_BOUND(4, 5, 6), d, i;
  init_keys();
  memset(g, 0xEE, sizeof g); memset(r, 0, sizeof r);
  for (i = 0; i < 2; ++i) { vl_rand_init(&g[i]); mc_op(); }
  for (d = 0; d < depth; ++d) {
    int w = mc_choose(2), op = mc_choose(9); const char *who = w ? "B" : "A"; char lab[40]; snprintf(lab, sizeof lab, "generator %s after %d operations", who, d);
    switch (op) {
      case 0: mc_note("%s.seed(1); ", who); vl_rand_seed(&g[w], 1); r_seed(&r[w], 1); mc_op(); break;
      case 1: mc_note("%s.seed(ffffffff); ", who); vl_rand_seed(&g[w], 0xffffffffu); r_seed(&r[w], 0xffffffffu); mc_op(); break;
      case 2: mc_note("%s.seed_by_array(4); ", who); vl_rand_seed_by_array(&g[w], keybuf, 4); r_array(&r[w], keybuf, 4); mc_op(); break;
      case 3: mc_note("%s.seed_by_array(700); ", who); vl_rand_seed_by_array(&g[w], keybuf, 700); r_array(&r[w], keybuf, 700); mc_op(); break;
      case 4: mc_note("%s.init; ", who); vl_rand_init(&g[w]); r[w].seeded = 0; mc_op(); break;
      case 5: mc_note("%s.draw1; ", who); draw(&g[w], &r[w], 0, lab); break;
      case 6: mc_note("%s.draw each; ", who); for (i = 0; i < NDRAW; ++i) draw(&g[w], &r[w], i, lab); break;
      case 7: mc_note("%s.draw623; ", who); for (i = 0; i < 623; ++i) draw(&g[w], &r[w], 0, lab); break;
      case 8: { int k, n = 5; vl_index p[8]; int q[8]; mc_note("%s.permute; ", who); for (i = 0; i < n; ++i) p[i] = i; vl_rand_permute_indexes(&g[w], p, n); mc_op();
          { char s[8] = {0}; for (i = 0; i < n; ++i) MC_CHECK("perm", p[i] >= 0 && p[i] < n && !s[p[i]]++, "permute_indexes: not a permutation"); }
          (void)q; (void)k;
          /* it consumes some number of draws of this generator only: resynchronise by reading its position */
          { R t = r[w]; int used; for (used = 0; used <= 8; ++used) { VlRand gc = g[w]; R tc = t; if (vl_rand_uint32(&gc) == r_draw(&tc) && vl_rand_uint32(&gc) == r_draw(&tc)) break; r_draw(&t); }
            MC_CHECK("stream", used <= 8, "permute_indexes left a state that is not further along the same stream"); r[w] = t; }
          break; }
    }
  }
  for (i = 0; i < 2; ++i) { int k; for (k = 0; k < 3; ++k) draw(&g[i], &r[i], 0, i ? "B at the end" : "A at the end"); draw(&g[i], &r[i], 7, "end"); }
}
/* long streams for every seed: cross several regenerations */
static void streams(void) {
  int s = mc_choose(8 + MC_LEN(keylens) + 1), pre = mc_choose(4), i; static VlRand g; static R r; init_keys();
  memset(&g, pre == 1 ? 0xFF : 0, sizeof g); memset(&r, 0, sizeof r);
  vl_rand_init(&g);
  if (pre >= 2) { for (i = 0; i < (pre == 2 ? 1 : 700); ++i) vl_rand_uint32(&g); }
  if (s < 8) { vl_rand_seed(&g, seeds[s]); r_seed(&r, seeds[s]); }
  else if (s < 16) { int n = keylens[s-8]; uint32_t *k = mc_galloc(4*n); memcpy(k, keybuf, 4*n); vl_rand_seed_by_array(&g, k, n); r_array(&r, k, n); mc_gfree(k); }
  else { vl_rand_init(&g); }
  mc_op();
  for (i = 0; i < 3000; ++i) { draw(&g, &r, i % 1000 < 500 ? 0 : i % NDRAW, "stream"); mc_case(1); }
}
/* extreme outputs: every variant on extreme words, ranges respected */
static vl_uint32 untemper(vl_uint32 y) { vl_uint32 x = y ^ (y >> 18), q; int i; x ^= (x << 15) & 0xefc60000u; q = x; for (i = 0; i < 5; ++i) q = x ^ ((q << 7) & 0x9d2c5680u); x = q; for (i = 0; i < 3; ++i) q = x ^ (q >> 11); return q; }
static const uint32_t words[] = {0, 1, 31, 32, 63, 64, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0xffffffe0u, 0x12345678u};
static void extremes(void) {
  int a = mc_choose(12), b = mc_choose(12), kind = mc_choose(NDRAW + 1); VlRand g; R r; memset(&g, 0, sizeof g); memset(&r, 0, sizeof r);
  g.mt[0] = untemper(words[a]); g.mt[1] = untemper(words[b]); g.mti = 0;
  memcpy(r.s, g.mt, sizeof r.s); r.i = 0; r.seeded = 1;
  mc_note("words %x %x kind %d", words[a], words[b], kind);
  if (kind < NDRAW) draw(&g, &r, kind, "extreme words");
  else { static const uint64_t R_[] = {1, 2, 3, 255, 256, 65537, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0xffffffffffffffffull}; int i;
    for (i = 0; i < MC_LEN(R_); ++i) { VlRand h = g; vl_uindex v = vl_rand_uindex(&h, R_[i]); uint64_t w = R_[i] <= 0xffffffffull ? words[a] % R_[i] : (((uint64_t)words[a] << 32) | words[b]) % R_[i]; mc_op(); mc_case(1);
      MC_CHECK("uindex", v < R_[i], "uindex(%llu) gave %llu", (unsigned long long)R_[i], (unsigned long long)v);
      MC_CHECK("uindex", v == w, "uindex(%llu) gave %llu expected %llu", (unsigned long long)R_[i], (unsigned long long)v, (unsigned long long)w); mc_state(v); } }
}
/* the per-thread generator of the library is a generator like any other, unseeded at first */
static void threadgen(void) {
  VlRand *g = vl_get_rand(); static R r; int i; memset(&r, 0, sizeof r); int s = mc_choose(3);
  if (s == 0) { if (vl_get_rand() != g) mc_fail("rand", "vl_get_rand changed"); vl_rand_init(g); } else { vl_rand_seed(g, s); r_seed(&r, s); }
  for (i = 0; i < 2000; ++i) draw(g, &r, i % NDRAW, "thread generator");
}
mc_suite mc_suites[] = {
  {"histories", histories, "all histories of 4/5/6 operations from 9 on two generators, then both streams compared", 0},
  {"streams", streams, "17 seeds and key arrays (1..1300 words) x 4 earlier histories x 3000 draws", 0},
  {"extremes", extremes, "all pairs of 12 extreme output words x all variants; 13 ranges", 0},
  {"thread-generator", threadgen, "the library's own generator, 3 seedings x 2000 draws", 0},
  {0}};
