/* C02: quicksort template, shuffle template, index permutation. */
#include "mc.h"
#include <vl/generic.h>
#include <vl/random.h>
#define VL_QSORT_prefix iq
#define VL_QSORT_type int
#include <vl/qsort-def.h>
#undef VL_QSORT_array_const
#define VL_QSORT_prefix dq
#define VL_QSORT_type double
#include <vl/qsort-def.h>
#undef VL_QSORT_array_const
typedef struct { int key[40], id[40]; } T;
static int tc(T const *t, vl_uindex a, vl_uindex b) { return t->key[b] - t->key[a]; }  /* decreasing order */
static void ts(T *t, vl_uindex a, vl_uindex b) { int x = t->key[a]; t->key[a] = t->key[b]; t->key[b] = x; x = t->id[a]; t->id[a] = t->id[b]; t->id[b] = x; }
#define VL_QSORT_prefix tq
#define VL_QSORT_array T*
#define VL_QSORT_array_const T const*
#define VL_QSORT_cmp tc
#define VL_QSORT_swap ts
#include <vl/qsort-def.h>
#define VL_SHUFFLE_prefix is
#define VL_SHUFFLE_type int
#include <vl/shuffle-def.h>

static void sort_arrays(int n, const int *a) {
  int i, cnt[64] = {0}, c2[64] = {0}, c3[64] = {0}; int *x = mc_galloc(sizeof(int)*n); double *y = mc_galloc(sizeof(double)*n); static T t; char seen[64] = {0};
  for (i = 0; i < n; ++i) { x[i] = a[i] - 2; y[i] = a[i] * 0.125 - 0.3; t.key[i] = a[i]; t.id[i] = i; cnt[a[i]]++; c2[a[i]]++; c3[a[i]]++; }
  t.key[n] = t.id[n] = 7777;
  iq_sort(x, n); dq_sort(y, n); tq_sort(&t, n); mc_ops(3);
  for (i = 0; i < n; ++i) {
    int v = x[i] + 2, w = (int)lrint((y[i] + 0.3) * 8);
    if (i) { MC_CHECK("order", x[i-1] <= x[i], "int array not sorted at %d", i); MC_CHECK("order", y[i-1] <= y[i], "double array not sorted at %d", i); MC_CHECK("order", t.key[i-1] >= t.key[i], "custom comparison: not in its order at %d", i); }
    MC_CHECK("perm", v >= 0 && v < 64 && cnt[v]-- > 0, "int array is not a permutation of the input");
    MC_CHECK("perm", w >= 0 && w < 64 && c2[w]-- > 0, "double array is not a permutation of the input");
    MC_CHECK("perm", t.id[i] >= 0 && t.id[i] < n && !seen[t.id[i]] && a[t.id[i]] == t.key[i], "struct array is not a permutation of the input");
    seen[t.id[i]] = 1; mc_state(mc_mix(mc_mix(t.id[i], i), n));
  }
  MC_CHECK("oob", t.key[n] == 7777 && t.id[n] == 7777, "element beyond the end was changed");
  mc_gfree(x); mc_gfree(y);
}
static void all(void) {
  int n = 1 + mc_choose(MC_BOUND(8, 10, 11)), alpha = n <= 6 ? 5 : n <= 7 ? 4 : n <= 9 ? 3 : 2, i, a[16];
  for (i = 0; i < n; ++i) a[i] = mc_choose(alpha);
  mc_note("sort"); for (i = 0; i < n; ++i) mc_note(" %d", a[i]);
  sort_arrays(n, a);
}
static void perms(void) {
  int n = 1 + mc_choose(MC_BOUND(7, 9, 10)), i, j, a[16], left[16], m;
  for (i = 0; i < n; ++i) left[i] = i; m = n;
  for (i = 0; i < n; ++i) { int k = mc_choose(m); a[i] = left[k]; for (j = k; j+1 < m; ++j) left[j] = left[j+1]; --m; }
  mc_note("sort"); for (i = 0; i < n; ++i) mc_note(" %d", a[i]);
  sort_arrays(n, a);
}
/* structured longer arrays with up to two deviations from a shape */
static void shapes(void) {
  int n = 10 + mc_choose(MC_BOUND(8, 23, 27)), shape = mc_choose(7), i, a[40];
  for (i = 0; i < n; ++i) switch (shape) {
    case 0: a[i] = i; break; case 1: a[i] = n-1-i; break; case 2: a[i] = i < n/2 ? i : n-1-i; break;
    case 3: a[i] = 5; break; case 4: a[i] = i % 3; break; case 5: a[i] = i & 1 ? n-i : i; break; default: a[i] = i < n/2 ? n/2-i : i-n/2; }
  { int p = mc_choose(n+1), q = mc_choose(n+1); if (q < p) mc_skip();
    if (p < n) a[p] = 0; if (q < n && q != p) a[q] = 39; }
  mc_note("shape %d n %d", shape, n);
  sort_arrays(n, a);
}
/* ---- shuffles: drive the generator's outputs directly through its public state */
static vl_uint32 untemper(vl_uint32 y) {
  vl_uint32 x; int i;
  x = y ^ (y >> 18);
  x ^= (x << 15) & 0xefc60000u;
  { vl_uint32 r = x; for (i = 0; i < 5; ++i) r = x ^ ((r << 7) & 0x9d2c5680u); x = r; }
  { vl_uint32 r = x; for (i = 0; i < 3; ++i) r = x ^ (r >> 11); x = r; }
  return x;
}
static void force(VlRand *r, const vl_uint32 *v, int n) { int i; memset(r, 0, sizeof *r); for (i = 0; i < n; ++i) r->mt[i] = untemper(v[i]); r->mti = 0; }
/* Over one full cycle of equally likely draws modulo lcm, every permutation must appear equally often.
   Draws range over 0..L-1 per position with L = lcm(1..n): each residue is equally represented. */
static void uniform(void) {
  int which = mc_choose(2), n = mc_choose(6), L = n <= 1 ? 1 : n == 2 ? 2 : n == 3 ? 6 : n == 4 ? 12 : 60, nd = n > 1 ? n-1 : 0, i, k;
  long total = 1, c; static long count[3200]; VlRand r; long fact = 1, code; vl_uint32 v[8];
  if (n == 5 && !mc_thorough) L = 60;
  for (i = 2; i <= n; ++i) fact *= i;
  for (i = 0; i < nd; ++i) total *= L;
  memset(count, 0, sizeof count);
  for (c = 0; c < total; ++c) {
    long cc = c; int a[8]; vl_index b[8]; char seen[8] = {0};
    if (n == 5 && (c % (mc_asan ? 4001 : 7)) && !mc_thorough) { /* n=5: the permutation property on a stride, not the frequencies */ continue; }
    for (i = 0; i < nd; ++i) { v[i] = cc % L; cc /= L; }
    for (; i < 8; ++i) v[i] = 0;
    force(&r, v, 8);
    for (i = 0; i < 8; ++i) { a[i] = i < n ? i : 99; b[i] = i < n ? i : 99; }
    if (which == 0) is_shuffle(a, n, &r); else vl_rand_permute_indexes(&r, b, n);
    mc_op(); code = 0;
    for (i = 0; i < n; ++i) { int x = which == 0 ? a[i] : (int)b[i]; MC_CHECK("perm", x >= 0 && x < n && !seen[x], "%s n=%d: not a permutation", which ? "vl_rand_permute_indexes" : "shuffle", n); seen[x] = 1; code = code * n + x; }
    for (i = n; i < 8; ++i) MC_CHECK("oob", which == 0 ? a[i] == 99 : b[i] == 99, "touched element %d of an array of %d", i, n);
    if (n <= 5) { /* rank of the permutation */ long rank = 0; for (i = 0; i < n; ++i) { int s = 0; for (k = i+1; k < n; ++k) s += (which ? b[k] < b[i] : a[k] < a[i]); rank = rank * (n-i) + s; } count[rank]++; }
    mc_case(1); mc_state(mc_mix(mc_mix(code, n), which));
  }
  if (n < 5 || mc_thorough) for (i = 0; i < fact; ++i) MC_CHECK("uniform", count[i] * fact == total, "%s n=%d: over all equally likely draws permutation %d comes up %ld times of %ld", which ? "vl_rand_permute_indexes" : "shuffle", n, i, count[i], total);
}
static void reproducible(void) {
  int n = mc_choose(40), s = mc_choose(6), i; VlRand r1, r2; int a[64], b[64]; vl_index c[64], d[64]; char seen[64] = {0}, seen2[64] = {0};
  vl_rand_init(&r1); vl_rand_init(&r2); if (s) { vl_rand_seed(&r1, s*77777); vl_rand_seed(&r2, s*77777); }
  for (i = 0; i < 64; ++i) { a[i] = b[i] = i; c[i] = d[i] = i; }
  is_shuffle(a, n, &r1); vl_rand_permute_indexes(&r1, c, n); is_shuffle(b, n, &r2); vl_rand_permute_indexes(&r2, d, n); mc_ops(4);
  for (i = 0; i < 64; ++i) { MC_CHECK("repro", a[i] == b[i] && c[i] == d[i], "same state, different shuffle");
    if (i >= n) MC_CHECK("oob", a[i] == i && c[i] == i, "element beyond the range moved");
    else { MC_CHECK("perm", a[i] < n && !seen[a[i]]++, "shuffle is not a permutation"); MC_CHECK("perm", c[i] >= 0 && c[i] < n && !seen2[c[i]]++, "vl_rand_permute_indexes is not a permutation"); } mc_state(mc_mix(mc_mix(a[i], c[i]), n)); }
}
mc_suite mc_suites[] = {
  {"arrays", all, "all arrays up to length 8/10/11 over 2..5 values; int, double and custom-order struct instances", 0},
  {"permutations", perms, "all permutations up to length 7/9/10", 0},
  {"shapes", shapes, "7 shapes x lengths 10..36 x every pair of deviating positions", 0},
  {"draws", uniform, "all draw sequences over one common period for sizes 0..4 (5: every 7th; thorough: all)", 0},
  {"repro", reproducible, "sizes 0..39 x 6 generator states", 0},
  {0}};
