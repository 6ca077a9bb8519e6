/* C01: heap template against a multiset reference, on all operation histories. */
#include "mc.h"
#include <vl/generic.h>

/* instance 1: plain int array, default comparison and swap */
#define VL_HEAP_prefix ih
#define VL_HEAP_type int
#include <vl/heap-def.h>
/* instance 2: double array (differences smaller than one) */
#define VL_HEAP_prefix dh
#define VL_HEAP_type double
#include <vl/heap-def.h>
/* instance 3: structure with a position map kept by the swap */
typedef struct { int key[64]; int id[64]; int where[64]; long swaps; } H;
static int hc(H const *h, vl_uindex a, vl_uindex b) { return h->key[a] - h->key[b]; }
static void hs(H *h, vl_uindex a, vl_uindex b) {
  int t = h->key[a]; h->key[a] = h->key[b]; h->key[b] = t;
  t = h->id[a]; h->id[a] = h->id[b]; h->id[b] = t;
  h->where[h->id[a]] = a; h->where[h->id[b]] = b; h->swaps++;
}
#define VL_HEAP_prefix hh
#define VL_HEAP_array H*
#define VL_HEAP_array_const H const*
#define VL_HEAP_cmp hc
#define VL_HEAP_swap hs
#include <vl/heap-def.h>
/* instance 4: array of structures, custom comparison returning a float */
typedef struct { float k; int tag; } E;
static float ec(E const *e, vl_uindex a, vl_uindex b) { return e[a].k - e[b].k; }
#define VL_HEAP_prefix eh
#define VL_HEAP_type E
#define VL_HEAP_cmp ec
#include <vl/heap-def.h>

#define GUARD 0x5eadbee
/* all histories of push/pop/update, position map instance */
static void ops(void) {
  static H h; int depth = MC_BOUND(6, 7, 8), nk = 3, cap = 6, d, i, next = 0;
  int key_of[64]; char in[64] = {0}; vl_size n = 0; uint64_t f = 0;
  memset(&h, 0, sizeof h);
  for (i = 0; i < 64; ++i) { h.key[i] = GUARD; h.id[i] = 63; }
  for (d = 0; d < depth; ++d) {
    int no = (n < (vl_size)cap ? nk : 0) + (n > 0 ? 1 : 0) + (int)n * nk;
    int c = mc_choose(no);
    if (n < (vl_size)cap) {
      if (c < nk) {
        vl_size before = n; int id = next++;
        mc_note("push %d; ", c);
        h.key[n] = c; h.id[n] = id; h.where[id] = n; key_of[id] = c; in[id] = 1;
        mc_op(); hh_push(&h, &n);
        MC_CHECK("size", n == before + 1, "push changed the size from %d to %d", (int)before, (int)n);
        goto check;
      }
      c -= nk;
    }
    if (c == 0) {
      int least = 1 << 30, id; vl_size before = n; vl_uindex r;
      mc_note("pop; ");
      for (i = 0; i < next; ++i) if (in[i] && key_of[i] < least) least = key_of[i];
      mc_op(); r = hh_pop(&h, &n);
      MC_CHECK("size", n == before - 1 && r == n, "pop: size %d -> %d, returned index %d", (int)before, (int)n, (int)r);
      id = h.id[r];
      MC_CHECK("lost", id < next && in[id], "pop returned an element that was not in the heap");
      MC_CHECK("order", h.key[r] == least, "pop returned key %d, least stored key is %d", h.key[r], least);
      MC_CHECK("key", h.key[r] == key_of[id], "popped element has another key than the one stored");
      in[id] = 0;
    } else {
      int j = (c-1) / nk, k = (c-1) % nk, id = h.id[j], idx = -1;
      mc_note("update slot %d to %d; ", j, k);
      idx = h.where[id];
      MC_CHECK("map", idx == j, "position map says element %d is at %d, it is at %d", id, idx, j);
      h.key[j] = k; key_of[id] = k;
      mc_op(); hh_update(&h, n, j);
    }
check:
    { int cnt = 0, least = 1 << 30;
      for (i = 0; i < next; ++i) if (in[i]) {
        int w = h.where[i];
        MC_CHECK("map", w >= 0 && w < (int)n && h.id[w] == i && h.key[w] == key_of[i], "element %d: mapped at %d, there is element %d with key %d (expected %d)", i, w, h.id[w], h.key[w], key_of[i]);
        ++cnt; if (key_of[i] < least) least = key_of[i];
      }
      MC_CHECK("lost", cnt == (int)n, "%d elements expected, size is %d", cnt, (int)n);
      if (n) MC_CHECK("order", h.key[0] == least, "the front has key %d, least is %d", h.key[0], least);
      f = n; for (i = 0; i < (int)n; ++i) f = mc_mix(f, h.key[i]); mc_state(f);
      for (i = next; i < 64; ++i) MC_CHECK("oob", h.key[i] == GUARD, "slot %d beyond the heap was changed", i);
    }
  }
  /* drain: everything comes out in order */
  { int last = -1; while (n) { vl_uindex r = hh_pop(&h, &n); mc_op(); MC_CHECK("order", h.key[r] >= last, "draining: %d after %d", h.key[r], last); last = h.key[r]; MC_CHECK("lost", in[h.id[r]], "drained an element twice"); in[h.id[r]] = 0; } }
  for (i = 0; i < next; ++i) MC_CHECK("lost", !in[i], "element %d never came out", i);
}

/* all arrays: heap sort through each instance */
static void sortall(void) {
  int inst = mc_choose(3), alpha, n, i, a[16], last, cnt[8] = {0}; vl_size m = 0;
  n = 1 + mc_choose(MC_BOUND(8, 11, 12)); alpha = n <= 6 ? 5 : n <= 9 ? 3 : 2;
  for (i = 0; i < n; ++i) { a[i] = mc_choose(alpha); cnt[a[i]]++; }
  mc_note("instance %d sort", inst); for (i = 0; i < n; ++i) mc_note(" %d", a[i]);
  { int *x = mc_galloc(sizeof(int)*n); double *y = mc_galloc(sizeof(double)*n); E *z = mc_galloc(sizeof(E)*n);
    for (i = 0; i < n; ++i) { x[i] = a[i] - 1; y[i] = a[i] * 0.25; z[i].k = a[i] * .3f; z[i].tag = a[i]; }
    for (i = 0; i < n; ++i) { mc_op(); if (inst == 0) ih_push(x, &m); else if (inst == 1) dh_push(y, &m); else eh_push(z, &m);
      MC_CHECK("size", m == (vl_size)i+1, "size %d after %d pushes", (int)m, i+1); }
    last = -1;
    for (i = 0; i < n; ++i) { vl_uindex r; int v;
      mc_op(); r = inst == 0 ? ih_pop(x, &m) : inst == 1 ? dh_pop(y, &m) : eh_pop(z, &m);
      MC_CHECK("size", r == m && m == (vl_size)(n-1-i), "pop returned index %d, size %d", (int)r, (int)m);
      v = inst == 0 ? x[r] + 1 : inst == 1 ? (int)lrint(y[r]*4) : z[r].tag;
      MC_CHECK("order", v >= last, "popped %d after %d", v, last); last = v;
      MC_CHECK("lost", v >= 0 && v < alpha && cnt[v]-- > 0, "popped a value that was not stored");
      mc_state(mc_mix(mc_mix(v, m), inst)); }
    /* all popped elements are still in the array, in decreasing order (heap sort) */
    for (i = 0; i + 1 < n; ++i) { int u = inst == 0 ? x[i]+1 : inst == 1 ? (int)lrint(y[i]*4) : z[i].tag, v = inst == 0 ? x[i+1]+1 : inst == 1 ? (int)lrint(y[i+1]*4) : z[i+1].tag; MC_CHECK("order", u >= v, "array after the pops is not in decreasing order"); }
    mc_gfree(x); mc_gfree(y); mc_gfree(z); }
}

/* every heap-ordered array of larger sizes, one update anywhere to any key, then drain */
static void update1(void) {
  int sizes[] = {3, 5, 6, 7, 8, 10, 11, 12, 13, 15, 16}, ns = MC_BOUND(7, 10, 11), n = sizes[mc_choose(ns)], alpha = n <= 7 ? 3 : 2, i, j, k, last;
  static H h; vl_size m; int key[20]; char out[20];
  H start; memset(&h, 0, sizeof h);
  /* build by direct choice of a heap-ordered array: any state satisfying the invariant is a start state */
  for (i = 0; i < n; ++i) { int lo = i ? h.key[(i-1)/2] : 0; h.key[i] = 2*(lo/2 + mc_choose(alpha - lo/2)); h.id[i] = i; h.where[i] = i; }
  start = h;
  for (j = 0; j < n; ++j) for (k = -1; k <= 2*alpha-1; ++k) {
    h = start; m = n; for (i = 0; i < n; ++i) { key[i] = h.key[i]; out[i] = 0; }
    h.key[j] = k; key[j] = k;
    mc_op(); hh_update(&h, m, j);
    mc_case(1);
    for (i = 0; i < n; ++i) MC_CHECK("map", h.id[h.where[i]] == i && h.key[h.where[i]] == key[i], "n=%d update slot %d to %d: element %d lost its key or place", n, j, k, i);
    last = -100;
    while (m) { vl_uindex r; mc_op(); r = hh_pop(&h, &m);
      MC_CHECK("order", h.key[r] >= last, "n=%d update slot %d to %d: popped %d after %d", n, j, k, h.key[r], last);
      last = h.key[r]; MC_CHECK("lost", !out[h.id[r]], "popped twice"); out[h.id[r]] = 1; }
    mc_state(mc_mix(mc_mix(h.swaps, j), k));
  }
}

/* two updates in a row at two places (each alone may look right), struct-less instance */
static void update2(void) {
  int n = 4 + mc_choose(MC_BOUND(6, 9, 11)), i, a, b, ka, kb; int x[16], y[16], last; vl_size m;
  for (i = 0; i < n; ++i) { int lo = i ? x[(i-1)/2] : 0; x[i] = lo + mc_choose(2) * 2; if (x[i] > 4) mc_skip(); }
  for (a = 0; a < n; ++a) for (ka = -1; ka <= 5; ka += 2) for (b = 0; b < n; ++b) for (kb = -1; kb <= 5; kb += 3) {
    long sum = 0, sum2 = 0; memcpy(y, x, sizeof x); m = n;
    y[a] = ka; ih_update(y, m, a); y[b] = kb; ih_update(y, m, b); mc_ops(2); mc_case(1);
    for (i = 0; i < n; ++i) { sum += y[i] * y[i] * y[i] + 7 * y[i]; }
    last = -100;
    while (m) { vl_uindex r = ih_pop(y, &m); MC_CHECK("order", y[r] >= last, "n=%d update %d:=%d then %d:=%d: popped %d after %d", n, a, ka, b, kb, y[r], last); last = y[r]; sum2 += y[r]*y[r]*y[r] + 7*y[r]; }
    MC_CHECK("lost", sum == sum2, "elements changed while popping");
    mc_state(mc_mix(sum, last));
  }
}
mc_suite mc_suites[] = {
  {"histories", ops, "all push/pop/update histories to depth 6 (asan) / 7 / 8, 3 keys, up to 6 elements, position-mapped structure", 0},
  {"heapsort", sortall, "all arrays up to length 8/11/12 over 2..5 keys, three instantiations (int, double, struct with float comparison)", 0},
  {"update1", update1, "all heap-ordered arrays of sizes 3..15 over 2..3 keys x every slot x every new key, then drained", 0},
  {"update2", update2, "all heap-ordered arrays up to size 12 over 3 keys x every pair of updates", 0},
  {0}};
