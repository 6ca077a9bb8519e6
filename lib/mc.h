/* mc.h - a small stateless model checker for C code.
 *
 * A driver gives a list of suites.  A suite's body is run once for every
 * sequence of answers of mc_choose()/mc_dev(): the explorer enumerates all of
 * them by depth-first search (exhaustively, in bounded space), distributing
 * the subtrees over forked workers.  Every execution runs the real library
 * code and compares it with a reference; mc_fail() reports a violation, and
 * crashes, sanitizer reports and hangs of the code under test are violations
 * too.  A violation is confirmed by a replay in a fresh process.
 */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

typedef struct {
  const char *name;         /* suite name */
  void (*body)(void);       /* one execution */
  const char *bound;        /* description of the bound: goes to the evidence */
  int flags;                /* MC_* below */
  int dev_quick, dev_thorough; /* bound on the number of deviations (mc_dev answers != 0) */
} mc_suite;
#define MC_NOASAN 1         /* not run in the sanitizer build */
#define MC_ASANONLY 2
#define MC_THOROUGH 4       /* only in the thorough tier */
#define MC_SERIAL 8         /* one worker */
#define MC_SHARD6 32
#define MC_SHARD1 16        /* shard on the first choice only */

extern mc_suite mc_suites[];  /* ended by name==NULL; given by the driver */

extern int mc_thorough;     /* tier */
extern int mc_asan;         /* sanitizer build */
extern int mc_verbose;      /* replaying or sampling: notes are recorded */
extern uint64_t mc_seed;

int  mc_choose(int n);                  /* 0..n-1, all enumerated */
int  mc_dev(int n);                     /* 0 is the default; others cost one deviation */
void mc_skip(void) __attribute__((noreturn)); /* abandon: not a case of the suite (not counted) */
void mc_op(void);                       /* one operation applied to the implementation */
void mc_ops(long n);
void mc_case(long n);                   /* n further cases compared inside this execution */
void mc_state(uint64_t h);              /* fingerprint of an observed state */
void mc_note_(const char *fmt, ...) __attribute__((format(printf,1,2)));
#define mc_note(...) do { if (mc_verbose) mc_note_(__VA_ARGS__); } while (0)
void mc_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
#define MC_CHECK(key, cond, ...) do { if (!(cond)) mc_fail(key, __VA_ARGS__); } while (0)
/* do not exceed this bound unless thorough */
#define MC_TIER(q,t) (mc_thorough ? (t) : (q))
/* smaller bound in the sanitizer build */
#define MC_BOUND(a,q,t) (mc_asan ? (mc_thorough ? (q) : (a)) : (mc_thorough ? (t) : (q)))

/* hashing */
static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
uint64_t mc_hash(uint64_t h, const void *p, size_t n);

/* allocation environment (malloc & co are wrapped at link time) */
extern int mc_fill;                     /* byte with which fresh memory is filled; -1: counter pattern */
extern long mc_live;                    /* live blocks */
extern long mc_allocs;                  /* allocations so far */
extern size_t mc_alloc_max;            /* malloc refuses more than this many bytes (0: no limit) */
extern long mc_fail_at;                 /* fail the allocation with this index (0: none) */
/* comparison */
static inline int mc_close(double a, double b, double atol, double rtol) {
  if (a == b) return 1;
  if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
  if (isinf(a) || isinf(b)) return 0;
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
  return fabs(a - b) <= atol + rtol * m;
}
/* deterministic small generator for structured big inputs (not for case selection) */
static inline uint32_t mc_lcg(uint32_t *s) { *s = *s * 1664525u + 1013904223u; return *s >> 8; }
#define MC_LEN(a) ((int)(sizeof(a)/sizeof((a)[0])))

/* a guarded buffer: an exact-size heap block so that ASan sees overruns; in the
 * plain build canaries are put around and checked by mc_gfree */
void *mc_galloc(size_t n);
void mc_gfree(void *p);   /* fails the execution if the canaries were touched */
void mc_gcheck(void *p);
#endif
