/* C10: per-thread library state and the recursive library lock, under every schedule. */
#include "mc.h"
#include "conc.h"
#include <vl/generic.h>
#include <vl/random.h>
#include <time.h>
/* every call of clock() gives a new time; the thread remembers what it was told */
static long fakeclock; static long told[8];
extern clock_t __real_clock(void);
clock_t __wrap_clock(void) { if (conc_id() < 0) return __real_clock(); conc_point("clock"); fakeclock += 1000 * (conc_id() + 1); told[conc_id()] = fakeclock; return fakeclock; }
/* operations; each thread has a model of its own state */
enum { SETA, SETB, SETNULL, GETERR, GETMSG, RND, SEED, TIC, TOC, KEEP, NOP };
static const char *opname[] = {"set(A)", "set(B)", "set(null)", "error", "message", "rand", "seed", "tic", "toc", "keep"};
static int script[4][4], len, nthreads; static VlRand *ptr[4]; static char *msgp[4];
static void fail_if_bad(int t, int k, int op) { }
static void run(int t) {
  VlRand ref; int err = 0, k; char msg[VL_ERR_MSG_LEN + 10] = ""; long tick = 0; VlRand *mine = 0; char big[3000];
  vl_rand_init(&ref);
  for (k = 0; k < len; ++k) { int op = script[t][k];
    if (conc_id() >= 0) conc_point("op");
    switch (op) {
      case SETA: vl_set_last_error(10 + t, "thread %d op %d", t, k); err = 10 + t; sprintf(msg, "thread %d op %d", t, k); break;
      case SETB: memset(big, 'a' + t, sizeof big); big[sizeof big - 1] = 0; vl_set_last_error(20 + t, "%s", big); err = 20 + t; memset(msg, 'a' + t, VL_ERR_MSG_LEN); msg[VL_ERR_MSG_LEN-1] = 0; break;
      case SETNULL: vl_set_last_error(t, 0); err = t; msg[0] = 0; break;
      case GETERR: { int e = vl_get_last_error(); if (e != err) mc_fail("error", "thread %d, operation %d: last error %d, set by this thread: %d", t, k, e, err); break; }
      case GETMSG: { const char *m = vl_get_last_error_message(); if (strncmp(m, msg, VL_ERR_MSG_LEN-1) || strlen(m) >= VL_ERR_MSG_LEN) mc_fail("message", "thread %d, operation %d: message `%.40s', set by this thread: `%.40s'", t, k, m, msg); break; }
      case RND: { vl_uint32 a = vl_rand_uint32(vl_get_rand()), b = vl_rand_uint32(&ref); if (a != b) mc_fail("rand", "thread %d, operation %d: drew %u, its own sequence has %u", t, k, a, b); break; }
      case SEED: vl_rand_seed(vl_get_rand(), 77 + t); vl_rand_seed(&ref, 77 + t); break;
      case TIC: vl_tic(); tick = told[t]; break;
      case TOC: { double d = vl_toc(), w = (double)(told[t] - tick) / CLOCKS_PER_SEC; if (tick && fabs(d - w) > 1e-9) mc_fail("toc", "thread %d, operation %d: toc gives %g, %g passed since its tic", t, k, d, w); break; }
      case KEEP: { VlRand *r = vl_get_rand(); int i; if (mine && mine != r) mc_fail("stable", "thread %d: its generator moved", t); mine = r; ptr[t] = r; for (i = 0; i < nthreads; ++i) if (i != t && ptr[i] == r) mc_fail("shared", "threads %d and %d were given the same generator", t, i); break; }
    }
    mc_op();
  }
  mc_state(mc_hash(t*100 + err, &ref, 16));
  ptr[t] = 0; /* about to end: its memory may be reused */
}
static void reset(void) { fakeclock = 0; memset(ptr, 0, sizeof ptr); memset(told, 0, sizeof told); conc_at_alloc = 1; conc_at_global = 1; conc_on_alloc = 0; }
static void note(void) { int t, k; for (t = 0; t < nthreads; ++t) { mc_note(" T%d:", t); for (k = 0; k < len; ++k) mc_note(" %s", opname[script[t][k]]); } }
static const int scr[][3] = {{SETA,GETMSG,GETERR},{SETB,SETA,GETMSG},{SETNULL,GETERR,GETMSG},{RND,RND,KEEP},{SEED,RND,RND},{TIC,TOC,TOC},{GETERR,SETB,GETMSG},{KEEP,RND,KEEP},{TIC,SETA,TOC},{SEED,KEEP,RND}};
static void two(void) {
  int a, b, k; long live; reset(); a = mc_choose(10); b = mc_choose(10); nthreads = 2; len = 1 + mc_choose(3);
  for (k = 0; k < 3; ++k) { script[0][k] = scr[a][k]; script[1][k] = scr[b][k]; } note(); live = mc_live;
  conc_run(2, run);
  MC_CHECK("leak", mc_live == live, "%ld blocks of thread state remain after the threads ended", mc_live - live);
}
static void three(void) {
  int a, b, c, k; long live; reset(); a = mc_choose(5); b = a + mc_choose(10 - a); c = b + mc_choose(10 - b); nthreads = 3; len = 1 + mc_choose(MC_TIER(2,3));
  for (k = 0; k < 3; ++k) { script[0][k] = scr[a*2][k]; script[1][k] = scr[b][k]; script[2][k] = scr[c][k]; } note(); live = mc_live;
  conc_run(3, run);
  MC_CHECK("leak", mc_live == live, "%ld blocks of thread state remain after the threads ended", mc_live - live);
}
/* threads coming and going: generations, and the main thread's own state alongside */
static void generations(void) {
  int a, b, g, k, e; long live; reset(); a = mc_choose(10); b = mc_choose(10); e = mc_choose(3); vl_set_last_error(900 + e, "main %d", e); vl_rand_seed(vl_get_rand(), 5); nthreads = 2; len = 2; live = mc_live;
  for (g = 0; g < 2; ++g) { for (k = 0; k < 3; ++k) { script[g][k] = scr[a][k]; script[1-g][k] = scr[b][(k+g)%3]; } conc_run(2, run);
    MC_CHECK("leak", mc_live == live, "%ld blocks of thread state remain after generation %d ended", mc_live - live, g);
    MC_CHECK("error", vl_get_last_error() == 900 + e && atoi(vl_get_last_error_message() + 5) == e, "the main thread's error became %d (%s)", vl_get_last_error(), vl_get_last_error_message());
    { VlRand ref; int i; vl_rand_init(&ref); vl_rand_seed(&ref, 5); for (i = 0; i <= g; ++i) k = vl_rand_uint32(&ref); MC_CHECK("rand", (int)vl_rand_uint32(vl_get_rand()) == k, "the main thread's generator was disturbed"); } }
}
/* the lock is recursive: the allocation of a thread's state happens inside the lock, and an
   allocator may use the library (here: it resets the allocation functions, which takes the lock) */
static int inside; static void *hm(size_t n) { return malloc(n); }
static void nested(void) {
  long l = conc_locks(); int t = conc_id();
  if (l == 0) return; /* the library did not take its lock around the allocation: nothing to exclude */
  if (inside) mc_fail("exclusion", "thread %d entered the library's critical section while thread %d was in it", t, inside - 1);
  inside = t + 1; vl_set_alloc_func(malloc, realloc, calloc, free); 
  conc_point("nested");
  if (inside != t + 1) mc_fail("exclusion", "thread %d lost the library's critical section", t);
  inside = 0;
}
static void recursion(void) {
  int a, b, c, k; long live; reset(); a = mc_choose(4); b = mc_choose(4); c = mc_choose(5); nthreads = c < 4 ? 3 : 2; len = 1; inside = 0; conc_at_global = 0;
  for (k = 0; k < 1; ++k) { script[0][k] = scr[a*2][k]; script[1][k] = scr[b*2+1][k]; script[2][k] = scr[c*2][k]; } note(); live = mc_live; conc_on_alloc = nested;
  conc_run(nthreads, run); conc_on_alloc = 0;
  MC_CHECK("leak", mc_live == live, "%ld blocks of thread state remain after the threads ended", mc_live - live);
}
/* allocation functions installed by one thread while others use the library */
static void setalloc_run(int t) { if (t == 0) { vl_set_alloc_func(malloc, realloc, calloc, free); vl_set_alloc_func(malloc, realloc, calloc, free); mc_ops(2); } else run(t); }
static void setalloc(void) {
  int a, b, k; long live; reset(); a = mc_choose(10); b = mc_choose(10); k = mc_choose(2); nthreads = 2 + k; len = 2; conc_at_global = 0;
  for (k = 0; k < 3; ++k) { script[1][k] = scr[a][k]; script[2][k] = scr[b][k]; } note(); live = mc_live;
  conc_run(nthreads, setalloc_run);
  MC_CHECK("leak", mc_live == live, "%ld blocks remain", mc_live - live);
}
mc_suite mc_suites[] = {
  {"two-threads", two, "2 threads x 10x10 scripts of 1..3 operations; every schedule with at most 2 (3) preemptions, at every lock operation, allocation, clock and formatting call and access to a global variable", 0, 2, 3},
  {"three-threads", three, "3 threads x scripts of 1..2 (3) operations; at most 1 (2) preemptions", 0, 1, 2},
  {"generations", generations, "2 generations of 2 threads and the main thread's own state; at most 1 (2) preemptions", 0, 1, 2},
  {"recursion", recursion, "2..3 threads whose allocator re-enters the library lock; at most 2 (3) preemptions", 0, 2, 3},
  {"set-alloc", setalloc, "a thread sets the allocation functions while 1..2 others run; at most 1 (2) preemptions", 0, 1, 2},
  {0}};
