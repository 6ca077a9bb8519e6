#define _GNU_SOURCE
#include "mc.h"
#include "conc.h"
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdarg.h>
#define MAXT 10
extern int mc_engine, mc_inthread, mc_pending; extern void mc_jump_pending(void); extern void (*mc_thread_abort)(void); extern void (*mc_alloc_hook)(void*,size_t,int);
int conc_at_alloc, conc_at_global, conc_races; long conc_nthreads_done; int conc_omp_threads = 2, conc_omp_teams, conc_omp_max_team, conc_few; void (*conc_on_alloc)(void);

typedef unsigned clk;
enum { READY, BLOCKED, DONE };
typedef struct { pthread_t th; sem_t sem; int st; const void *on; int kind; void (*fn)(int); int idx; clk vc[MAXT]; char *lo, *hi; jmp_buf top; long locks, nloop; int insync; } thr;
static thr T[MAXT]; static int nT; static int cur = -1; static sem_t mainsem; static long steps; static int active;
static __thread int me = -1;
static clk mainvc[MAXT];
int conc_id(void) { return active ? me : -1; }
long conc_locks(void) { return me >= 0 ? T[me].locks : 0; }

/* ---- scheduling */
static void handoff(int to) { /* give the baton to `to' (-1: main) and wait for it, unless ended */
  int m = me; cur = to;
  if (to < 0) sem_post(&mainsem); else sem_post(&T[to].sem);
  if (m >= 0 && T[m].st != DONE) while (sem_wait(&T[m].sem));
}
static int pick(int self) { /* next thread, or -1 when none is enabled */
  int e[MAXT], n = 0, i, c;
  if (self >= 0 && T[self].st == READY) e[n++] = self;
  for (i = 0; i < nT; ++i) if (i != self && T[i].st == READY) e[n++] = i;
  if (!n) return -1;
  if (n == 1) return e[0];
  c = conc_few || (self >= 0 && T[self].st == READY) ? mc_dev(n) : mc_choose(n);
  if (c) mc_note(" [%d->%d]", self, e[c]);
  return e[c];
}
static void stuck(const char *key, const char *msg) { /* called by whoever has the baton */
  mc_note(" %s", key);
  if (!mc_pending) { mc_inthread = 0; if (me < 0) mc_fail(key, "%s", msg); mc_inthread = 1; }
  /* in a thread: let main report; threads stay blocked */
  T[me].st = BLOCKED; handoff(-1);
}
static void sched(void) {
  int p;
  if (T[me].st == DONE) return; /* destructors of an ended thread */
  if (++steps > 2000000) { stuck("livelock", "more than 2000000 scheduling points in one execution"); return; }
  p = pick(me);
  if (p == me) return;
  handoff(p); /* p == -1: nobody can run; main finds out */
}
void conc_point(const char *what) { if (!active || me < 0) return; (void)what; sched(); }
static void block(int kind, const void *on) { T[me].st = BLOCKED; T[me].kind = kind; T[me].on = on; sched(); }
static void wake(int kind, const void *on, int one) {
  int w[MAXT], n = 0, i;
  for (i = 0; i < nT; ++i) if (T[i].st == BLOCKED && T[i].kind == kind && T[i].on == on) w[n++] = i;
  if (!n) return;
  if (one) { i = w[n > 1 ? mc_choose(n) : 0]; T[i].st = READY; } else for (i = 0; i < n; ++i) T[w[i]].st = READY;
}
static void thread_abort(void) { longjmp(T[me].top, 1); }
static void *body(void *a) {
  me = (int)(long)a; thr *t = &T[me];
  while (sem_wait(&t->sem));
  if (!setjmp(t->top)) t->fn(t->idx);
  t->st = DONE; handoff(-1); /* main joins us: thread-specific destructors run while nobody else does */
  return 0;
}
static void vcjoin(clk *a, const clk *b) { int i; for (i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void shadow_reset(void), shadow_clear(void *p, size_t n);
static void alloc_hook(void *p, size_t n, int freed) {
  if (!active || me < 0) return;
  shadow_clear(p, n);
  if (freed) return;
  if (conc_on_alloc && !T[me].insync) { T[me].insync = 1; conc_on_alloc(); T[me].insync = 0; }
  if (conc_at_alloc) sched();
}
/* mutexes: one simulated table */
typedef struct { const void *m; int owner, count, recursive; clk vc[MAXT]; } mtx;
static mtx M[64]; static int nM;
static mtx *mfind(const void *p) { int i; for (i = 0; i < nM; ++i) if (M[i].m == p) return &M[i]; if (nM == 64) abort(); memset(&M[nM], 0, sizeof(mtx)); M[nM].m = p; M[nM].owner = -1; return &M[nM++]; }
static void mreset(void) { int i; for (i = 0; i < nM; ++i) { M[i].owner = -1; M[i].count = 0; memset(M[i].vc, 0, sizeof M[i].vc); } }

#define STK (1 << 19)
static char stacks[MAXT][STK] __attribute__((aligned(4096)));
void conc_run(int n, void (*fn)(int)) {
  int i, left = n, base = 0; pthread_attr_t at;
  if (active) abort();
  nT = n; steps = 0; mreset(); shadow_reset(); memset(mainvc, 0, sizeof mainvc); mainvc[MAXT-1] = 1;
  static int init; if (!init) { sem_init(&mainsem, 0, 0); for (i = 0; i < MAXT; ++i) sem_init(&T[i].sem, 0, 0); init = 1; }
  (void)base; mc_thread_abort = thread_abort; mc_alloc_hook = alloc_hook;
  pthread_attr_init(&at);
  for (i = 0; i < n; ++i) { thr *t = &T[i]; t->st = READY; t->fn = fn; t->idx = i; t->locks = t->nloop = 0; t->insync = 0; memcpy(t->vc, mainvc, sizeof mainvc); t->vc[i] = 1; t->lo = stacks[i]; t->hi = t->lo + STK; pthread_attr_setstack(&at, t->lo, STK); if (pthread_create(&t->th, &at, body, (void*)(long)i)) { perror("pthread_create"); abort(); } }
  pthread_attr_destroy(&at);
  mc_inthread = 1; active = 1;
  i = pick(-1);
  while (left) {
    if (i < 0) { active = 0; mc_alloc_hook = 0; if (mc_pending) mc_jump_pending(); mc_inthread = 0; if (steps > 2000000) mc_fail("livelock", "more than 2000000 scheduling points in one execution"); mc_fail("deadlock", "no thread can run: %d of %d threads are blocked", left, n); }
    cur = i; sem_post(&T[i].sem); while (sem_wait(&mainsem));
    for (i = 0; i < n; ++i) if (T[i].st == DONE && T[i].th) { pthread_join(T[i].th, 0); T[i].th = 0; --left; conc_nthreads_done++; }
    i = left ? pick(-1) : -1;
  }
  active = 0; mc_alloc_hook = 0; cur = -1;
  mc_jump_pending(); mc_inthread = 0;
}
/* ---- pthread interposition */
extern int __real_pthread_mutex_lock(pthread_mutex_t*), __real_pthread_mutex_unlock(pthread_mutex_t*), __real_pthread_mutex_trylock(pthread_mutex_t*), __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*), __real_pthread_cond_signal(pthread_cond_t*), __real_pthread_cond_broadcast(pthread_cond_t*), __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); extern void *__real_pthread_getspecific(pthread_key_t); extern int __real_pthread_setspecific(pthread_key_t, const void*);
#define ON (active && me >= 0 && !mc_engine)
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); mfind(m)->recursive = ty == PTHREAD_MUTEX_RECURSIVE; return __real_pthread_mutex_init(m, a); }
static void acquire(mtx *x) { while (x->owner >= 0) { if (x->owner == me && x->recursive) break; block(1, x); } x->owner = me; x->count++; T[me].locks++; vcjoin(T[me].vc, x->vc); }
static int release(mtx *x) { if (x->owner != me) return 1; if (--x->count == 0) { x->owner = -1; memcpy(x->vc, T[me].vc, sizeof x->vc); T[me].vc[me]++; wake(1, x, 0); } return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!ON) return __real_pthread_mutex_lock(m); sched(); acquire(mfind(m)); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!ON) return __real_pthread_mutex_trylock(m); mtx *x; sched(); x = mfind(m); if (x->owner >= 0 && !(x->owner == me && x->recursive)) return 16; acquire(x); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!ON) return __real_pthread_mutex_unlock(m); if (release(mfind(m))) mc_fail("mutex", "a thread unlocks a mutex it does not hold"); sched(); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ON) return __real_pthread_cond_wait(c, m); mtx *x = mfind(m); int k = x->count; if (x->owner != me) mc_fail("mutex", "a thread waits on a condition without holding its mutex"); x->count = 1; release(x); block(2, c); acquire(x); x->count = k; return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (!ON) return __real_pthread_cond_signal(c); wake(2, c, 1); sched(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (!ON) return __real_pthread_cond_broadcast(c); wake(2, c, 0); sched(); return 0; }
void *__wrap_pthread_getspecific(pthread_key_t k) { if (ON) sched(); return __real_pthread_getspecific(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { if (ON) sched(); return __real_pthread_setspecific(k, v); }

/* ---- race detection: vector clocks, shadow cells of 8 bytes */
typedef struct { clk c; unsigned char t, mask, w; } acc;
typedef struct { uintptr_t key; int gen; int n; acc a[12]; } cell;
#define CB 20
static cell *sh; static int gen; static long cells;
static void shadow_reset(void) { if (conc_races && !sh) { extern void *__real_calloc(size_t, size_t); sh = __real_calloc((size_t)1 << CB, sizeof(cell)); } ++gen; cells = 0; }
static cell *cfind(uintptr_t k, int make) {
  size_t m = ((size_t)1 << CB) - 1, i = (k * 0x9e3779b97f4a7c15ULL) >> (64 - CB);
  for (;; i = (i+1) & m) { if (sh[i].gen != gen) { if (!make || cells > (1L << CB) * 3 / 4) return 0; ++cells; sh[i].gen = gen; sh[i].key = k; sh[i].n = 0; return &sh[i]; } if (sh[i].key == k) return &sh[i]; }
}
static void shadow_clear(void *p, size_t n) { uintptr_t k; cell *c; if (!sh || !conc_races) return; for (k = (uintptr_t)p >> 3; k <= ((uintptr_t)p + n) >> 3; ++k) if ((c = cfind(k, 0))) c->n = 0; }
extern char __data_start, _end;
static void touch1(uintptr_t k, unsigned mask, int w, void *pc) {
  cell *c = cfind(k, 1); int i, slot = -1; thr *t = &T[me]; if (!c) return;
  for (i = 0; i < c->n; ++i) { acc *a = &c->a[i];
    if (a->t == me) { if (a->w == w && a->mask == mask) slot = i; continue; }
    if ((a->mask & mask) && (a->w || w) && a->c > t->vc[a->t]) { int o = a->t, aw = a->w; if (mc_pending) return; conc_races = 0; mc_fail("race", "threads %d and %d access the same memory without synchronisation (%s and %s; %s, near %p)", o, me, aw ? "write" : "read", w ? "write" : "read", k << 3 >= (uintptr_t)&__data_start && k << 3 < (uintptr_t)&_end ? "a global variable" : "heap or stack of the caller", pc); } }
  if (slot < 0) { if (c->n < 12) slot = c->n++; else { memmove(c->a, c->a + 1, sizeof(acc)*11); slot = 11; } }
  c->a[slot].t = me; c->a[slot].mask = mask; c->a[slot].w = w; c->a[slot].c = t->vc[me];
}
static void touch(void *p, size_t n, int w, void *pc) {
  if (!active || me < 0 || mc_pending) return;
  thr *t = &T[me]; if ((char*)p >= t->lo && (char*)p < t->hi) return;
  if (t->insync) return;
  if (conc_at_global && (char*)p >= &__data_start && (char*)p < &_end && !((char*)p >= stacks[0] && (char*)p < stacks[MAXT])) sched();
  if (!conc_races) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) { uintptr_t k = a >> 3; unsigned off = a & 7, len = 8 - off; if (len > e - a) len = e - a; touch1(k, ((1u << len) - 1) << off, w, pc); a += len; }
}
#define PC __builtin_return_address(0)
#define RW(n) void __tsan_read##n(void *p) { touch(p, n, 0, PC); } void __tsan_write##n(void *p) { touch(p, n, 1, PC); } void __tsan_unaligned_read##n(void *p) { touch(p, n, 0, PC); } void __tsan_unaligned_write##n(void *p) { touch(p, n, 1, PC); } void __tsan_volatile_read##n(void *p) { touch(p, n, 0, PC); } void __tsan_volatile_write##n(void *p) { touch(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, 0, PC); } void __tsan_write_range(void *p, size_t n) { touch(p, n, 1, PC); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {} void __tsan_vptr_update(void **a, void *b) {}
/* atomics: sequentially consistent scheduling points, and synchronisation */
static mtx AT; static void apoint(void) { if (!ON) return; sched(); vcjoin(T[me].vc, AT.vc); vcjoin(AT.vc, T[me].vc); T[me].vc[me]++; }
#define ATOM(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty *p, int m) { apoint(); return *p; } void __tsan_atomic##b##_store(volatile ty *p, ty v, int m) { apoint(); *p = v; } \
 ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int m) { apoint(); ty o = *p; *p = v; return o; } ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int m) { apoint(); ty o = *p; *p = o + v; return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int m) { apoint(); ty o = *p; *p = o - v; return o; } ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int m) { apoint(); ty o = *p; *p = o & v; return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int m) { apoint(); ty o = *p; *p = o | v; return o; } ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int m) { apoint(); ty o = *p; *p = o ^ v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int m, int f) { apoint(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, m, f); } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int m, int f) { apoint(); ty o = *p; if (o == e) *p = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int m) { apoint(); } void __tsan_atomic_signal_fence(int m) {}
extern void *__real_memcpy(void*, const void*, size_t), *__real_memmove(void*, const void*, size_t), *__real_memset(void*, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (ON) { touch((void*)s, n, 0, PC); touch(d, n, 1, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (ON) { touch((void*)s, n, 0, PC); touch(d, n, 1, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (ON) touch(d, n, 1, PC); return __real_memset(d, v, n); }

extern char *__real_strcpy(char*, const char*), *__real_strncpy(char*, const char*, size_t); extern int __real_vsnprintf(char*, size_t, const char*, va_list), __real_vsprintf(char*, const char*, va_list);
char *__wrap_strcpy(char *d, const char *s) { if (ON) { size_t n = strlen(s) + 1; touch((void*)s, n, 0, PC); touch(d, n, 1, PC); } return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (ON) { touch((void*)s, strnlen(s, n), 0, PC); touch(d, n, 1, PC); } return __real_strncpy(d, s, n); }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list a) { int r; if (!ON || mc_engine) return __real_vsnprintf(d, n, f, a); r = __real_vsnprintf(d, n, f, a); touch(d, r < n ? r + 1 : n, 1, PC); sched(); return r; }
int __wrap_vsprintf(char *d, const char *f, va_list a) { int r = __real_vsprintf(d, f, a); if (ON && !mc_engine) { touch(d, r + 1, 1, PC); sched(); } return r; }

/* ---- OpenMP runtime (the entry points gcc emits) */
static struct { void (*fn)(void*); void *data; int n, arrived; long phase; long next, end, incr, chunk; long lastloop; long singles; } P;
static int omp_nest; static clk barvc[MAXT];
static void member(int i) { P.fn(P.data); }
void GOMP_parallel(void (*fn)(void*), void *data, unsigned n, unsigned flags) {
  if (active) { ++omp_nest; fn(data); --omp_nest; return; } /* nested: a team of one */
  if (!n) n = conc_omp_threads; if ((int)n > conc_omp_max_team) conc_omp_max_team = n; if (n > MAXT-1) n = MAXT-1; if (n > (unsigned)conc_omp_threads) n = conc_omp_threads;
  memset(&P, 0, sizeof P); P.fn = fn; P.data = data; P.n = n; P.lastloop = -1; memset(barvc, 0, sizeof barvc); ++conc_omp_teams;
  conc_run(n, member);
}
int omp_get_thread_num(void) { return ON && !omp_nest ? me : 0; }
int omp_get_num_threads(void) { return ON && !omp_nest ? P.n : 1; }
int omp_get_max_threads(void) { return conc_omp_threads; }
int omp_get_thread_limit(void) { return MAXT-1; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { return ON; }
void omp_set_num_threads(int n) {}
void omp_set_dynamic(int n) {} void omp_set_nested(int n) {}
void GOMP_barrier(void) {
  long ph; if (!ON || omp_nest) return;
  sched(); vcjoin(barvc, T[me].vc); ph = P.phase;
  if (++P.arrived == P.n) { int i; P.arrived = 0; ++P.phase; for (i = 0; i < P.n; ++i) { memcpy(T[i].vc, barvc, sizeof barvc); } for (i = 0; i < P.n; ++i) T[i].vc[i]++; memcpy(barvc, T[0].vc, 0); wake(3, &P, 0); sched(); }
  else while (P.phase == ph) block(3, &P);
}
static char critlock;
void GOMP_critical_start(void) { if (!ON) return; sched(); acquire(mfind(&critlock)); } void GOMP_critical_end(void) { if (!ON) return; release(mfind(&critlock)); sched(); }
void GOMP_critical_name_start(void **p) { if (!ON) return; sched(); acquire(mfind(p)); } void GOMP_critical_name_end(void **p) { if (!ON) return; release(mfind(p)); sched(); }
static char atomlock; void GOMP_atomic_start(void) { if (!ON) return; sched(); acquire(mfind(&atomlock)); } void GOMP_atomic_end(void) { if (!ON) return; release(mfind(&atomlock)); sched(); }
int GOMP_single_start(void) { if (!ON || omp_nest) return 1; sched(); if (T[me].nloop++ >= P.singles) { P.singles = T[me].nloop; return 1; } return 0; }
/* dynamic, guided and runtime schedules: chunks of at least the given size in arrival order; the
   explorer decides who arrives.  (static schedules are computed inline by the compiler) */
static int loop_next(long *s, long *e) { long k, left; sched(); if (P.incr > 0 ? P.next >= P.end : P.next <= P.end) return 0; left = (P.end - P.next + P.incr - (P.incr > 0 ? 1 : -1)) / P.incr; k = P.chunk > 0 ? P.chunk : 1; if (k > left) k = left; *s = P.next; P.next += k * P.incr; *e = P.next; if (P.incr > 0 ? *e > P.end : *e < P.end) *e = P.end; return 1; }
static struct { long next, end, incr, chunk; } solo;
static int loop_start(long b, long e, long i, long c, long *s, long *t) { if (!ON || omp_nest) { solo.next = b; if (i > 0 ? b >= e : b <= e) return 0; *s = b; *t = e; solo.next = solo.end = e; return 1; } if (P.lastloop < T[me].nloop) { P.lastloop = T[me].nloop; P.next = b; P.end = e; P.incr = i; P.chunk = c; } T[me].nloop++; return loop_next(s, t); }
#define LOOP(k) int GOMP_loop_##k##_start(long b, long e, long i, long c, long *s, long *t) { return loop_start(b, e, i, c, s, t); } int GOMP_loop_##k##_next(long *s, long *t) { if (!ON || omp_nest) return 0; return loop_next(s, t); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
int GOMP_loop_runtime_start(long b, long e, long i, long *s, long *t) { return loop_start(b, e, i, 1, s, t); } int GOMP_loop_runtime_next(long *s, long *t) { if (!ON || omp_nest) return 0; return loop_next(s, t); }
int GOMP_loop_maybe_nonmonotonic_runtime_start(long b, long e, long i, long *s, long *t) { return loop_start(b, e, i, 1, s, t); } int GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *t) { if (!ON || omp_nest) return 0; return loop_next(s, t); }
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {}
