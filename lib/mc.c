#define _GNU_SOURCE
#include "mc.h"
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <malloc.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define MAXCH 4096
#define MAXW 16
#define MSG 8192
#define NSAMPLE 3

int mc_thorough, mc_asan, mc_verbose;
uint64_t mc_seed;
int mc_fill = 0xA5;
long mc_live, mc_allocs, mc_fail_at;

typedef struct {
  volatile long execs, cases, ops, skips, progress, known;
  volatile int nch;             /* current vector */
  volatile int ch[MAXCH];
  volatile int depthmax;
  volatile int failed;          /* unknown violation */
  volatile int capped, overflow;
  char key[256], msg[MSG], notes[MSG];
  char knownkeys[32][256]; int nknown; long knowncount[32]; char knownmsg[32][512];
  char sample[NSAMPLE][1536]; int nsample;
} slot;

typedef struct { uint64_t *tab; volatile long *count; } hset;
#define HBITS 24
static slot *slots;
static uint64_t *htab; static volatile long *hcount;
static slot *S;                 /* mine */

int mc_engine; int mc_inthread, mc_pending;    /* set by the scheduler of lib/conc.c: choices are made by model threads */
void (*mc_alloc_hook)(void *p, size_t n, int freed);
void (*mc_thread_abort)(void);
static void jump_(int j);
static int worker, nworkers = 8, sharddepth;
static int ch[MAXCH], ar[MAXCH], cost[MAXCH]; static int nch, pos, prefixlen;
static int devbound, devs;
static long shardidx; static int shardchecked;
static int replaying; static int *replay_ch, replay_n;
static jmp_buf jb;
static char notebuf[MSG]; static size_t notelen;
static double deadline;
static int known_n; static char (*known_keys)[512];
static mc_suite *cur;

static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }

/* ------------------------------------------------------------ allocation */
extern void *__real_malloc(size_t), *__real_calloc(size_t,size_t), *__real_realloc(void*,size_t); extern void __real_free(void*);
static void fillmem(unsigned char *p, size_t n) {
  if (mc_fill >= 0) memset(p, mc_fill, n);
  else { size_t i; for (i = 0; i < n; ++i) p[i] = (unsigned char)(i * 37 + 11); }
}
size_t mc_alloc_max;
static int failalloc(void) { ++mc_allocs; return mc_fail_at && mc_allocs == mc_fail_at; }
void *__wrap_malloc(size_t n) {
  void *p; if (failalloc() || (mc_alloc_max && n > mc_alloc_max)) { errno = ENOMEM; return 0; }
  p = __real_malloc(n); if (p) { fillmem(p, n); ++mc_live; if (mc_alloc_hook) mc_alloc_hook(p, n, 0); } return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p; if (failalloc()) { errno = ENOMEM; return 0; }
  p = __real_calloc(a, b); if (p) { ++mc_live; if (mc_alloc_hook) mc_alloc_hook(p, a*b, 0); } return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  --mc_live; if (mc_alloc_hook) mc_alloc_hook(p, malloc_usable_size(p), 1);
  if (!mc_asan) memset(p, 0xDD, malloc_usable_size(p));
  __real_free(p);
}
void *__wrap_realloc(void *q, size_t n) {
  if (!q) return __wrap_malloc(n);
  if (n == 0) { __wrap_free(q); return 0; }
  size_t old = malloc_usable_size(q); void *p;
  if (failalloc() || (mc_alloc_max && n > mc_alloc_max)) { errno = ENOMEM; return 0; }
  p = __real_malloc(n); if (!p) return 0;
  /* always moves; the tail is fresh memory.  In the plain build the usable size may
     exceed the requested one: harmless, the copied excess is old fill or poison. */
  fillmem(p, n); memcpy(p, q, old < n ? old : n); if (mc_alloc_hook) { mc_alloc_hook(p, n, 0); mc_alloc_hook(q, old, 1); }
  if (!mc_asan) memset(q, 0xDD, old);
  __real_free(q);
  return p;
}
#define GPAD 64
void *mc_galloc(size_t n) {
  if (mc_asan) { void *q = __real_malloc(n); if (n) memset(q, 0x99, n); return q; }
  unsigned char *b = __real_malloc(n + 2*GPAD + sizeof(size_t));
  memcpy(b, &n, sizeof n);
  memset(b + sizeof(size_t), 0xC7, GPAD);
  memset(b + sizeof(size_t) + GPAD, 0x99, n);
  memset(b + sizeof(size_t) + GPAD + n, 0xC7, GPAD);
  return b + sizeof(size_t) + GPAD;
}
void mc_gcheck(void *p) {
  if (mc_asan || !p) return;
  unsigned char *b = (unsigned char*)p - GPAD - sizeof(size_t); size_t n, i; memcpy(&n, b, sizeof n);
  for (i = 0; i < GPAD; ++i) {
    if (b[sizeof(size_t)+i] != 0xC7) mc_fail("oob", "memory before a buffer of %zu bytes was written (offset -%zu)", n, GPAD - i);
    if (b[sizeof(size_t)+GPAD+n+i] != 0xC7) mc_fail("oob", "memory after a buffer of %zu bytes was written (offset +%zu)", n, i);
  }
}
void mc_gfree(void *p) {
  if (!p) return;
  if (mc_asan) { __real_free(p); return; }
  mc_gcheck(p);
  __real_free((unsigned char*)p - GPAD - sizeof(size_t));
}

uint64_t mc_hash(uint64_t h, const void *p, size_t n) {
  const unsigned char *b = p; size_t i;
  for (i = 0; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, b+i, 8); h = mc_mix(h, v); }
  if (i < n) { uint64_t v = 0; memcpy(&v, b+i, n-i); h = mc_mix(h, v ^ ((uint64_t)(n-i) << 56)); }
  return h;
}

/* ------------------------------------------------------------ exploration */
enum { J_SKIP = 1, J_SHARD, J_FAIL, J_BAD };
/* inside a model thread the execution cannot be abandoned at once: it runs to its end
 * with default answers, then the scheduler calls mc_jump_pending */
static void jump_(int j) { if (mc_inthread) { if (!mc_pending) mc_pending = j; return; } longjmp(jb, j); }
void mc_jump_pending(void) { int j = mc_pending; mc_pending = 0; mc_inthread = 0; if (j) longjmp(jb, j); }

static void shardcheck(void) {
  /* called when the prefix of length sharddepth is fixed, or at the end of a shorter execution */
  shardchecked = 1;
  if (replaying || nworkers == 1) return;
  if (prefixlen > sharddepth) return;  /* same shard prefix as the previous execution: mine */
  long idx = shardidx++;
  if (idx % nworkers != worker) jump_(J_SHARD);
}
static int choose_(int n, int dev) {
  int c;
  if (mc_pending) return 0;
  if (n <= 0) { jump_(J_SKIP); return 0; }
  if (pos >= MAXCH) { S->overflow = 1; jump_(J_SKIP); return 0; }
  if (!shardchecked && pos >= sharddepth) { shardcheck(); if (mc_pending) return 0; }
  if (replaying) {
    c = pos < replay_n ? replay_ch[pos] : 0;
    if (c >= n) { fprintf(stderr, "replay diverged: choice %d of %d at %d\n", c, n, pos); jump_(J_BAD); return 0; }
    ch[pos] = c; ar[pos] = n; nch = pos+1;
  } else if (pos < prefixlen) {
    c = ch[pos];
    if (ar[pos] != n || cost[pos] != dev) {
      S->failed = 1; snprintf(S->key, sizeof S->key, "nondeterminism");
      snprintf(S->msg, MSG, "re-executing a prefix, choice %d had arity %d and now %d: an execution is not a function of its choices", pos, ar[pos], n);
      jump_(J_FAIL); return 0;
    }
  } else {
    c = 0; ch[pos] = 0; ar[pos] = n; cost[pos] = dev; nch = pos+1;
    S->ch[pos] = 0;
  }
  S->nch = pos+1; S->ch[pos] = c;
  ++pos;
  if (dev && c) ++devs;
  if (pos > S->depthmax) S->depthmax = pos;
  return c;
}
int mc_choose(int n) { return choose_(n, 0); }
int mc_dev(int n) { if (devs >= devbound && !replaying) { return choose_(1, 1); } return choose_(n, 1); }
void mc_skip(void) { mc_inthread = 0; longjmp(jb, J_SKIP); }
void mc_op(void) { S->ops++; }
void mc_ops(long n) { S->ops += n; }
void mc_case(long n) { S->cases += n; S->progress++; }
void mc_state(uint64_t h) {
  if (!htab) return;
  h = mc_mix(h, 0x1234567); if (!h) h = 1;
  uint64_t m = ((uint64_t)1 << HBITS) - 1, i = (h * 0x9e3779b97f4a7c15ULL) >> (64 - HBITS); int k;
  for (k = 0; k < 64; ++k, i = (i+1) & m) {
    uint64_t v = __atomic_load_n(&htab[i], __ATOMIC_RELAXED);
    if (v == h) return;
    if (!v) {
      uint64_t e = 0;
      if (__atomic_compare_exchange_n(&htab[i], &e, h, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_add_fetch((long*)hcount, 1, __ATOMIC_RELAXED); return; }
      if (e == h) return;
    }
  }
}
void mc_note_(const char *fmt, ...) {
  va_list a; int k;
  if (notelen >= MSG/2) { memmove(notebuf, notebuf + notelen - MSG/4, MSG/4); notelen = MSG/4; }
  if (notelen) { notebuf[notelen++] = ';'; notebuf[notelen++] = ' '; }
  ++mc_engine; va_start(a, fmt); k = vsnprintf(notebuf + notelen, MSG - 1 - notelen, fmt, a); va_end(a); --mc_engine;
  if (k > 0) { notelen += k; if (notelen > MSG - 2) notelen = MSG - 2; }
}
static int is_known(const char *key, char *id, size_t n) {
  int i; char full[512];
  snprintf(full, sizeof full, "%s:%s", cur->name, key);
  for (i = 0; i < known_n; ++i) if (!strcmp(known_keys[i], full)) { snprintf(id, n, "%s", full); return 1; }
  return 0;
}
void mc_fail(const char *key, const char *fmt, ...) {
  va_list a; char msg[MSG], id[512];
  if (mc_inthread && mc_pending) mc_thread_abort();
  ++mc_engine; va_start(a, fmt); vsnprintf(msg, MSG, fmt, a); va_end(a); --mc_engine;
  if (is_known(key, id, sizeof id)) {
    int i; for (i = 0; i < S->nknown; ++i) if (!strcmp(S->knownkeys[i], id)) break;
    if (i == S->nknown && i < 32) { S->nknown++; snprintf(S->knownkeys[i], 256, "%.255s", id); snprintf(S->knownmsg[i], 512, "%.511s", msg); }
    if (i < 32) S->knowncount[i]++;
    S->known++;
    if (!replaying) { if (mc_inthread) { mc_pending = J_SKIP; mc_thread_abort(); } longjmp(jb, J_SKIP); }
  }
  S->failed = 1; snprintf(S->key, sizeof S->key, "%s", key); memcpy(S->msg, msg, MSG);
  notebuf[notelen] = 0; memcpy(S->notes, notebuf, MSG);
  if (mc_inthread) { mc_pending = J_FAIL; mc_thread_abort(); }
  longjmp(jb, J_FAIL);
}

static int run_one(void) {
  int j;
  mc_inthread = mc_pending = 0;
  pos = 0; devs = 0; shardchecked = 0; notelen = 0; notebuf[0] = 0;
  mc_fill = 0xA5; mc_fail_at = 0;
  S->nch = 0;
  if ((j = setjmp(jb)) == 0) {
    cur->body();
    if (!shardchecked && !replaying && nworkers > 1) shardcheck();
    return 0;
  }
  return j;
}

static void explore(void) {
  long nextsample = 0; int r;
  prefixlen = 0; nch = 0; shardidx = 0;
  for (;;) {
    mc_verbose = (S->nsample < NSAMPLE && S->execs >= nextsample && worker == 0);
    long ops0 = S->ops, cases0 = S->cases;
    r = run_one();
    S->progress++;
    if (r == J_SHARD) { S->ops = ops0; S->cases = cases0; }  /* another worker counts it */
    if (r == 0) {
      S->execs++;
      if (mc_verbose) {
        int i, k = 0; char *s = S->sample[S->nsample];
        k += snprintf(s + k, 1536 - k, "choices");
        for (i = 0; i < pos && k < 300; ++i) k += snprintf(s + k, 1536 - k, " %d", ch[i]);
        snprintf(s + k, 1536 - k, " : %.1100s", notebuf);
        S->nsample++; nextsample = nextsample * 40 + 17;
      }
    } else if (r == J_SKIP) S->skips++;
    else if (r == J_FAIL) { S->nch = pos; return; }
    else if (r == J_BAD) { S->failed = 1; return; }
    /* next vector: pos choices were made */
    if (pos < prefixlen && r == 0) {
      S->failed = 1; snprintf(S->key, sizeof S->key, "nondeterminism");
      snprintf(S->msg, MSG, "re-executing a prefix of %d choices made only %d", prefixlen, pos); return;
    }
    nch = pos;
    while (nch > 0 && ch[nch-1] + 1 >= ar[nch-1]) --nch;
    if (nch == 0) return;
    ch[nch-1]++; prefixlen = nch;
    if (now() > deadline) { S->capped = 1; return; }
  }
}

static void *shm(size_t n) {
  void *p = mmap(0, n, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return p;
}
static void limits(void) {
  struct rlimit r = {0,0}; setrlimit(RLIMIT_CORE, &r);
  if (!mc_asan) { r.rlim_cur = r.rlim_max = (rlim_t)6 << 30; setrlimit(RLIMIT_AS, &r); }
}

static void json(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f);
  }
  fputc('"', f);
}

/* replay one vector in a fresh child; returns 1 if it fails, fills s */
static int confirm(const int *v, int n, slot *s, char *how, size_t hown, double limit, const char *logf) {
  pid_t pid; int st; double t0;
  memset(s, 0, sizeof *s);
  if ((pid = fork()) == 0) {
    limits();
    int fd = open(logf, O_CREAT|O_TRUNC|O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    S = s; replaying = 1; replay_ch = (int*)v; replay_n = n; mc_verbose = 1;
    int r = run_one();
    if (r != J_FAIL) { notebuf[notelen] = 0; memcpy(s->notes, notebuf, MSG); }
    _exit(r == J_FAIL ? 10 : r == J_BAD ? 11 : 0);
  }
  t0 = now();
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(how, hown, "hang (no end within %.0f s)", limit); snprintf(s->key, 256, "hang"); return 1; }
    usleep(2000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { snprintf(how, hown, "%.400s", s->msg); return 1; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 11) return 0;
  if (WIFSIGNALED(st)) { snprintf(s->key, 256, "crash"); snprintf(how, hown, "the code under test was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); return 1; }
  snprintf(s->key, 256, "sanitizer"); snprintf(how, hown, "the code under test was stopped (exit status %d): memory error reported by the sanitizer, see %s", WEXITSTATUS(st), logf);
  return 1;
}

static const char *prop = "C00", *variant = "rel", *replaydir = ".";

static int report(FILE *out, mc_suite *su, const int *v, int n, slot *s, const char *how, int shard) {
  char path[1024], txt[1024]; FILE *f; int i;
  snprintf(path, sizeof path, "%s/%s-%s-%s.replay", replaydir, prop, su->name, variant);
  if ((f = fopen(path, "w"))) {
    fprintf(f, "property %s\nvariant %s\nsuite %s\ntier %d\nasan %d\nshard %d %d\nseed %llu\nchoices %d", prop, variant, su->name, mc_thorough, mc_asan, shard, nworkers, (unsigned long long)mc_seed, n);
    for (i = 0; i < n; ++i) fprintf(f, " %d", v[i]);
    fprintf(f, "\n# key: %s\n# what: %s\n# trace: %s\n", s->key, how, s->notes);
    fclose(f);
  }
  snprintf(txt, sizeof txt, "%s/%s-%s-%s.replay", replaydir, prop, su->name, variant);
  printf("FAIL suite=%s variant=%s key=%s: %s\n", su->name, variant, s->key, how);
  if (s->notes[0]) printf("  trace: %.600s\n", strlen(s->notes) > 600 ? s->notes + strlen(s->notes) - 600 : s->notes);
  printf("MCVIOLATION replay=%s\n", txt);
  fflush(stdout);
  (void)out; return 0;
}

static int load_replay(const char *path, char *suite, int *v, int *shard, int *nw) {
  FILE *f = fopen(path, "r"); char line[65536]; int n = 0;
  if (!f) { perror(path); exit(3); }
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "suite %127s", suite) == 1) continue;
    if (sscanf(line, "tier %d", &mc_thorough) == 1) continue;
    if (sscanf(line, "shard %d %d", shard, nw) == 2) continue;
    { unsigned long long sd; if (sscanf(line, "seed %llu", &sd) == 1) { mc_seed = sd; continue; } }
    if (!strncmp(line, "choices ", 8)) {
      char *p = line + 8; int k = strtol(p, &p, 10), i;
      for (i = 0; i < k && i < MAXCH; ++i) v[i] = strtol(p, &p, 10);
      n = k;
    }
  }
  fclose(f);
  return n;
}

int main(int argc, char **argv) {
  const char *outp = "/dev/null", *only = 0, *replay = 0, *knownf = 0; int i, bad = 0; double budget = 600, hang = 30;
#if defined(__SANITIZE_ADDRESS__)
  mc_asan = 1; variant = "asan"; hang = 90;
#endif
  for (i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--tier")) mc_thorough = !strcmp(argv[++i], "thorough");
    else if (!strcmp(argv[i], "--seed")) mc_seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--out")) outp = argv[++i];
    else if (!strcmp(argv[i], "--prop")) prop = argv[++i];
    else if (!strcmp(argv[i], "--variant")) variant = argv[++i];
    else if (!strcmp(argv[i], "--replaydir")) replaydir = argv[++i];
    else if (!strcmp(argv[i], "--suite")) only = argv[++i];
    else if (!strcmp(argv[i], "--jobs")) nworkers = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--known")) knownf = argv[++i];
    else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 3; }
  }
  if (nworkers > MAXW) nworkers = MAXW;
  known_keys = malloc(sizeof(*known_keys) * 256);
  if (knownf) { FILE *f = fopen(knownf, "r"); if (f) { while (known_n < 256 && fgets(known_keys[known_n], 512, f)) { known_keys[known_n][strcspn(known_keys[known_n], "\n")] = 0; if (known_keys[known_n][0]) ++known_n; } fclose(f); } }
  slots = shm(sizeof(slot) * (MAXW + 1));
  if (replay) {
    char suite[128] = ""; static int v[MAXCH]; int shard = -1, nw = 8, n = load_replay(replay, suite, v, &shard, &nw);
    for (cur = mc_suites; cur->name && strcmp(cur->name, suite); ++cur) ;
    if (!cur->name) { fprintf(stderr, "no suite %s\n", suite); return 3; }
    S = &slots[0]; known_n = 0; limits();
    if (shard >= 0) { worker = shard; nworkers = nw; deadline = now() + 1e9; sharddepth = (cur->flags & MC_SHARD1) ? 1 : (cur->flags & MC_SHARD6) ? 6 : 3; devbound = mc_thorough ? cur->dev_thorough : cur->dev_quick; explore();
      if (S->failed) { printf("reproduced: %s: %s\ntrace: %s\n", S->key, S->msg, S->notes); return 1; } printf("not reproduced\n"); return 0; }
    replaying = 1; replay_ch = v; replay_n = n; mc_verbose = 1;
    int r = run_one();
    if (r == J_FAIL) { printf("reproduced: %s: %s\ntrace: %s\n", S->key, S->msg, S->notes); return 1; }
    notebuf[notelen] = 0; printf("not reproduced\ntrace: %s\n", notebuf); return 0;
  }
  FILE *out = fopen(outp, "w"); if (!out) { perror(outp); return 3; }
  htab = 0; hcount = shm(4096);
  fprintf(out, "{\"suites\":["); int first = 1; long nviol = 0;
  double tstart = now();
  for (cur = mc_suites; cur->name; ++cur) {
    pid_t pids[MAXW]; int alive[MAXW], w, nw, restart[MAXW]; long lastp[MAXW]; double lastt[MAXW], t0 = now(); int violated = 0;
    if (only && strcmp(only, cur->name)) continue;
    if ((cur->flags & MC_NOASAN) && mc_asan) continue;
    if ((cur->flags & MC_ASANONLY) && !mc_asan) continue;
    if ((cur->flags & MC_THOROUGH) && !mc_thorough) continue;
    nw = (cur->flags & MC_SERIAL) ? 1 : nworkers; int savednw = nworkers; nworkers = nw;
    sharddepth = (cur->flags & MC_SHARD1) ? 1 : (cur->flags & MC_SHARD6) ? 6 : 3;
    devbound = mc_thorough ? cur->dev_thorough : cur->dev_quick;
    deadline = tstart + budget;
    if (mc_thorough) { /* no suite takes the time of the ones after it */
      int left = 0; for (mc_suite *q = cur; q->name; ++q) left++;
      double rest = tstart + budget - now(), share = rest / left > .35 * rest ? rest / left : .35 * rest;
      if (now() + share < deadline) deadline = now() + share;
    }
    memset(slots, 0, sizeof(slot) * nw);
    htab = shm(sizeof(uint64_t) << HBITS); *hcount = 0;
    fflush(out); fflush(stdout);
    for (w = 0; w < nw; ++w) {
      restart[w] = 0;
      if ((pids[w] = fork()) == 0) {
        int fd; limits(); worker = w; S = &slots[w];
        fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        explore(); _exit(S->failed ? 10 : 0);
      }
      alive[w] = 1; lastp[w] = -1; lastt[w] = now();
    }
    int left = nw;
    while (left) {
      int st, did = 0;
      for (w = 0; w < nw; ++w) if (alive[w]) {
        pid_t r = waitpid(pids[w], &st, WNOHANG); int hung = 0;
        if (r == 0) {
          if (slots[w].progress != lastp[w]) { lastp[w] = slots[w].progress; lastt[w] = now(); continue; }
          else if (now() - lastt[w] > hang) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); hung = 1; }
          else continue;
        }
        did = 1; alive[w] = 0; --left;
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (violated) continue;   /* already reported one for this suite */
        { /* failure: confirm alone */
          static int v[MAXCH]; int n = slots[w].nch, k; char how[1024] = "", logf[1024]; slot *cs = &slots[MAXW];
          for (k = 0; k < n; ++k) v[k] = slots[w].ch[k];
          char okey[256], omsg[512]; snprintf(okey, 256, "%s", slots[w].key); snprintf(omsg, 512, "%.511s", slots[w].msg);
          int wasfail = slots[w].failed;
          snprintf(logf, sizeof logf, "%s/%s-%s-%s.log", replaydir, prop, cur->name, variant);
          if (confirm(v, n, cs, how, sizeof how, 3*hang, logf)) { violated = 1; ++nviol; report(out, cur, v, n, cs, how, -1); }
          else {
            /* not reproduced alone: re-run the whole shard in a fresh process (an earlier
               execution of the shard may have corrupted state) */
            int st2; pid_t p2; memset(cs, 0, sizeof *cs);
            if ((p2 = fork()) == 0) { int fd; limits(); worker = w; S = cs; fd = open(logf, O_CREAT|O_TRUNC|O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } explore(); _exit(S->failed ? 10 : 0); }
            double tt = now(); long lp = -1; int hg = 0;
            while (waitpid(p2, &st2, WNOHANG) == 0) { if (cs->progress != lp) { lp = cs->progress; tt = now(); } else if (now() - tt > 3*hang) { kill(p2, SIGKILL); waitpid(p2, &st2, 0); hg = 1; break; } usleep(5000); }
            if (hg || !(WIFEXITED(st2) && WEXITSTATUS(st2) == 0)) {
              n = cs->nch; for (k = 0; k < n; ++k) v[k] = cs->ch[k];
              if (!cs->key[0]) snprintf(cs->key, 256, "crash-or-hang-in-shard");
              snprintf(how, sizeof how, "fails every time the shard is run in order, not alone (state left behind by earlier executions): %.600s", cs->msg);
              violated = 1; ++nviol; report(out, cur, v, n, cs, how, w);
            } else {
              printf("UNCONFIRMED suite=%s variant=%s worker=%d failed=%d hung=%d status=%d key=%s msg=%s\n", cur->name, variant, w, wasfail, hung, st, okey, omsg);
              if (restart[w]++ < 2) { /* try the shard again from the start: counts are reset */
                memset(&slots[w], 0, sizeof(slot));
                if ((pids[w] = fork()) == 0) { int fd; limits(); worker = w; S = &slots[w]; fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); } explore(); _exit(S->failed ? 10 : 0); }
                alive[w] = 1; ++left; lastp[w] = -1; lastt[w] = now();
              } else bad = 1;
            }
          }
        }
        if (violated) for (int k = 0; k < nw; ++k) if (alive[k]) kill(pids[k], SIGKILL);
      }
      if (!did) usleep(1000);
    }
    nworkers = savednw;
    { long ex = 0, cs = 0, op = 0, sk = 0, kn = 0; int cap = 0, ovf = 0, dm = 0, k;
      for (w = 0; w < nw; ++w) { ex += slots[w].execs; cs += slots[w].cases; op += slots[w].ops; sk += slots[w].skips; kn += slots[w].known; cap |= slots[w].capped; ovf |= slots[w].overflow; if (slots[w].depthmax > dm) dm = slots[w].depthmax; }
      fprintf(out, "%s\n{\"name\":", first ? "" : ","); first = 0; json(out, cur->name); fprintf(out, ",\"variant\":"); json(out, variant);
      fprintf(out, ",\"bound\":"); json(out, cur->bound ? cur->bound : "");
      fprintf(out, ",\"executions\":%ld,\"inner_cases\":%ld,\"operations\":%ld,\"infeasible\":%ld,\"known\":%ld,\"states\":%ld,\"max_choices\":%d,\"deviation_bound\":%d,\"capped\":%s,\"violations\":%d,\"wall_s\":%.2f,\"known_keys\":[", ex, cs, op, sk - kn, kn, *hcount, dm, devbound, (cap || ovf) ? "true" : "false", violated, now() - t0);
      int f2 = 1;
      for (w = 0; w < nw; ++w) for (k = 0; k < slots[w].nknown; ++k) { if (!f2) fputc(',', out); f2 = 0; fprintf(out, "["); json(out, slots[w].knownkeys[k]); fputc(',', out); json(out, slots[w].knownmsg[k]); fprintf(out, ",%ld]", slots[w].knowncount[k]); }
      fprintf(out, "],\"samples\":[");
      for (k = 0; k < slots[0].nsample; ++k) { if (k) fputc(',', out); json(out, slots[0].sample[k]); }
      fprintf(out, "]}"); fflush(out);
      printf("  %-34s %-5s exec=%ld cases=%ld ops=%ld states=%ld skip=%ld%s %.1fs%s\n", cur->name, variant, ex, cs, op, *hcount, sk, kn ? " known" : "", now() - t0, cap ? " CAPPED" : "");
      fflush(stdout);
    }
    munmap(htab, sizeof(uint64_t) << HBITS); htab = 0;
  }
  fprintf(out, "\n]}\n"); fclose(out);
  return bad ? 3 : nviol ? 1 : 0;
}
