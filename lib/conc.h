/* conc.h - a controlled scheduler for model threads, for use with mc.h.
 *
 * conc_run(n, fn) runs fn(0..n-1) in n real threads of which only one runs at a
 * time.  At every scheduling point (pthread mutex/condition/key operations,
 * OpenMP runtime calls, conc_point(), allocations, and, in the "trace" build,
 * accesses of the library to its global variables) the explorer decides who goes
 * on: going on with the current thread is free, preempting it costs one
 * deviation, and when it is blocked or ended all others are enumerated.
 * Deadlock, livelock and (conc_races) unsynchronised conflicting accesses are
 * violations. */
#ifndef CONC_H
#define CONC_H
void conc_run(int n, void (*fn)(int));
void conc_point(const char *what);
int conc_id(void);                     /* model thread number, or -1 */
extern int conc_at_alloc;              /* scheduling points at allocations */
extern int conc_at_global;             /* ... at accesses to global variables (trace build) */
extern int conc_races;                 /* report races (trace build) */
extern long conc_nthreads_done;
extern int conc_omp_threads;           /* size of OpenMP teams */
extern int conc_omp_teams;             /* teams started */
extern int conc_omp_max_team;          /* largest team asked for since it was zeroed */
extern int conc_few;                   /* every choice of the schedule costs a deviation */
extern void (*conc_on_alloc)(void);    /* called in the model thread at every allocation */
long conc_locks(void);                 /* mutex acquisitions made by this model thread */
#endif
