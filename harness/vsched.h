/* Deterministic scheduler for multi-threaded drivers.  The code under test is compiled
 * with -fsanitize=thread, but linked with the stubs of vsched.c instead of the runtime:
 * every access to memory outside the own stack, every pthread call and the wrapped
 * library calls are points at which another thread may be chosen to run.  One thread
 * runs at a time; a run is determined by its choices, which are enumerated (bounded
 * preemptions) or drawn from a seed.  Each new history of events is output once. */
#ifndef SCHED_H
#define SCHED_H
#include "vf.h"
#define VS_MAX 10
extern int vs_self(void);          /* managed thread number, -1 outside a run */
void vs_point(void);               /* another thread may run here */
void vs_log(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* event of the run */
extern int vs_bad;                 /* misuse seen: unlock by a non-owner, use after destroy */
extern char vs_badtext[200];
struct vs_opt {
	int nthreads;
	void (*body)(int t);
	void (*setup)(void);           /* before each run, not scheduled */
	void (*begin)(void);           /* writes the opening events with vs_log */
	void (*finish)(int stuck);     /* after the run: writes closing events with vs_log */
	int bound;                     /* preemptions per run */
	int spurious;                  /* spurious wake-ups per run */
	long maxruns;
	uint64_t seed;                 /* 0: enumerate */
};
/* explores; returns the number of runs */
long vs_explore(struct vs_opt *o);
extern long vs_runs, vs_new;
extern bool vs_complete;           /* the enumeration was exhausted */
/* state of managed thread t after a stuck run */
enum { VS_READY, VS_MUTEX, VS_COND, VS_JOIN, VS_DONE };
int vs_state(int t);
/* fault injection in the pthread calls */
extern __thread int vs_fail_at, vs_fail_n;  /* the n-th fallible call since vs_fail_arm fails */
void vs_fail_arm(int n);
extern int vs_live_obj;            /* mutexes, conditions and attributes not destroyed */
extern char vs_fail_what[32];
extern __thread bool vs_failed;
#endif
