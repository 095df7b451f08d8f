#include "vsched.h"
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>

typedef int (*pf)(void);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_attr_init(pthread_attr_t *);
int __real_pthread_attr_destroy(pthread_attr_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);

struct th {
	pthread_t real;
	sem_t go;
	int state;
	void *obj;        /* mutex, condition, or thread number */
	void *mtx;        /* to re-acquire after a wait */
	bool timed, fired;
	jmp_buf out;
	char *lo, *hi;
	void *(*fn)(void *);
	void *arg, *ret;
	bool dyn, joined, used;
};
static struct th T[VS_MAX];
static __thread int self = -1;
static int cur = -1, nth, nbody;
static sem_t ctl;
static bool abandon, in_run;
static struct vs_opt *O;
long vs_runs, vs_new;
bool vs_complete;
int vs_bad;
char vs_badtext[200];
static int run_stuck;

int vs_self(void) { return in_run ? self : -1; }
int vs_state(int t) { return T[t].state; }
static void bad(const char *what)
{
	if (!vs_bad) snprintf(vs_badtext, sizeof(vs_badtext), "%s", what);
	vs_bad = 1;
}

/* ------------------------------------------------------------ history */
static char *hist;
static size_t hpos, hcap;
void vs_log(const char *fmt, ...)
{
	va_list va;
	if (hcap - hpos < 1 << 16) hist = realloc(hist, hcap = (hcap ? hcap * 2 : 1 << 18));
	va_start(va, fmt);
	hpos += (size_t) vsnprintf(hist + hpos, hcap - hpos, fmt, va);
	va_end(va);
	if (hpos >= hcap) abort();
}
/* what was recorded of a run that ends the process */
static void on_death(void)
{
	static int once;
	if (once++ || !hpos || !in_run) return;
	vf_write(hist, hpos);
}
static void on_abort(int sig)
{
	on_death();
	signal(sig, SIG_DFL);
	raise(sig);
}
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static uint64_t *seen;
static size_t nseen, cseen;
static bool is_new(void)
{
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < hpos; i++) h = (h ^ (unsigned char) hist[i]) * 1099511628211ull;
	if (!h) h = 1;
	if (nseen * 2 >= cseen) {
		size_t oc = cseen;
		uint64_t *o = seen;
		cseen = oc ? oc * 4 : 1 << 12;
		seen = calloc(cseen, 8);
		for (size_t i = 0; i < oc; i++)
			if (o[i]) {
				size_t k = o[i] & (cseen - 1);
				while (seen[k]) k = (k + 1) & (cseen - 1);
				seen[k] = o[i];
			}
		free(o);
	}
	size_t k = h & (cseen - 1);
	while (seen[k]) {
		if (seen[k] == h) return false;
		k = (k + 1) & (cseen - 1);
	}
	seen[k] = h;
	nseen++;
	return true;
}

/* ------------------------------------------------------------ choices */
#define DMAX 20000
static struct { short n, pick; short used, spur; signed char cost[VS_MAX * 2]; } D[DMAX];
static int depth, plen;
static int used, spurs;
static uint64_t rs;
static uint64_t rnd(void)
{
	rs ^= rs << 13;
	rs ^= rs >> 7;
	rs ^= rs << 17;
	return rs;
}
/* cost: 0 free, 1 preemption, 2 spurious wake-up */
static int choose(int n, const signed char *cost)
{
	int p = 0;
	if (n <= 1) return 0;
	if (depth >= DMAX) return 0;
	if (O->seed) {
		int tot = 0, w[VS_MAX * 2];
		for (int i = 0; i < n; i++) {
			w[i] = cost[i] == 0 ? (i == 0 ? 12 : 12) : cost[i] == 1 ? 3 : 1;
			if (cost[i] == 2 && spurs >= O->spurious) w[i] = 0;
			if (cost[i] == 1 && used >= O->bound) w[i] = 0;
			tot += w[i];
		}
		int r = (int) (rnd() % (uint64_t) tot);
		for (p = 0; r >= w[p]; p++) r -= w[p];
	} else {
		if (depth < plen) {
			p = D[depth].pick;
			if (D[depth].n != n) { /* not deterministic: framework error */
				fprintf(stderr, "schedule diverged at %d: %d/%d\n", depth, D[depth].n, n);
				_exit(97);
			}
		} else {
			D[depth].n = (short) n;
			D[depth].pick = 0;
			memcpy(D[depth].cost, cost, (size_t) n);
			plen = depth + 1;
		}
		D[depth].used = (short) used;
		D[depth].spur = (short) spurs;
		depth++;
	}
	if (cost[p] == 1) used++;
	if (cost[p] == 2) spurs++;
	return p;
}
/* moves to the next schedule; false when all are done */
static bool next_schedule(void)
{
	while (plen > 0) {
		int d = plen - 1, p = D[d].pick + 1;
		for (; p < D[d].n; p++) {
			int c = D[d].cost[p];
			if (c == 1 && D[d].used >= O->bound) continue;
			if (c == 2 && D[d].spur >= O->spurious) continue;
			D[d].pick = (short) p;
			return true;
		}
		plen--;
	}
	return false;
}

/* ------------------------------------------------------------ objects */
struct obj { void *p; int kind, type, owner, count; bool alive; };
static struct obj ob[256];
static int nob;
int vs_live_obj;
enum { MUTEX = 1, COND, ATTR, MATTR };
static struct obj *find(void *p, int kind)
{
	for (int i = 0; i < nob; i++)
		if (ob[i].p == p && ob[i].kind == kind) return &ob[i];
	if (nob == 256) abort();
	struct obj *o = &ob[nob++];
	*o = (struct obj){p, kind, PTHREAD_MUTEX_NORMAL, -1, 0, true};
	return o;
}
static void born(void *p, int kind, int type)
{
	struct obj *o = find(p, kind);
	o->alive = true;
	o->type = type;
	o->owner = -1;
	o->count = 0;
	vs_live_obj++;
}
static void dead(void *p, int kind)
{
	for (int i = 0; i < nob; i++)
		if (ob[i].p == p && ob[i].kind == kind && ob[i].alive) {
			if (kind == MUTEX && ob[i].owner >= 0) bad("mutex destroyed while locked");
			ob[i].alive = false;
			vs_live_obj--;
			return;
		}
	bad("destroyed twice or never initialised");
}

/* ------------------------------------------------------------ scheduling */
static bool enabled(int i)
{
	switch (T[i].state) {
	case VS_READY: return true;
	case VS_MUTEX: return find(T[i].obj, MUTEX)->owner < 0;
	case VS_JOIN: return T[(long) T[i].obj].state == VS_DONE;
	default: return false;
	}
}
static int pick(void)
{
	int a[VS_MAX * 2], n = 0, m = (cur >= 0 && T[cur].state != VS_DONE) ? cur : -1;
	signed char c[VS_MAX * 2];
	bool cont = m >= 0 && enabled(m);
	if (cont) { a[n] = m; c[n++] = 0; }
	for (int k = 1; k <= nth; k++) {
		int i = ((m >= 0 ? m : 0) + k) % nth;
		if (i == m && cont) continue;
		if (T[i].state == VS_DONE) continue;
		if (enabled(i)) { a[n] = i; c[n++] = cont ? 1 : 0; }
	}
	/* spurious wake-ups and time-outs */
	int ready = n;
	for (int i = 0; i < nth; i++)
		if (T[i].state == VS_COND) {
			if (T[i].timed && !ready) { a[n] = i; c[n++] = 0; }
			else { a[n] = i; c[n++] = 2; }
		}
	if (n == 0) return -1;
	if (c[0] == 2) { /* nothing else can run: a wake-up does not have to happen */
		return -1;
	}
	return a[choose(n, c)];
}
static void hand(int i);
static void wait_turn(void)
{
	while (sem_wait(&T[self].go)) {}
	if (abandon) longjmp(T[self].out, 1);
}
/* gives the turn to i (or ends the run) */
static void hand(int i)
{
	if (i < 0) {
		for (int k = 0; k < nth; k++)
			if (T[k].state != VS_DONE && !run_stuck) run_stuck = 1;
		sem_post(&ctl);
		return;
	}
	if (T[i].state == VS_COND) { /* woken for no reason */
		T[i].fired = false;
		T[i].state = VS_MUTEX;
		T[i].obj = T[i].mtx;
		if (find(T[i].mtx, MUTEX)->owner >= 0) { hand(pick()); return; }
	}
	cur = i;
	sem_post(&T[i].go);
}
static long steps;
static void yield_(void)
{
	int me = self, i;
	if (++steps > 200000) { bad("no progress"); run_stuck = 2; hand(-1); wait_turn(); return; }
	i = pick();
	if (i == me && T[me].state != VS_COND) return;
	hand(i);
	wait_turn();
}
void vs_point(void)
{
	if (!in_run || self < 0) return;
	yield_();
}

static void finish_thread(void)
{
	T[self].state = VS_DONE;
	hand(pick());
}
static void *pool(void *arg)
{
	self = (int) (long) arg;
	pthread_attr_t at;
	void *lo;
	size_t sz;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &lo, &sz);
	__real_pthread_attr_destroy(&at);
	T[self].lo = lo;
	T[self].hi = (char *) lo + sz;
	sem_post(&ctl);
	for (;;) {
		if (setjmp(T[self].out)) {
			sem_post(&ctl);
			continue;
		}
		while (sem_wait(&T[self].go)) {}
		if (abandon) { sem_post(&ctl); continue; }
		if (T[self].dyn) T[self].ret = T[self].fn(T[self].arg);
		else O->body(self);
		finish_thread();
	}
	return NULL;
}

long vs_explore(struct vs_opt *o)
{
	static bool started;
	if (!started) {
		sem_init(&ctl, 0, 0);
		signal(SIGABRT, on_abort);
		if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
		else { signal(SIGSEGV, on_abort); signal(SIGBUS, on_abort); signal(SIGFPE, on_abort); signal(SIGILL, on_abort); }
		for (int i = 0; i < VS_MAX; i++) {
			sem_init(&T[i].go, 0, 0);
			__real_pthread_create(&T[i].real, NULL, pool, (void *) (long) i);
			sem_wait(&ctl);
		}
		started = true;
	}
	O = o;
	plen = 0;
	vs_runs = vs_new = 0;
	vs_complete = false;
	nseen = 0;
	if (seen) memset(seen, 0, cseen * 8);
	rs = o->seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	for (;;) {
		depth = used = spurs = 0;
		hpos = 0;
		steps = 0;
		nob = 0;
		vs_bad = 0;
		vs_live_obj = 0;
		run_stuck = 0;
		nth = nbody = o->nthreads;
		for (int i = 0; i < VS_MAX; i++) {
			T[i].state = i < nth ? VS_READY : VS_DONE;
			T[i].dyn = T[i].joined = T[i].used = false;
			T[i].obj = NULL;
		}
		self = -1;
		o->setup();
		o->begin();
		in_run = true;
		cur = -1;
		hand(pick());
		sem_wait(&ctl);
		/* let abandoned threads unwind */
		abandon = true;
		for (int i = 0; i < nth; i++)
			if (T[i].state != VS_DONE) {
				sem_post(&T[i].go);
				sem_wait(&ctl);
			}
		abandon = false;
		in_run = false;
		o->finish(run_stuck);
		vs_runs++;
		if (is_new()) {
			vs_new++;
			vf_write(hist, hpos);
		}
		if (vs_runs >= o->maxruns || run_stuck == 2) break;
		if (o->seed) continue;
		if (!next_schedule()) {
			vs_complete = true;
			break;
		}
	}
	return vs_runs;
}

/* ------------------------------------------------------------ wrapped calls */
__thread int vs_fail_at, vs_fail_n;
__thread bool vs_failed;
char vs_fail_what[32];
void vs_fail_arm(int n)
{
	vs_fail_at = n;
	vs_fail_n = 0;
	vs_failed = false;
	vs_fail_what[0] = 0;
}
static bool fails(const char *what)
{
	if (vs_fail_at && ++vs_fail_n == vs_fail_at) {
		vs_failed = true;
		snprintf(vs_fail_what, sizeof(vs_fail_what), "%s", what);
		return true;
	}
	return false;
}
#define MANAGED (in_run && self >= 0)

int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a)
{
	extern int __real_pthread_mutexattr_init(pthread_mutexattr_t *);
	if (fails("mutexattr_init")) return ENOMEM;
	born(a, MATTR, 0);
	return __real_pthread_mutexattr_init(a);
}
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *a)
{
	dead(a, MATTR);
	return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	int type = PTHREAD_MUTEX_DEFAULT;
	if (fails("mutex_init")) return EAGAIN;
	if (a) pthread_mutexattr_gettype(a, &type);
	born(m, MUTEX, type);
	return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	dead(m, MUTEX);
	return fails("mutex_destroy") ? EBUSY : 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	(void) a;
	if (fails("cond_init")) return ENOMEM;
	born(c, COND, 0);
	return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	for (int i = 0; i < nth; i++)
		if (in_run && T[i].state == VS_COND && T[i].obj == c) bad("condition destroyed while waited on");
	dead(c, COND);
	return fails("cond_destroy") ? EBUSY : 0;
}
static void acquire(void *m)
{
	struct obj *o = find(m, MUTEX);
	while (o->owner >= 0) {
		T[self].state = VS_MUTEX;
		T[self].obj = m;
		yield_();
	}
	T[self].state = VS_READY;
	o->owner = self;
	o->count = 1;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (!MANAGED) return 0;
	yield_();
	struct obj *o = find(m, MUTEX);
	if (!o->alive) bad("lock of a destroyed mutex");
	if (o->owner == self) {
		if (o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
		if (o->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	}
	acquire(m);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	if (!MANAGED) return 0;
	yield_();
	struct obj *o = find(m, MUTEX);
	if (o->owner == self && o->type == PTHREAD_MUTEX_RECURSIVE) { o->count++; return 0; }
	if (o->owner >= 0) return EBUSY;
	o->owner = self;
	o->count = 1;
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!MANAGED) return 0;
	yield_();
	struct obj *o = find(m, MUTEX);
	if (!o->alive) bad("unlock of a destroyed mutex");
	if (o->owner != self) {
		bad("unlock of a mutex the thread does not hold");
		if (o->type != PTHREAD_MUTEX_NORMAL) return EPERM;
	}
	if (o->owner == self && --o->count > 0) return 0;
	o->owner = -1;
	return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
	if (!MANAGED) return 0;
	yield_();
	struct obj *o = find(m, MUTEX);
	if (!find(c, COND)->alive) bad("wait on a destroyed condition");
	if (o->owner != self) bad("wait without holding the mutex");
	o->owner = -1;
	T[self].state = VS_COND;
	T[self].obj = c;
	T[self].mtx = m;
	T[self].timed = timed;
	T[self].fired = false;
	yield_();
	acquire(m);
	return timed && !T[self].fired ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return cwait(c, m, true); }
static int wake(pthread_cond_t *c, bool all)
{
	if (!MANAGED) return 0;
	yield_();
	if (!find(c, COND)->alive) bad("signal of a destroyed condition");
	int a[VS_MAX], n = 0;
	signed char cost[VS_MAX] = {0};
	for (int i = 0; i < nth; i++)
		if (T[i].state == VS_COND && T[i].obj == c) a[n++] = i;
	if (!n) return 0;
	if (!all) { a[0] = a[choose(n, cost)]; n = 1; }
	for (int i = 0; i < n; i++) {
		T[a[i]].state = VS_MUTEX;
		T[a[i]].obj = T[a[i]].mtx;
		T[a[i]].fired = true;
	}
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return wake(c, true); }

int __wrap_pthread_attr_init(pthread_attr_t *a)
{
	if (fails("attr_init")) return ENOMEM;
	born(a, ATTR, 0);
	return __real_pthread_attr_init(a);
}
int __wrap_pthread_attr_destroy(pthread_attr_t *a)
{
	dead(a, ATTR);
	return __real_pthread_attr_destroy(a);
}
/* thread identifiers handed out are 1000 + number */
int __wrap_pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	(void) a;
	if (MANAGED) yield_();
	if (fails("create")) {
		*id = 4242;
		return EAGAIN;
	}
	if (nth >= VS_MAX) abort();
	int i = nth++;
	T[i].dyn = true;
	T[i].fn = fn;
	T[i].arg = arg;
	T[i].joined = false;
	T[i].state = VS_READY;
	*id = (pthread_t) (1000 + i);
	return 0;
}
int __wrap_pthread_join(pthread_t id, void **ret)
{
	long i = (long) id - 1000;
	if (MANAGED) yield_();
	if (i < 0 || i >= nth || !T[i].dyn) { bad("join of a thread that was never started"); return ESRCH; }
	if (T[i].joined) { bad("join of a thread twice"); return EINVAL; }
	if (fails("join")) return EINVAL;
	if (!MANAGED) { if (T[i].state != VS_DONE) bad("join outside a run"); }
	else if (T[i].state != VS_DONE) {
		T[self].state = VS_JOIN;
		T[self].obj = (void *) i;
		yield_();
		T[self].state = VS_READY;
	}
	T[i].joined = true;
	if (ret) *ret = T[i].ret;
	return 0;
}
int __wrap_pthread_detach(pthread_t id)
{
	long i = (long) id - 1000;
	if (i < 0 || i >= nth) { bad("detach of a thread that was never started"); return ESRCH; }
	T[i].joined = true;
	return 0;
}
int __wrap_sched_yield(void) { vs_point(); return 0; }

/* ------------------------------------------------------------ instrumentation */
static inline void acc(const volatile void *p)
{
	if (!in_run || self < 0) return;
	if ((char *) p >= T[self].lo && (char *) p < T[self].hi) return;
	yield_();
}
#include "tsanstub.h"
