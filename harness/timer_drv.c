/* Drives sc_timer.  Times in commands are offsets from the chunk's origin. */
#include "vf.h"
#include "sc_timer.h"

#define MAXN 20000
static struct sc_timer t;
static uint64_t origin;
static uint64_t ids[MAXN];
static bool livet[MAXN];   /* added and neither fired, cancelled nor cleared */
static uint64_t due[MAXN];
static char base[MAXN];
static char argobj;
static bool inpoll;
static int depth;

/* actions to run inside the callback of serial n */
struct act { int n; char op; int a; uint64_t b; bool done; };
static struct act acts[4000];
static int nacts;

static uint64_t typeof_n(long n) { return (uint64_t) n * 0x9E3779B97F4A7C15ull; }

/* 64-bit time as three limbs of 22 bits */
static void ev_time(const char *k, uint64_t v)
{
	ev_arr_begin(k);
	ev_item_int((long) (v >> 44));
	ev_item_int((long) (v >> 22 & 0x3fffff));
	ev_item_int((long) (v & 0x3fffff));
	ev_arr_end();
}

/* a bulk of timers added one after the other with one timeout: serials are -B in the log */
#define BULKS 4
#define BMAX 140000
static uint64_t *bids[BULKS];
static char *bst[BULKS]; /* 1 pending, 0 not */
static long bn[BULKS];
static struct { int b; long k; uint64_t due; bool ok; } run;
static void flush(void)
{
	if (!run.k) return;
	ev_begin("fires");
	ev_int("n", -1 - run.b);
	ev_int("k", run.k);
	ev_time("due", run.due - origin);
	ev_bool("ok", run.ok);
	ev_end();
	run.k = 0;
}
static void do_add(int n, uint64_t T)
{
	char b[40];
	uint64_t id;
	API(id = sc_timer_add(&t, T, typeof_n(n), base + n));
	bool ok = id != SC_TIMER_INVALID;
	ids[n] = id;
	livet[n] = ok;
	ev_begin("add");
	ev_int("n", n);
	ev_time("t", T);
	ev_time("top", UINT64_MAX - 1 - origin);
	snprintf(b, sizeof(b), "%" PRIx64, id);
	ev_str("id", b);
	ev_bool("ok", ok);
	ev_bool("failed", vf_failed);
	ev_end();
}

static void do_cancel(int n)
{
	if (!livet[n]) return;
	livet[n] = false;
	API(sc_timer_cancel(&t, &ids[n]));
	ev_begin("cancel");
	ev_int("n", n);
	ev_bool("inv", ids[n] == SC_TIMER_INVALID);
	ev_end();
}

static void do_clear(bool term)
{
	if (term) {
		API(sc_timer_term(&t));
	} else {
		API(sc_timer_clear(&t));
	}
	memset(livet, 0, sizeof(livet));
	for (int b = 0; b < BULKS; b++) for (long i = 0; i < bn[b]; i++) bst[b][i] = 0;
	flush();
	ev_begin(term ? "term" : "clear");
	ev_end();
}

static int cmpid(const void *a, const void *b) { uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b; return x < y ? -1 : x > y; }
static void bulk(int b, long cnt, uint64_t T)
{
	bool ok = true, distinct = true;
	if (!bids[b]) bids[b] = malloc(sizeof(uint64_t) * BMAX), bst[b] = malloc(BMAX);
	bn[b] = cnt;
	for (long i = 0; i < cnt; i++) {
		API(bids[b][i] = sc_timer_add(&t, T, typeof_n(i), bst[b] + i));
		ok = ok && bids[b][i] != SC_TIMER_INVALID;
		bst[b][i] = 1;
	}
	/* among all pending ones */
	static uint64_t all[BMAX * BULKS + MAXN];
	long n = 0;
	for (int c = 0; c < BULKS; c++) for (long i = 0; i < bn[c]; i++) if (bst[c][i]) all[n++] = bids[c][i];
	for (int i = 0; i < MAXN; i++) if (livet[i]) all[n++] = ids[i];
	qsort(all, (size_t) n, sizeof all[0], cmpid);
	for (long i = 1; i < n; i++) distinct = distinct && all[i] != all[i - 1];
	ev_begin("bulk");
	ev_int("n", -1 - b);
	ev_int("k", cnt);
	ev_time("t", T);
	ev_time("top", UINT64_MAX - 1 - origin);
	ev_bool("ok", ok && distinct);
	ev_end();
}

static void cb(void *arg, uint64_t timeout, uint64_t type, void *data)
{
	vf_track = 0;
	for (int b = 0; b < BULKS; b++) {
		if (!bids[b] || (char *) data < bst[b] || (char *) data >= bst[b] + bn[b]) continue;
		long i = (char *) data - bst[b];
		if (run.k && (run.b != b || run.due != timeout)) flush();
		if (!run.k) run.b = b, run.due = timeout, run.ok = true;
		run.k++;
		run.ok = run.ok && bst[b][i] && type == typeof_n(i) && arg == &argobj;
		bst[b][i] = 0;
		vf_track = 1;
		return;
	}
	flush();
	long n = (char *) data - base;
	if (n < 0 || n >= MAXN) n = -1;
	uint64_t off = timeout - origin;
	if (n >= 0) livet[n] = false;
	ev_begin("fire");
	ev_int("n", n);
	ev_time("due", off);
	ev_bool("typeok", n >= 0 && type == typeof_n(n));
	ev_bool("argok", arg == &argobj);
	ev_end();
	for (int i = 0; i < nacts; i++) {
		if (acts[i].n != n || acts[i].done) continue;
		acts[i].done = true;
		if (acts[i].op == 'a') do_add(acts[i].a, acts[i].b);
		else if (acts[i].op == 'c') do_cancel(acts[i].a);
		else if (acts[i].op == 'C') do_clear(false);
	}
	vf_track = 1;
}

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) { /* begin origin */
			origin = vf_u64(1);
			memset(livet, 0, sizeof(livet));
			nacts = 0;
			memset(bn, 0, sizeof bn);
			run.k = 0;
			vf_reset_live();
			vf_arm(0);
			sc_timer_init(&t, origin);
			ev_begin("begin");
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			vf_arm(vf_u64(1));
			continue;
		}
		if (vf_is("in")) { /* in n add m T | in n cancel m | in n clear */
			struct act *a = &acts[nacts++];
			a->n = (int) vf_int(1);
			a->done = false;
			a->op = strcmp(vf_tok[2], "add") == 0 ? 'a' : strcmp(vf_tok[2], "cancel") == 0 ? 'c' : 'C';
			a->a = a->op != 'C' ? (int) vf_int(3) : 0;
			a->b = a->op == 'a' ? vf_u64(4) : 0;
			continue;
		}
		if (vf_is("end")) {
			do_clear(true);
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		if (vf_is("add")) {
			do_add((int) vf_int(1), vf_u64(2));
		} else if (vf_is("cancel")) {
			do_cancel((int) vf_int(1));
		} else if (vf_is("bulk")) { /* bulk B N T */
			bulk((int) vf_int(1), vf_int(2), vf_u64(3));
		} else if (vf_is("bcancel")) { /* bcancel B FROM STEP: every STEPth of a bulk */
			int b = (int) vf_int(1);
			long k = 0;
			bool inv = true;
			for (long i = vf_int(2); i < bn[b]; i += vf_int(3)) {
				if (!bst[b][i]) continue;
				bst[b][i] = 0;
				k++;
				API(sc_timer_cancel(&t, &bids[b][i]));
				inv = inv && bids[b][i] == SC_TIMER_INVALID;
			}
			ev_begin("bcancel");
			ev_int("n", -1 - b);
			ev_int("k", k);
			ev_bool("inv", inv);
			ev_end();
		} else if (vf_is("cancelnone")) {
			uint64_t id = SC_TIMER_INVALID;
			API(sc_timer_cancel(&t, &id));
			ev_begin("cancelnone");
			ev_bool("inv", id == SC_TIMER_INVALID);
			ev_end();
		} else if (vf_is("clear") || vf_is("term")) {
			do_clear(vf_is("term"));
		} else if (vf_is("poll")) {
			uint64_t r, ts = vf_u64(1);
			ev_begin("poll");
			ev_time("ts", ts);
			ev_end();
			API(r = sc_timer_timeout(&t, origin + ts, &argobj, cb));
			flush();
			ev_begin("pollend");
			ev_int("ret", r > 1000000 ? 1000000 : (long) r);
			ev_end();
		} else {
			_exit(96);
		}
		vf_arm(0);
	}
	return 0;
}
