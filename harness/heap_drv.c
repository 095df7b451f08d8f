/* Drives sc_heap.  Keys are ranks into a per-chunk sorted table of 64-bit keys;
 * the data pointer stands for the entry's id. */
#include "vf.h"
#include "sc_heap.h"

static int64_t keys[VF_MAXTOK];
static int nkeys;
static char base[1 << 16];

static int rank(int64_t k)
{
	for (int i = 1; i <= nkeys; i++) if (keys[i] == k) return i;
	return -2;
}
static void put_entry(struct sc_heap_data *d)
{
	ptrdiff_t id;
	if (d == NULL) {
		ev_int("k", -1);
		ev_int("id", -1);
		return;
	}
	id = (char *) d->data - base;
	ev_int("k", rank(d->key));
	ev_int("id", id >= 0 && id < (ptrdiff_t) sizeof(base) ? (long) id : -2);
}

/* pops n entries, writes their keys as runs of consecutive numbers */
static bool take(struct sc_heap *h, const char *k, long n, int64_t off)
{
	bool ok = true;
	long lo = 0, hi = -1, runs = 0;
	struct sc_heap_data *d;
	vf_raw(",\"%s\":[", k);
	for (long i = 0; i <= n; i++) {
		d = NULL;
		if (i < n) {
			API(d = sc_heap_pop(h));
			if (!d) { ok = false; i = n; }
			else if (d->data != (void *) (intptr_t) (d->key + off + 1)) ok = false;
		}
		if (d && hi >= lo && d->key + off == hi + 1) { hi++; continue; }
		if (hi >= lo && runs++ < 20) vf_raw(runs > 1 ? ",[%ld,%ld]" : "[%ld,%ld]", lo, hi);
		if (d) lo = hi = (long) (d->key + off);
	}
	vf_raw("]");
	return ok;
}

int main(void)
{
	struct sc_heap h;
	bool up = false;
	vf_init();
	vf_bigalloc = (size_t) 1 << 30;
	while (vf_next()) {
		if (vf_is("begin")) {
			nkeys = 0;
			for (int i = 1; i < vf_ntok; i++) keys[++nkeys] = vf_i64(i);
			vf_reset_live();
			vf_arm(0);
			up = false;
			ev_begin("begin");
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			vf_arm(vf_u64(1));
			continue;
		}
		if (vf_is("end")) {
			if (up) {
				API(sc_heap_term(&h));
				ev_begin("term");
				ev_end();
				up = false;
			}
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		if (vf_is("bulk")) { /* bulk CAP N STEP CUT: N distinct keys, CUT of them out and in again, all out */
			long n = vf_int(2), a = vf_int(3), cut = vf_int(4);
			int64_t off = n / 2;
			bool ok = true, r;
			struct sc_heap g;
			API(ok = sc_heap_init(&g, (size_t) vf_int(1)));
			ev_begin("bulk");
			ev_int("n", n);
			ev_int("cut", cut);
			for (long i = 0; i < n; i++) {
				int64_t k = (i * a) % n;
				API(r = sc_heap_add(&g, k - off, (void *) (intptr_t) (k + 1)));
				ok = ok && r;
			}
			ev_int("s1", (long) sc_heap_size(&g));
			ok = take(&g, "first", cut, off) && ok;
			ev_int("s2", (long) sc_heap_size(&g));
			for (long i = cut - 1; i >= 0; i--) {
				API(r = sc_heap_add(&g, i - off, (void *) (intptr_t) (i + 1)));
				ok = ok && r;
			}
			ev_int("s3", (long) sc_heap_size(&g));
			ok = take(&g, "rest", n, off) && ok;
			ev_int("s4", (long) sc_heap_size(&g));
			ev_bool("ok", ok);
			ev_end();
			API(sc_heap_term(&g));
			continue;
		}
		if (vf_is("init") && up) continue;
		if (vf_is("init")) {
			bool ok;
			size_t cap = vf_u64(1);
			API(ok = sc_heap_init(&h, cap));
			ev_begin("init");
			ev_bool("ok", ok);
			ev_bool("failed", vf_failed);
			ev_bool("big", cap > ((size_t) 1 << 24));
			up = ok;
			ev_int("sz", ok ? (long) sc_heap_size(&h) : 0);
			ev_end();
			vf_arm(0);
			continue;
		}
		if (!up) continue;
		if (vf_is("term")) {
			API(sc_heap_term(&h));
			up = false;
			ev_begin("term");
			ev_end();
			continue;
		}
		if (vf_is("drain")) {
			int lim = 20000;
			struct sc_heap_data *d;
			do {
				API(d = sc_heap_peek(&h));
				ev_begin("peek");
				put_entry(d);
				ev_int("sz", (long) sc_heap_size(&h));
				ev_end();
				API(d = sc_heap_pop(&h));
				ev_begin("pop");
				put_entry(d);
				ev_int("sz", (long) sc_heap_size(&h));
				ev_end();
			} while (d != NULL && --lim > 0);
			continue;
		}
		ev_begin(vf_tok[0]);
		if (vf_is("add")) {
			bool ok;
			API(ok = sc_heap_add(&h, keys[vf_int(1)], base + vf_int(2)));
			ev_int("k", vf_int(1));
			ev_int("id", vf_int(2));
			ev_bool("ok", ok);
			ev_bool("failed", vf_failed);
		} else if (vf_is("peek") || vf_is("pop")) {
			struct sc_heap_data *d;
			API(d = vf_is("peek") ? sc_heap_peek(&h) : sc_heap_pop(&h));
			put_entry(d);
		} else if (vf_is("clear")) {
			API(sc_heap_clear(&h));
		} else {
			_exit(96);
		}
		ev_int("sz", (long) sc_heap_size(&h));
		ev_end();
		vf_arm(0);
	}
	return 0;
}
