/* Drives sc_queue for every element type (see array_drv.c for the encoding). */
#include "vf.h"
#ifdef VF_QUEUE_MAX
#define SC_QUEUE_MAX VF_QUEUE_MAX
#endif
#include <stdbool.h>
#include "sc_queue.h"

struct big { unsigned char b[41]; };
sc_queue_def(char, chr);
sc_queue_def(short, short);
sc_queue_def(struct big, big);

static void enc(int x, void *p, size_t n)
{
	unsigned char *b = p;
	uint32_t s = (uint32_t) x;
	for (size_t i = 0; i < n; i++) {
		b[i] = (unsigned char) (i == 0 ? x : i == 1 ? x >> 8 : (s = s * 1103515245u + 12345u) >> 16);
	}
}
static int dec(const void *p, size_t n)
{
	const unsigned char *b = p;
	unsigned char t[64];
	int x = b[0] | (n > 1 ? b[1] << 8 : 0);
	enc(x, t, n);
	return memcmp(t, b, n) == 0 ? x : -1;
}

struct ops {
	const char *name;
	void (*init)(void), (*term)(void), (*clear)(void), (*dump)(void);
	void (*addl)(int x), (*addf)(int x);
	int (*dell)(void), (*delf)(void);
	size_t (*size)(void);
	bool (*oom)(void), (*empty)(void);
	int (*at)(size_t i);
	int (*adde)(size_t i, bool last);
	void (*scan)(int lim);
};

#define VARIANT(name, T)                                                       \
	static struct sc_queue_##name q_##name;                                \
	static void in_##name(void) { API(sc_queue_init(&q_##name)); }          \
	static void te_##name(void) { API(sc_queue_term(&q_##name)); }          \
	static void cl_##name(void) { sc_queue_clear(&q_##name); }             \
	static void al_##name(int x) { T v; enc(x, &v, sizeof(T)); API(sc_queue_add_last(&q_##name, v)); } \
	static void af_##name(int x) { T v; enc(x, &v, sizeof(T)); API(sc_queue_add_first(&q_##name, v)); } \
	static int dl_##name(void) { T v = sc_queue_del_last(&q_##name); return dec(&v, sizeof(T)); } \
	static int df_##name(void) { T v = sc_queue_del_first(&q_##name); return dec(&v, sizeof(T)); } \
	static size_t si_##name(void) { return sc_queue_size(&q_##name); }     \
	static bool oo_##name(void) { return sc_queue_oom(&q_##name); }        \
	static bool em_##name(void) { return sc_queue_empty(&q_##name); }      \
	static int at_##name(size_t i) { T v = sc_queue_at(&q_##name, i); return dec(&v, sizeof(T)); } \
	static int ae_##name(size_t i, bool last)                              \
	{                                                                      \
		T v = sc_queue_at(&q_##name, i);                               \
		if (last) API(sc_queue_add_last(&q_##name, sc_queue_at(&q_##name, i))); \
		else API(sc_queue_add_first(&q_##name, v));                    \
		return dec(&v, sizeof(T));                                     \
	}                                                                      \
	/* the first lim elements with an even id, each with the place where an inner loop finds it first; \
	 * then the elements by index variables */                             \
	static void sc_##name(int lim)                                         \
	{                                                                      \
		T v; T w; int n = 0; long k;                                   \
		ev_arr_begin("res");                                           \
		sc_queue_foreach (&q_##name, v) {                              \
			if (dec(&v, sizeof(T)) & 1) continue;                  \
			k = 0;                                                 \
			sc_queue_foreach (&q_##name, w) {                      \
				if (memcmp(&v, &w, sizeof(T)) == 0) break;     \
				k++;                                           \
			}                                                      \
			ev_item_int(dec(&v, sizeof(T)));                       \
			ev_item_int(k);                                        \
			if (++n == lim) break;                                 \
		}                                                              \
		ev_arr_end();                                                  \
		ev_arr_begin("walk");                                          \
		k = 0;                                                         \
		for (size_t i = sc_queue_first(&q_##name); i != sc_queue_last(&q_##name); i = sc_queue_next(&q_##name, i)) { \
			v = q_##name.elems[i];                                 \
			ev_item_int(dec(&v, sizeof(T)));                       \
			if (++k > 100000) break;                               \
		}                                                              \
		ev_arr_end();                                                  \
	}                                                                      \
	static void du_##name(void)                                            \
	{                                                                      \
		T v; long lim = 100000;                                         \
		ev_arr_begin("each");                                          \
		sc_queue_foreach (&q_##name, v) {                              \
			if (--lim < 0) break;                                  \
			ev_item_int(dec(&v, sizeof(T)));                       \
		}                                                              \
		ev_arr_end();                                                  \
		if (!sc_queue_empty(&q_##name)) {                              \
			v = sc_queue_peek_first(&q_##name);                    \
			ev_int("first", dec(&v, sizeof(T)));                   \
			v = sc_queue_peek_last(&q_##name);                     \
			ev_int("last", dec(&v, sizeof(T)));                    \
		} else {                                                       \
			ev_int("first", 0);                                    \
			ev_int("last", 0);                                     \
		}                                                              \
	}

#define TYPES(X)                                                               \
	X(int, int) X(uint, unsigned int) X(long, long) X(ll, long long)       \
	X(ulong, unsigned long) X(ull, unsigned long long) X(32, uint32_t)     \
	X(64, uint64_t) X(double, double) X(str, const char *) X(ptr, void *)  \
	X(chr, char) X(short, short) X(big, struct big)
TYPES(VARIANT)
#define ROW(n, T) {#n, in_##n, te_##n, cl_##n, du_##n, al_##n, af_##n, dl_##n, df_##n, si_##n, oo_##n, em_##n, at_##n, ae_##n, sc_##n},
static struct ops all[] = {TYPES(ROW)};

int main(void)
{
	struct ops *o = NULL;
	bool up = false;
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) {
			for (size_t i = 0; i < sizeof(all) / sizeof(*all); i++) {
				if (strcmp(all[i].name, vf_tok[1]) == 0) o = &all[i];
			}
			vf_reset_live();
			vf_arm(0);
			up = false;
			ev_begin("begin");
			ev_str("type", o->name);
#ifdef VF_QUEUE_MAX
			ev_int("room", (long) SC_QUEUE_MAX);
#else
			ev_int("room", 0);
#endif
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			vf_arm(vf_u64(1));
			continue;
		}
		if (vf_is("end")) {
			if (up) {
				o->term();
				ev_begin("term");
				ev_end();
				up = false;
			}
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		if (vf_is("init") && up) continue;
		if (vf_is("init")) {
			ev_begin("init");
			o->init();
			up = !o->oom();
			ev_bool("oom", o->oom());
			ev_bool("failed", vf_failed);
			ev_end();
			if (!up) { /* term after a failed init is harmless */
				o->term();
			}
			vf_arm(0);
			continue;
		}
		if (!up) continue;
		if (vf_is("term")) {
			o->term();
			up = false;
			ev_begin("term");
			ev_end();
			continue;
		}
		if ((vf_is("dell") || vf_is("delf") || vf_is("addel") || vf_is("addef")) && o->empty()) continue; /* undefined on empty */
		ev_begin(vf_tok[0]);
		if (vf_is("addl") || vf_is("addf")) {
			vf_is("addl") ? o->addl((int) vf_int(1)) : o->addf((int) vf_int(1));
			ev_int("x", vf_int(1));
			ev_bool("oom", o->oom());
			ev_bool("failed", vf_failed);
		} else if (vf_is("dell") || vf_is("delf")) {
			ev_int("ret", vf_is("dell") ? o->dell() : o->delf());
		} else if (vf_is("addel") || vf_is("addef")) {
			long i = vf_int(1) % (long) o->size();
			ev_int("i", i);
			ev_int("x", o->adde((size_t) i, vf_is("addel")));
			ev_bool("oom", o->oom());
			ev_bool("failed", vf_failed);
		} else if (vf_is("fill")) {
			for (long i = 0; i < vf_int(1); i++) o->addl((int) (i % vf_int(2)) + 1);
			ev_int("n", vf_int(1));
			ev_int("m", vf_int(2));
		} else if (vf_is("drain")) { /* n from the front */
			long bad = 0;
			ev_int("n", vf_int(1));
			for (long i = 0; i < vf_int(1); i++) {
				int x = o->at(0);
				if (o->empty() || o->delf() != x) bad++;
			}
			ev_int("bad", bad);
		} else if (vf_is("scan")) {
			ev_int("lim", vf_int(1));
			o->scan((int) vf_int(1));
		} else if (vf_is("clear")) {
			o->clear();
		} else if (vf_is("dump")) {
			ev_arr_begin("at");
			for (size_t i = 0; i < o->size() && i < 100000; i++) ev_item_int(o->at(i));
			ev_arr_end();
			o->dump();
		} else {
			_exit(96);
		}
		ev_int("sz", (long) o->size());
		ev_bool("empty", o->empty());
		ev_end();
		vf_arm(0);
	}
	return 0;
}
