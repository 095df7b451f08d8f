/* Drives sc_array for every element type.  Element id x is encoded as a value
 * whose every byte depends on x, so a partial copy cannot decode. */
#include "vf.h"
#ifdef VF_ARRAY_MAX
#define SC_ARRAY_MAX VF_ARRAY_MAX
#endif
#include <assert.h>
#include <stdbool.h>
#include "sc_array.h"

struct big { unsigned char b[41]; };
sc_array_def(char, chr);
sc_array_def(short, short);
sc_array_def(struct big, big);

static void enc(int x, void *p, size_t n)
{
	unsigned char *b = p;
	uint32_t s = (uint32_t) x;
	for (size_t i = 0; i < n; i++) {
		b[i] = (unsigned char) (i == 0 ? x : i == 1 ? x >> 8 : (s = s * 1103515245u + 12345u) >> 16);
	}
}
static int dec(const void *p, size_t n)
{
	const unsigned char *b = p;
	unsigned char t[64];
	int x = b[0] | (n > 1 ? b[1] << 8 : 0);
	enc(x, t, n);
	return memcmp(t, b, n) == 0 ? x : -1;
}

struct ops {
	const char *name;
	size_t esz;
	void (*init)(void), (*term)(void), (*clear)(void), (*dell)(void), (*sort)(void), (*dump)(void);
	void (*add)(int x);
	void (*del)(size_t i, int style), (*delu)(size_t i, int style);
	int (*adde)(size_t i);
	void (*scan)(int lim);
	size_t (*size)(void);
	bool (*oom)(void);
	int (*at)(size_t i);
};

/* the same index written in different ways */
#define STYLES(M, SZ)                                                          \
	switch (st) {                                                          \
	case 0: M(arr, i); break;                                              \
	case 1: { size_t idx = i; M(arr, idx); break; }                        \
	case 2: { size_t back = SZ - i; M(arr, SZ - back); break; }            \
	case 3: { size_t j = i; M(arr, j++); if (j != i + 1) _exit(95); break; } \
	case 4: { int z = i == 0, j = (int) i; M(arr, z ? 0 : j); break; }     \
	default: { unsigned char j = (unsigned char) (i & 255), k = (unsigned char) ((i >> 8) & 255); if (i > 65535) M(arr, i); else M(arr, j | k << 8); break; } \
	}

#define VARIANT(name, T)                                                       \
	static struct sc_array_##name a_##name;                                \
	static int cmp_##name(const void *x, const void *y)                    \
	{ int p = dec(x, sizeof(T)) / 4, q = dec(y, sizeof(T)) / 4; return (p > q) - (p < q); } \
	static void in_##name(void) { sc_array_init(&a_##name); }              \
	static void te_##name(void) { API(sc_array_term(&a_##name)); }          \
	static void cl_##name(void) { sc_array_clear(&a_##name); }             \
	static void dl_##name(void) { sc_array_del_last(&a_##name); }          \
	static void so_##name(void) { sc_array_sort(&a_##name, cmp_##name); }  \
	static void ad_##name(int x) { T v; enc(x, &v, sizeof(T)); API(sc_array_add(&a_##name, v)); } \
	static void de_##name(size_t i, int st) { struct sc_array_##name *arr = &a_##name; STYLES(sc_array_del, sc_array_size(&a_##name)) } \
	static void du_##name(size_t i, int st) { struct sc_array_##name *arr = &a_##name; STYLES(sc_array_del_unordered, sc_array_size(&a_##name)) } \
	static int ae_##name(size_t i) { T v = sc_array_at(&a_##name, i); API(sc_array_add(&a_##name, sc_array_at(&a_##name, i))); return dec(&v, sizeof(T)); } \
	/* the first lim elements with an even id, each with the place where an inner loop finds it first */ \
	static void sc_##name(int lim)                                         \
	{                                                                      \
		T v; T w; int n = 0; long k;                                   \
		ev_arr_begin("res");                                           \
		sc_array_foreach (&a_##name, v) {                              \
			if (dec(&v, sizeof(T)) & 1) continue;                  \
			k = 0;                                                 \
			sc_array_foreach (&a_##name, w) {                      \
				if (memcmp(&v, &w, sizeof(T)) == 0) break;     \
				k++;                                           \
			}                                                      \
			ev_item_int(dec(&v, sizeof(T)));                       \
			ev_item_int(k);                                        \
			if (++n == lim) break;                                 \
		}                                                              \
		ev_arr_end();                                                  \
	}                                                                      \
	static size_t si_##name(void) { return sc_array_size(&a_##name); }     \
	static bool oo_##name(void) { return sc_array_oom(&a_##name); }        \
	static int at_##name(size_t i) { T v = sc_array_at(&a_##name, i); return dec(&v, sizeof(T)); } \
	static void du2_##name(void)                                           \
	{                                                                      \
		T v; long lim = 100000;                                        \
		ev_arr_begin("each");                                          \
		sc_array_foreach (&a_##name, v) {                              \
			if (--lim < 0) break;                                  \
			ev_item_int(dec(&v, sizeof(T)));                       \
		}                                                              \
		ev_arr_end();                                                  \
		if (sc_array_size(&a_##name) > 0) {                            \
			v = sc_array_last(&a_##name);                          \
			ev_int("last", dec(&v, sizeof(T)));                    \
		} else {                                                       \
			ev_int("last", 0);                                     \
		}                                                              \
	}

#define TYPES(X)                                                               \
	X(int, int) X(uint, unsigned int) X(long, long) X(ll, long long)       \
	X(ulong, unsigned long) X(ull, unsigned long long) X(32, uint32_t)     \
	X(64, uint64_t) X(double, double) X(str, const char *) X(ptr, void *)  \
	X(chr, char) X(short, short) X(big, struct big)
TYPES(VARIANT)
#define ROW(n, T) {#n, sizeof(T), in_##n, te_##n, cl_##n, dl_##n, so_##n, du2_##n, ad_##n, de_##n, du_##n, ae_##n, sc_##n, si_##n, oo_##n, at_##n},
static struct ops all[] = {TYPES(ROW)};

int main(void)
{
	struct ops *o = NULL;
	bool up = false;
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) {
			for (size_t i = 0; i < sizeof(all) / sizeof(*all); i++) {
				if (strcmp(all[i].name, vf_tok[1]) == 0) o = &all[i];
			}
			vf_reset_live();
			vf_arm(0);
			up = false;
			ev_begin("begin");
			ev_str("type", o->name);
#ifdef VF_ARRAY_MAX
			ev_int("room", (long) (SC_ARRAY_MAX / o->esz));
#else
			ev_int("room", 0);
#endif
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			vf_arm(vf_u64(1));
			continue;
		}
		if (vf_is("end")) {
			if (up) {
				o->term();
				ev_begin("term");
				ev_int("sz", (long) o->size());
				ev_end();
				up = false;
			}
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		/* indices are taken modulo the size (adds may have failed) */
		if ((vf_is("del") || vf_is("delu") || vf_is("dell") || vf_is("adde")) && o->size() == 0) continue;
		ev_begin(vf_tok[0]);
		if (vf_is("init")) {
			o->init();
			up = true;
		} else if (vf_is("add")) {
			o->add((int) vf_int(1));
			ev_int("x", vf_int(1));
			ev_bool("oom", o->oom());
			ev_bool("failed", vf_failed);
		} else if (vf_is("del") || vf_is("delu")) {
			long i = vf_int(1) % (long) o->size();
			int st = vf_ntok > 2 ? (int) vf_int(2) : 0;
			vf_is("del") ? o->del((size_t) i, st) : o->delu((size_t) i, st);
			ev_int("i", i);
		} else if (vf_is("adde")) {
			long i = vf_int(1) % (long) o->size();
			ev_int("i", i);
			ev_int("x", o->adde((size_t) i));
			ev_bool("oom", o->oom());
			ev_bool("failed", vf_failed);
		} else if (vf_is("fill")) {
			for (long i = 0; i < vf_int(1); i++) o->add((int) (i % vf_int(2)) + 1);
			ev_int("n", vf_int(1));
			ev_int("m", vf_int(2));
		} else if (vf_is("bulk")) {
			/* n elements added, one deleted, one deleted unordered, sorted, cleared, added again:
			 * how many are what they should be after each step */
			long n = vf_int(1), k = vf_int(2) % n, c;
#define ID(i) ((int) ((i) % 97) + 1)
			ev_int("n", n);
			ev_arr_begin("good");
			for (long i = 0; i < n; i++) o->add(ID(i));
			c = 0;
			for (long i = 0; i < n; i++) c += o->at((size_t) i) == ID(i);
			ev_item_int(c);
			o->del((size_t) k, 0);
			c = 0;
			for (long i = 0; i < n - 1; i++) c += o->at((size_t) i) == ID(i < k ? i : i + 1);
			ev_item_int(c);
			if (n > k + 1) {
				o->delu((size_t) k, 0);
				c = 1;
				for (long i = 0; i < n - 2; i++) c += o->at((size_t) i) == (i < k ? ID(i) : i == k ? ID(n - 1) : ID(i + 1));
			}
			ev_item_int(c);
			o->sort();
			c = 0;
			for (size_t i = 1; i < o->size(); i++) c += o->at(i - 1) / 4 <= o->at(i) / 4;
			ev_item_int(c);
			ev_item_int((long) o->size());
			o->clear();
			ev_item_int((long) o->size());
			for (long i = 0; i < n; i++) o->add(ID(i + 5));
			c = 0;
			for (long i = 0; i < n; i++) c += o->at((size_t) i) == ID(i + 5);
			ev_item_int(c);
			ev_item_int((long) o->size());
			o->clear();
			ev_arr_end();
			ev_bool("oom", o->oom());
		} else if (vf_is("scan")) {
			ev_int("lim", vf_int(1));
			o->scan((int) vf_int(1));
		} else if (vf_is("dell")) {
			o->dell();
		} else if (vf_is("clear")) {
			o->clear();
		} else if (vf_is("sort")) {
			o->sort();
			ev_arr_begin("res");
			for (size_t i = 0; i < o->size(); i++) ev_item_int(o->at(i));
			ev_arr_end();
		} else if (vf_is("dump")) {
			ev_arr_begin("at");
			for (size_t i = 0; i < o->size() && i < 100000; i++) ev_item_int(o->at(i));
			ev_arr_end();
			o->dump();
		} else if (vf_is("term")) {
			o->term();
			up = false;
		} else {
			_exit(96);
		}
		ev_int("sz", (long) o->size());
		ev_end();
		vf_arm(0);
	}
	return 0;
}
