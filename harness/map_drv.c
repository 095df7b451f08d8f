/* Drives every variant of the map through one command language. */
#include "vf.h"
#include "sc_map.h"

#define MAXID 4096
static int64_t keynum[MAXID];
static char *keystr[MAXID][2]; /* two equal copies, alternated */
static bool keyset[MAXID];
static int ids[MAXID], nids;
static unsigned alt;

static char valstr[MAXID][8];

/* value encodings: id -> V and back */
static int e_int(int v) { return v == 0 ? 0 : (v & 1) ? -v * 500009 : v * 500009; }
static int d_int(int x) { for (int i = 0; i < MAXID; i++) if (e_int(i) == x) return i; return -1; }
static long long e_ll(int v) { return v == 0 ? 0 : ((v & 1) ? -1LL : 1LL) * (long long) v * 1000000000039LL; }
static int d_ll(long long x) { for (int i = 0; i < MAXID; i++) if (e_ll(i) == x) return i; return -1; }
static uint32_t e_32(int v) { return (uint32_t) v * 1048583u; }
static int d_32(uint32_t x) { for (int i = 0; i < MAXID; i++) if (e_32(i) == x) return i; return -1; }
static uint64_t e_64(int v) { return (uint64_t) v * 0x0010000000400021ull; }
static int d_64(uint64_t x) { for (int i = 0; i < MAXID; i++) if (e_64(i) == x) return i; return -1; }
static void *e_v(int v) { return v == 0 ? NULL : (void *) valstr[v]; }
static int d_v(const void *x)
{
	if (x == NULL) return 0;
	ptrdiff_t d = (const char *) x - &valstr[0][0];
	if (d <= 0 || d >= (ptrdiff_t) sizeof(valstr) || d % 8) return -1;
	return (int) (d / 8);
}
static const char *e_s(int v) { return (const char *) e_v(v); }
#define d_s d_v

static int64_t k_num(int id) { return keynum[id]; }
static const char *k_str(int id)
{
	if (id == 0) return NULL;
	return keystr[id][alt++ & 1];
}
static int kd_num64(int64_t k)
{
	for (int i = 0; i < nids; i++) if (keynum[ids[i]] == k) return ids[i];
	return -1;
}
static int kd_int(int k)
{
	for (int i = 0; i < nids; i++) if ((int) keynum[ids[i]] == k) return ids[i];
	return -1;
}
static int kd_u32(uint32_t k)
{
	for (int i = 0; i < nids; i++) if ((uint32_t) keynum[ids[i]] == k) return ids[i];
	return -1;
}
static int kd_u64(uint64_t k) { return kd_num64((int64_t) k); }
static int kd_str(const char *s)
{
	if (s == NULL) return 0;
	for (int i = 0; i < nids; i++) if (ids[i] && strcmp(keystr[ids[i]][0], s) == 0) return ids[i];
	return -1;
}

struct ops {
	const char *name;
	bool strkey;
	bool (*init)(uint32_t cap, uint32_t lf);
	void (*term)(void);
	long (*size)(void);
	void (*clear)(void);
	int (*put)(int k, int v);
	int (*get)(int k);
	int (*del)(int k);
	bool (*found)(void);
	bool (*oom)(void);
	void (*each)(void);
	void (*scan)(int lim);
	int (*other)(int k);
	void (*bulk)(uint32_t lf, long n, long a);
};

/* bulk: n keys at once, results as counts; the value of key i is i + 1, then 2i + 1 */
static int64_t *bnum;
static char **bstr;
static unsigned char *bseen;
#define BK_k_num(i) bnum[i]
#define BK_k_str(i) bstr[i]

#define VARIANT(name, K, V, ek, dk, ev_, dv)                                    \
	static struct sc_map_##name m_##name;                                  \
	static bool ix_##name(uint32_t cap, uint32_t lf)                        \
	{ bool r; API(r = sc_map_init_##name(&m_##name, cap, lf)); return r; } \
	static void tx_##name(void) { API(sc_map_term_##name(&m_##name)); }      \
	static long sx_##name(void) { return sc_map_size_##name(&m_##name); }    \
	static void cx_##name(void) { API(sc_map_clear_##name(&m_##name)); }     \
	static int px_##name(int k, int v)                                      \
	{ V r; K kk = (K) ek(k); V vv = ev_(v);                                 \
	  API(r = sc_map_put_##name(&m_##name, kk, vv)); return dv(r); }        \
	static int gx_##name(int k)                                             \
	{ V r; K kk = (K) ek(k);                                                \
	  API(r = sc_map_get_##name(&m_##name, kk)); return dv(r); }            \
	static int dx_##name(int k)                                             \
	{ V r; K kk = (K) ek(k);                                                \
	  API(r = sc_map_del_##name(&m_##name, kk)); return dv(r); }            \
	static bool fx_##name(void) { return sc_map_found(&m_##name); }          \
	static bool ox_##name(void) { return sc_map_oom(&m_##name); }            \
	static void ex_##name(void)                                             \
	{                                                                      \
		K k; V v; long lim = 20000;                                    \
		ev_arr_begin("items");                                         \
		sc_map_foreach (&m_##name, k, v) {                             \
			if (--lim < 0) break;                                  \
			ev_item_raw_begin();                                   \
			vf_raw("[%d,%d]", dk(k), dv(v));                       \
		}                                                              \
		ev_arr_end();                                                  \
		lim = 20000;                                                   \
		ev_arr_begin("ks");                                            \
		sc_map_foreach_key (&m_##name, k) {                            \
			if (--lim < 0) break;                                  \
			ev_item_int(dk(k));                                    \
		}                                                              \
		ev_arr_end();                                                  \
		lim = 20000;                                                   \
		ev_arr_begin("vs");                                            \
		sc_map_foreach_value (&m_##name, v) {                          \
			if (--lim < 0) break;                                  \
			ev_item_int(dv(v));                                    \
		}                                                              \
		ev_arr_end();                                                  \
	}                                                                      \
	/* iterations left early, nested, with continue */                     \
	static void nx_##name(int lim)                                         \
	{                                                                      \
		K k; K k2; V v; int n = 0, in = 0;                             \
		ev_arr_begin("items");                                         \
		sc_map_foreach (&m_##name, k, v) {                             \
			if (dv(v) & 1) continue;                               \
			in = 0;                                                \
			sc_map_foreach_key (&m_##name, k2) { if (++in == 3) break; } \
			ev_item_raw_begin();                                   \
			vf_raw("[%d,%d]", dk(k), dv(v));                       \
			if (++n == lim) break;                                 \
		}                                                              \
		ev_arr_end();                                                  \
		ev_int("inner", in);                                           \
		n = 0;                                                         \
		ev_arr_begin("ks");                                            \
		sc_map_foreach_key (&m_##name, k) {                            \
			if (dk(k) & 1) continue;                               \
			ev_item_int(dk(k));                                    \
			if (++n == lim) break;                                 \
		}                                                              \
		ev_arr_end();                                                  \
		n = 0;                                                         \
		ev_arr_begin("vs");                                            \
		sc_map_foreach_value (&m_##name, v) {                          \
			if (dv(v) & 1) continue;                               \
			ev_item_int(dv(v));                                    \
			if (++n == lim) break;                                 \
		}                                                              \
		ev_arr_end();                                                  \
	}                                                                      \
	/* another map of the same type: what it holds has nothing to do with the first */ \
	static int hx_##name(int id)                                           \
	{                                                                      \
		struct sc_map_##name o; int bad = 0; V r; K k = (K) ek(id);     \
		if (!sc_map_init_##name(&o, 0, 0)) return 1;                   \
		sc_map_get_##name(&o, k); bad |= sc_map_found(&o) ? 2 : 0;     \
		sc_map_clear_##name(&o);                                       \
		sc_map_del_##name(&o, k); bad |= sc_map_found(&o) ? 4 : 0;     \
		r = sc_map_put_##name(&o, k, ev_(4000)); bad |= sc_map_found(&o) || dv(r) != 0 ? 8 : 0; \
		r = sc_map_get_##name(&o, k); bad |= !sc_map_found(&o) || dv(r) != 4000 ? 16 : 0; \
		bad |= sc_map_size_##name(&o) != 1 ? 32 : 0;                   \
		sc_map_term_##name(&o);                                        \
		return bad;                                                    \
	} \
	static void bx_##name(uint32_t lf, long n, long a) \
	{ \
		struct sc_map_##name o; long f = 0, g = 0, w = 0, c = 0, d = 0; K k; V v; V r; \
		if (!sc_map_init_##name(&o, 0, lf)) abort(); \
		for (long i = 0, j = 0; i < n; i++, j = (j + a) % n) { \
			sc_map_put_##name(&o, (K) BK_##ek(j), (V) (intptr_t) (j + 1)); \
			f += sc_map_found(&o); g += sc_map_oom(&o); \
		} \
		vf_raw(",\"put\":[%ld,%ld,%ld]", f, g, (long) sc_map_size_##name(&o)); \
		f = g = 0; \
		for (long i = 0; i < n + 500; i++) { \
			r = sc_map_get_##name(&o, (K) BK_##ek(i)); \
			if (i >= n) f += sc_map_found(&o); \
			else g += sc_map_found(&o) && r == (V) (intptr_t) (i + 1); \
		} \
		vf_raw(",\"get\":[%ld,%ld]", g, f); \
		memset(bseen, 0, (size_t) n + 2); \
		sc_map_foreach (&o, k, v) { \
			long i = (long) (intptr_t) v - 1; \
			if (++c > 2 * n + 10) break; \
			if (i >= 0 && i < n && k == (K) BK_##ek(i) && !bseen[i]) { bseen[i] = 1; d++; } \
		} \
		vf_raw(",\"each\":[%ld,%ld]", c, d); \
		f = g = 0; \
		for (long i = 0; i < n; i += 3) { \
			r = sc_map_del_##name(&o, (K) BK_##ek(i)); \
			f += sc_map_found(&o) && r == (V) (intptr_t) (i + 1); \
			r = sc_map_del_##name(&o, (K) BK_##ek(i)); \
			g += sc_map_found(&o); \
		} \
		vf_raw(",\"del\":[%ld,%ld,%ld]", f, g, (long) sc_map_size_##name(&o)); \
		f = g = 0; \
		for (long i = 0; i < n; i++) { \
			r = sc_map_get_##name(&o, (K) BK_##ek(i)); \
			if (i % 3 == 0) f += sc_map_found(&o); \
			else g += sc_map_found(&o) && r == (V) (intptr_t) (i + 1); \
		} \
		vf_raw(",\"left\":[%ld,%ld]", g, f); \
		f = g = 0; \
		for (long i = 0; i < n; i++) { \
			r = sc_map_put_##name(&o, (K) BK_##ek(i), (V) (intptr_t) (2 * i + 1)); \
			f += sc_map_found(&o) && r == (V) (intptr_t) (i + 1); \
			g += !sc_map_found(&o) && r == 0; \
		} \
		for (long i = 0; i < n; i++) w += sc_map_get_##name(&o, (K) BK_##ek(i)) == (V) (intptr_t) (2 * i + 1); \
		vf_raw(",\"again\":[%ld,%ld,%ld,%ld]", f, g, w, (long) sc_map_size_##name(&o)); \
		sc_map_clear_##name(&o); \
		f = c = 0; \
		for (long i = 0; i < n; i++) { sc_map_get_##name(&o, (K) BK_##ek(i)); f += sc_map_found(&o); } \
		sc_map_foreach (&o, k, v) c++; \
		vf_raw(",\"clear\":[%ld,%ld,%ld]", f, c, (long) sc_map_size_##name(&o)); \
		sc_map_term_##name(&o); \
	}

VARIANT(int, int, int, k_num, kd_int, e_int, d_int)
VARIANT(intv, int, void *, k_num, kd_int, e_v, d_v)
VARIANT(ints, int, const char *, k_num, kd_int, e_s, d_s)
VARIANT(ll, long long, long long, k_num, kd_num64, e_ll, d_ll)
VARIANT(llv, long long, void *, k_num, kd_num64, e_v, d_v)
VARIANT(lls, long long, const char *, k_num, kd_num64, e_s, d_s)
VARIANT(32, uint32_t, uint32_t, k_num, kd_u32, e_32, d_32)
VARIANT(64, uint64_t, uint64_t, k_num, kd_u64, e_64, d_64)
VARIANT(64v, uint64_t, void *, k_num, kd_u64, e_v, d_v)
VARIANT(64s, uint64_t, const char *, k_num, kd_u64, e_s, d_s)
VARIANT(str, const char *, const char *, k_str, kd_str, e_s, d_s)
VARIANT(sv, const char *, void *, k_str, kd_str, e_v, d_v)
VARIANT(s64, const char *, uint64_t, k_str, kd_str, e_64, d_64)
VARIANT(sll, const char *, long long, k_str, kd_str, e_ll, d_ll)

#define OPS(n, s) {#n, s, ix_##n, tx_##n, sx_##n, cx_##n, px_##n, gx_##n, dx_##n, fx_##n, ox_##n, ex_##n, nx_##n, hx_##n, bx_##n}
static struct ops all[] = {
	OPS(int, 0), OPS(intv, 0), OPS(ints, 0), OPS(ll, 0), OPS(llv, 0), OPS(lls, 0), OPS(32, 0), OPS(64, 0),
	OPS(64v, 0), OPS(64s, 0), OPS(str, 1), OPS(sv, 1), OPS(s64, 1), OPS(sll, 1)};

int main(void)
{
	struct ops *o = NULL;
	bool up = false;
	vf_init();
	vf_bigalloc = (size_t) 256 << 20;

	while (vf_next()) {
		if (vf_is("begin")) { /* begin variant id=key ... */
			for (size_t i = 0; i < sizeof(all) / sizeof(*all); i++) {
				if (strcmp(all[i].name, vf_tok[1]) == 0) o = &all[i];
			}
			for (int i = 0; i < nids; i++) {
				if (keystr[ids[i]][0]) {
					free(keystr[ids[i]][0]);
					free(keystr[ids[i]][1]);
					keystr[ids[i]][0] = keystr[ids[i]][1] = NULL;
				}
			}
			nids = 0;
			alt = 0;
			keynum[0] = 0;
			ids[nids++] = 0;
			for (int i = 2; i < vf_ntok; i++) {
				char *eq = strchr(vf_tok[i], '=');
				*eq = 0;
				int id = atoi(vf_tok[i]);
				char *sv = vf_tok[i];
				vf_tok[i] = eq + 1;
				if (o->strkey) {
					keystr[id][0] = vf_hex(i, NULL);
					keystr[id][1] = vf_hex(i, NULL);
				} else {
					keynum[id] = vf_i64(i);
				}
				vf_tok[i] = sv;
				ids[nids++] = id;
			}
			vf_reset_live();
			up = false;
			vf_arm(0);
			ev_begin("begin");
			ev_str("variant", o->name);
			ev_end();
			continue;
		}
		if (vf_is("fail")) { /* fail mask: applies to the next call */
			vf_arm(vf_u64(1));
			continue;
		}
		if (vf_is("end")) {
			if (up) {
				o->term();
				ev_begin("term");
				ev_end();
			}
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			up = false;
			continue;
		}
		if (vf_is("bulk")) { /* bulk LF N ORDER MUL BASE */
			long n = vf_int(2);
			int64_t mul = vf_i64(4), base = vf_i64(5);
			bnum = malloc(sizeof(*bnum) * (size_t) (n + 500));
			bstr = malloc(sizeof(*bstr) * (size_t) (n + 500));
			bseen = malloc((size_t) n + 2);
			for (long i = 0; i < n + 500; i++) {
				char t[48];
				bnum[i] = (int64_t) ((uint64_t) base + (uint64_t) i * (uint64_t) mul);
				sprintf(t, "%ld.%lx", i, (long) mul);
				bstr[i] = i || base ? strdup(t) : NULL;
			}
			ev_begin("bulk");
			ev_int("n", n);
			o->bulk((uint32_t) vf_u64(1), n, vf_int(3));
			ev_end();
			for (long i = 0; i < n + 500; i++) free(bstr[i]);
			free(bnum);
			free(bstr);
			free(bseen);
			continue;
		}
		if (vf_is("init") && up) continue;
		if (vf_is("init")) {
			uint32_t cap = (uint32_t) vf_u64(1), lf = (uint32_t) vf_u64(2);
			bool r = o->init(cap, lf);
			ev_begin("init");
			ev_int("lf", lf > 1000 ? 1000 : lf);
			ev_bool("big", cap > 0x40000000u);
			ev_bool("ok", r);
			ev_bool("failed", vf_failed);
			up = r;
			ev_int("sz", r ? o->size() : 0);
			ev_end();
			vf_arm(0);
			continue;
		}
		if (!up) continue;
		if (vf_is("put")) {
			int k = (int) vf_int(1), v = (int) vf_int(2);
			int r = o->put(k, v);
			ev_begin("put");
			ev_int("k", k);
			ev_int("v", v);
			ev_int("ret", r);
			ev_bool("found", o->found());
			ev_bool("oom", o->oom());
			ev_bool("failed", vf_failed);
		} else if (vf_is("get") || vf_is("del")) {
			int k = (int) vf_int(1);
			bool g = vf_is("get");
			int r = g ? o->get(k) : o->del(k);
			ev_begin(g ? "get" : "del");
			ev_int("k", k);
			ev_int("ret", r);
			ev_bool("found", o->found());
		} else if (vf_is("clear")) {
			o->clear();
			ev_begin("clear");
		} else if (vf_is("each")) {
			ev_begin("each");
			o->each();
		} else if (vf_is("scan")) {
			ev_begin("scan");
			ev_int("lim", vf_int(1));
			o->scan((int) vf_int(1));
		} else if (vf_is("other")) {
			vf_arm(0);
			int bad;
			API(bad = o->other((int) vf_int(1)));
			ev_begin("other");
			ev_int("bad", bad);
		} else if (vf_is("gets")) {
			for (int i = 0; i < nids; i++) {
				int r = o->get(ids[i]);
				ev_begin("get");
				ev_int("k", ids[i]);
				ev_int("ret", r);
				ev_bool("found", o->found());
				if (i < nids - 1) {
					ev_int("sz", o->size());
					ev_end();
				}
			}
		} else if (vf_is("term")) {
			o->term();
			up = false;
			ev_begin("term");
			ev_end();
			vf_arm(0);
			continue;
		} else {
			_exit(96);
		}
		ev_int("sz", o->size());
		ev_end();
		vf_arm(0);
	}
	return 0;
}
