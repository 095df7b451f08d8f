/* Drives sc_buf on two buffers. */
#include "vf.h"
#include "sc_buf.h"

static struct sc_buf b[2];
static bool up[2];
static void *own[2]; /* memory lent to a ref buffer */

#define BIG 1073741824ul
static long cut(uint64_t v) { return v > BIG ? (long) BIG : (long) v; }

static void state(void)
{
	static const char *names[] = {"rp", "wp", "cap", "sz", "quota"};
	for (int f = 0; f < 5; f++) {
		ev_arr_begin(names[f]);
		for (int i = 0; i < 2; i++) {
			uint64_t v = 0;
			if (up[i]) {
				v = f == 0 ? sc_buf_rpos(&b[i]) : f == 1 ? sc_buf_wpos(&b[i]) : f == 2 ? sc_buf_cap(&b[i]) :
				    f == 3 ? sc_buf_size(&b[i]) : sc_buf_quota(&b[i]);
			}
			ev_item_int(cut(v));
		}
		ev_arr_end();
	}
	vf_raw(",\"valid\":[%s,%s]", !up[0] || sc_buf_valid(&b[0]) ? "true" : "false", !up[1] || sc_buf_valid(&b[1]) ? "true" : "false");
}
static void bytes(const char *k, const void *p, size_t n)
{
	const unsigned char *c = p;
	vf_raw(",\"%s\":[", k);
	for (size_t j = 0; j < n; j++) vf_raw(j ? ",%d" : "%d", c[j]);
	vf_raw("]");
}
static void null(const char *k) { vf_raw(",\"%s\":[-1]", k); }
static void le(const char *k, uint64_t v, int n)
{
	unsigned char t[8];
	for (int j = 0; j < n; j++) t[j] = (unsigned char) (v >> (8 * j));
	bytes(k, t, (size_t) n);
}
/* pointer handed out: is [p, p+n) inside the buffer's memory? */
static void view(int i, const void *p, uint64_t n)
{
	const unsigned char *m = sc_buf_at(&b[i], 0), *c = p;
	uint64_t cap = sc_buf_cap(&b[i]);
	if (p == NULL) { null("v"); return; }
	if (c < m || c > m + cap || n > (uint64_t) (m + cap - c)) { vf_raw(",\"v\":[-2]"); return; }
	bytes("v", p, n);
}
/* one value of n bytes between two marker bytes, written and read back */
static void bulk(int kind, uint64_t n)
{
	static const char *kinds[] = {"raw", "blob", "str", "strlen", "fmt", "text", "move", "data"};
	struct sc_buf x, y;
	char *d = malloc(n + 1);
	const char *back = NULL;
	uint64_t head = 0, total, rest, m1, m2, k = 0;
	bool eq = false, v = true, ok;
	for (uint64_t j = 0; j < n; j++) d[j] = (char) (j * 7 % 251 % 255 + 1);
	d[n] = 0;
	API(ok = sc_buf_init(&x, 0));
	API(ok = ok && sc_buf_init(&y, 0));
	if (kind != 5) API(sc_buf_put_8(&x, 0xA1));
	switch (kind) {
	case 0: API(sc_buf_put_raw(&x, d, n)); break;
	case 1: API(sc_buf_put_blob(&x, d, n)); break;
	case 2: API(sc_buf_put_str(&x, d)); break;
	case 3: API(sc_buf_put_str_len(&x, d, n)); break;
	case 4: API(sc_buf_put_fmt(&x, "%s", d)); break;
	case 5: API((sc_buf_put_text(&x, "%.*s", (int) (n / 2), d), sc_buf_put_text(&x, "%s", d + n / 2))); break;
	case 6: API((sc_buf_reserve(&x, n), sc_buf_put_raw(&y, d, n), sc_buf_move(&x, &y))); break; /* move does not grow */
	default:
		API(sc_buf_reserve(&x, n));
		k = sc_buf_set_data(&x, 1, d, n);
		sc_buf_set_wpos(&x, 1 + n);
	}
	if (kind != 5) API(sc_buf_put_8(&x, 0xB2));
	total = sc_buf_wpos(&x);
	m1 = kind != 5 ? sc_buf_get_8(&x) : 0;
	if (kind == 1) head = sc_buf_get_64(&x);
	if (kind >= 2 && kind <= 4) {
		head = sc_buf_peek_64(&x);
		back = sc_buf_get_str(&x);
	} else if (kind == 7) {
		char *t = malloc(n + 1);
		k += sc_buf_peek_data(&x, 1, (unsigned char *) t, n);
		eq = memcmp(t, d, n) == 0;
		memset(t, 0, n);
		sc_buf_get_data(&x, t, n);
		eq = eq && memcmp(t, d, n) == 0;
		free(t);
	} else back = kind == 5 ? sc_buf_rbuf(&x) : sc_buf_get_blob(&x, n);
	if (back) eq = memcmp(back, d, n) == 0 && (kind < 2 || kind > 5 || back[n] == 0);
	if (kind == 5) sc_buf_mark_read(&x, n);
	/* the unread rest moves to the front */
	rest = sc_buf_size(&x);
	sc_buf_compact(&x);
	rest = rest * 100 + sc_buf_wpos(&x) * 10 + sc_buf_rpos(&x);
	m2 = sc_buf_get_8(&x);
	v = ok && sc_buf_valid(&x) && sc_buf_valid(&y) && sc_buf_size(&y) == 0;
	API(sc_buf_term(&x));
	API(sc_buf_term(&y));
	free(d);
	ev_begin("bulk");
	ev_str("kind", kinds[kind]);
	ev_int("n", (long) n);
	ev_int("total", cut(total));
	ev_int("head", cut(head));
	ev_int("k", cut(k));
	ev_int("rest", cut(rest));
	ev_int("m1", (long) m1);
	ev_int("m2", (long) m2);
	ev_bool("eq", eq);
	ev_bool("ok", v);
	state();
	ev_end();
}
static uint64_t rnd(int i) { return vf_u64(i); }

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) {
			vf_reset_live();
			vf_arm(0);
			memset(b, 0, sizeof(b));
			up[0] = up[1] = false;
			own[0] = own[1] = NULL;
			ev_begin("begin");
			ev_end();
			continue;
		}
		if (vf_is("bulk")) { bulk((int) vf_int(1), vf_u64(2)); continue; }
		if (vf_is("fail")) { vf_arm(vf_u64(1)); continue; }
		bool end = vf_is("end");
		if (end || vf_is("term")) {
			for (int i = 0; i < 2; i++) {
				if (!up[i] || (!end && i != vf_int(1))) continue;
				API(sc_buf_term(&b[i]));
				up[i] = false;
				free(own[i]); /* a wrong free of lent memory shows as a double free */
				own[i] = NULL;
				ev_begin("term");
				ev_int("i", i);
				state();
				ev_end();
			}
			if (end) {
				ev_begin("end");
				ev_int("live", vf_live);
				ev_int("bad", vf_badfree);
				ev_end();
			}
			continue;
		}
		const char *op = vf_tok[0];
		int i = (int) vf_int(1);
		size_t xl = 0;
		char *x = NULL;
		struct sc_buf *p = &b[i];
		if (vf_is("init") || vf_is("wrap")) {
			if (up[i]) continue;
			ev_begin(op);
			ev_int("i", i);
			ev_int("n", vf_int(2));
			if (vf_is("init")) {
				bool r;
				API(r = sc_buf_init(p, vf_u64(2)));
				up[i] = r;
				ev_bool("ret", r);
				ev_bool("failed", vf_failed);
				if (!r) API(sc_buf_term(p));
			} else {
				int flags = (int) vf_int(3);
				void *m;
				vf_arm(0);
				x = vf_hex(4, &xl);
				if (flags & SC_BUF_REF) {
					m = own[i] = malloc(xl ? xl : 1);
				} else {
					API(m = malloc(xl ? xl : 1));
				}
				memcpy(m, x, xl);
				*p = sc_buf_wrap(m, xl, flags);
				up[i] = true;
				ev_bool("ref", flags & SC_BUF_REF);
				ev_bool("data", flags & SC_BUF_DATA);
				bytes("x", x, xl);
				free(x);
			}
			state();
			ev_end();
			vf_arm(0);
			continue;
		}
		if (!up[i]) continue;
		if (vf_is("move") && (!up[vf_int(2)] || vf_int(2) == i)) continue;
		if (vf_is("setwpos") && rnd(2) < sc_buf_rpos(p)) continue;
		if (vf_is("rget") && vf_u64(2) > sc_buf_size(p)) continue;
		if (vf_is("wput")) {
			x = vf_hex(2, &xl);
			if (xl > sc_buf_quota(p)) { free(x); continue; }
			ev_begin("wput");
			ev_int("i", i);
			if (xl) memcpy(sc_buf_wbuf(p), x, xl);
			sc_buf_mark_write(p, xl);
			bytes("x", x, xl);
		} else if (vf_is("put")) { /* put i w value */
			int w = (int) vf_int(2);
			uint64_t v = vf_u64(3);
			ev_begin("put");
			ev_int("i", i);
			API(switch (w) {
			case 0: sc_buf_put_bool(p, v & 1); v &= 1; w = 1; break;
			case 1: sc_buf_put_8(p, (uint8_t) v); break;
			case 2: sc_buf_put_16(p, (uint16_t) v); break;
			case 4: sc_buf_put_32(p, (uint32_t) v); break;
			case 8: sc_buf_put_64(p, v); break;
			default: { double d; memcpy(&d, &v, 8); sc_buf_put_double(p, d); w = 8; }
			});
			le("x", v, w);
		} else if (vf_is("putraw")) {
			x = vf_hex(2, &xl);
			ev_begin("put");
			ev_int("i", i);
			char *e = malloc(xl ? xl : 1);
			memcpy(e, x, xl);
			API(sc_buf_put_raw(p, e, xl));
			free(e);
			bytes("x", x, xl);
		} else if (vf_is("putstr") || vf_is("putstrlen")) {
			x = vf_hex(2, &xl);
			ev_begin("putstr");
			ev_int("i", i);
			if (vf_is("putstr")) {
				API(sc_buf_put_str(p, x));
			} else {
				char *e = x ? malloc(xl ? xl : 1) : NULL;
				if (x) memcpy(e, x, xl);
				API(sc_buf_put_str_len(p, e, x ? xl : 77));
				free(e);
			}
			if (x) bytes("x", x, xl); else null("x");
		} else if (vf_is("putblob")) {
			x = vf_hex(2, &xl);
			ev_begin("putblob");
			ev_int("i", i);
			API(sc_buf_put_blob(p, x, xl));
			bytes("x", x, xl);
		} else if (vf_is("putfmt") || vf_is("puttext")) {
			x = vf_hex(2, &xl);
			ev_begin(op);
			ev_int("i", i);
			char head[2] = {x[0], 0};
			if (vf_is("putfmt")) {
				if (xl % 3 == 0) API(sc_buf_put_fmt(p, "%s", x));
				else API(sc_buf_put_fmt(p, "%s%s", head, x + 1));
			} else {
				if (xl % 3 == 0) API(sc_buf_put_text(p, "%s", x));
				else API(sc_buf_put_text(p, "%c%s", x[0], x + 1));
			}
			bytes("x", x, xl);
		} else if (vf_is("setat") || vf_is("setw")) { /* set value */
			int w = (int) vf_int(2);
			bool at = vf_is("setat");
			uint64_t pos = at ? vf_u64(3) : 0, v = vf_u64(at ? 4 : 3);
			ev_begin(at ? "set" : "setw");
			ev_int("i", i);
			ev_int("at", cut(pos));
			if (at) switch (w) {
				case 1: sc_buf_set_8_at(p, pos, (uint8_t) v); break;
				case 2: sc_buf_set_16_at(p, pos, (uint16_t) v); break;
				case 4: sc_buf_set_32_at(p, pos, (uint32_t) v); break;
				default: sc_buf_set_64_at(p, pos, v);
			} else switch (w) {
				case 1: sc_buf_set_8(p, (uint8_t) v); break;
				case 2: sc_buf_set_16(p, (uint16_t) v); break;
				case 4: sc_buf_set_32(p, (uint32_t) v); break;
				default: sc_buf_set_64(p, v);
			}
			le("x", v, w);
		} else if (vf_is("setdata")) {
			uint64_t pos = vf_u64(2), r;
			x = vf_hex(3, &xl);
			ev_begin("setdata");
			ev_int("i", i);
			ev_int("at", cut(pos));
			r = sc_buf_set_data(p, pos, x, xl);
			ev_int("ret", cut(r));
			bytes("x", x, xl);
		} else if (vf_is("setrpos") || vf_is("setwpos")) {
			ev_begin(op);
			ev_int("i", i);
			vf_is("setrpos") ? sc_buf_set_rpos(p, vf_u64(2)) : sc_buf_set_wpos(p, vf_u64(2));
			ev_int("n", cut(vf_u64(2)));
		} else if (vf_is("limit")) {
			ev_begin(op);
			ev_int("i", i);
			sc_buf_limit(p, vf_u64(2));
			ev_int("n", cut(vf_u64(2)));
		} else if (vf_is("clear") || vf_is("compact")) {
			ev_begin(op);
			ev_int("i", i);
			vf_is("clear") ? sc_buf_clear(p) : sc_buf_compact(p);
		} else if (vf_is("reserve") || vf_is("shrink")) {
			bool r;
			ev_begin(op);
			ev_int("i", i);
			if (vf_is("reserve")) API(r = sc_buf_reserve(p, vf_u64(2)));
			else API(r = sc_buf_shrink(p, vf_u64(2)));
			ev_int("n", cut(vf_u64(2)));
			ev_bool("ret", r);
		} else if (vf_is("peekat") || vf_is("peek") || vf_is("get")) { /* width [pos] */
			int w = (int) vf_int(2);
			uint64_t v;
			ev_begin(op);
			ev_int("i", i);
			if (vf_is("peekat")) {
				uint64_t pos = vf_u64(3);
				ev_int("at", cut(pos));
				v = w == 1 ? sc_buf_peek_8_at(p, pos) : w == 2 ? sc_buf_peek_16_at(p, pos) :
				    w == 4 ? sc_buf_peek_32_at(p, pos) : sc_buf_peek_64_at(p, pos);
			} else if (vf_is("peek")) {
				v = w == 1 ? sc_buf_peek_8(p) : w == 2 ? sc_buf_peek_16(p) :
				    w == 4 ? sc_buf_peek_32(p) : sc_buf_peek_64(p);
			} else if (w == 9) {
				double d = sc_buf_get_double(p);
				memcpy(&v, &d, 8);
				w = 8;
			} else {
				v = w == 1 ? sc_buf_get_8(p) : w == 2 ? sc_buf_get_16(p) :
				    w == 4 ? sc_buf_get_32(p) : sc_buf_get_64(p);
			}
			ev_int("n", w);
			le("v", v, w);
		} else if (vf_is("double")) {
			uint64_t v;
			double d;
			ev_begin("get");
			ev_int("i", i);
			d = sc_buf_get_double(p);
			memcpy(&v, &d, 8);
			ev_int("n", 8);
			le("v", v, 8);
		} else if (vf_is("peekdata") || vf_is("getdata")) {
			bool pk = vf_is("peekdata");
			uint64_t pos = pk ? vf_u64(2) : 0, n = vf_u64(pk ? 3 : 2), r = 0;
			char *d = malloc(n ? n : 1);
			memset(d, 0x5a, n ? n : 1);
			ev_begin(pk ? "peekdata" : "get");
			ev_int("i", i);
			ev_int("at", cut(pos));
			ev_int("n", (long) n);
			if (pk) r = sc_buf_peek_data(p, pos, (unsigned char *) d, n);
			else sc_buf_get_data(p, d, n);
			ev_int("ret", cut(r));
			bytes("v", d, n);
			free(d);
		} else if (vf_is("getbool")) {
			ev_begin(op);
			ev_int("i", i);
			ev_bool("ret", sc_buf_get_bool(p));
		} else if (vf_is("getblob")) {
			ev_begin(op);
			ev_int("i", i);
			void *d = sc_buf_get_blob(p, vf_u64(2));
			ev_int("n", cut(vf_u64(2)));
			view(i, d, vf_u64(2));
		} else if (vf_is("getstr")) {
			uint64_t r0 = sc_buf_rpos(p);
			ev_begin(op);
			ev_int("i", i);
			const char *s = sc_buf_get_str(p);
			view(i, s, s ? sc_buf_rpos(p) - r0 - 8 : 0);
		} else if (vf_is("rget")) {
			ev_begin(op);
			ev_int("i", i);
			ev_int("n", vf_int(2));
			bytes("v", sc_buf_rbuf(p), vf_u64(2));
			sc_buf_mark_read(p, vf_u64(2));
		} else if (vf_is("move")) {
			ev_begin(op);
			ev_int("i", i);
			ev_int("j", vf_int(2));
			API(sc_buf_move(p, &b[vf_int(2)]));
		} else if (vf_is("dump")) {
			ev_begin(op);
			ev_int("i", i);
			bytes("v", sc_buf_at(p, 0), sc_buf_wpos(p) <= sc_buf_cap(p) ? sc_buf_wpos(p) : 0);
		} else if (vf_is("lens")) {
			x = vf_hex(2, &xl);
			ev_begin(op);
			if (x) bytes("x", x, xl); else null("x");
			ev_int("n", (long) xl);
			ev_int("str", (long) sc_buf_str_len(x));
			ev_int("blob", (long) sc_buf_blob_len(x, xl));
			ev_arr_begin("fixed");
			ev_item_int((long) sc_buf_bool_len(true));
			ev_item_int((long) sc_buf_8_len(3));
			ev_item_int((long) sc_buf_16_len(3));
			ev_item_int((long) sc_buf_32_len(3));
			ev_item_int((long) sc_buf_64_len(3));
			ev_item_int((long) sc_buf_double_len(3));
			ev_arr_end();
		} else {
			_exit(96);
		}
		free(x);
		ev_bool("failed", vf_failed);
		state();
		ev_end();
		vf_arm(0);
	}
	return 0;
}
