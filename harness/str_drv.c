/* Drives sc_str on four slots. Every event carries all slots as read back through
 * the API, so that an operation touching another string shows. */
#include "vf.h"
#include "sc_str.h"

static char *slot[4];

static void dump(void)
{
	ev_arr_begin("ln");
	for (int i = 0; i < 4; i++) ev_item_int((long) sc_str_len(slot[i]));
	ev_arr_end();
	vf_raw(",\"st\":[");
	for (int i = 0; i < 4; i++) {
		int64_t n = sc_str_len(slot[i]);
		if (i) vf_raw(",");
		if (!slot[i]) { vf_raw("[-1]"); continue; }
		if (n < 0 || n > 1000000 || slot[i][n] != '\0' || strlen(slot[i]) != (size_t) n) { vf_raw("[-2]"); continue; }
		vf_raw("[");
		for (int64_t k = 0; k < n; k++) vf_raw(k ? ",%d" : "%d", (unsigned char) slot[i][k]);
		vf_raw("]");
	}
	vf_raw("]");
}

static char *vfmt(const char *fmt, ...)
{
	va_list va;
	char *r;
	va_start(va, fmt);
	r = sc_str_create_va(fmt, va);
	va_end(va);
	return r;
}

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) {
			vf_reset_live();
			vf_arm(0);
			memset(slot, 0, sizeof(slot));
			ev_begin("begin");
#ifdef SC_STR_MAX
			ev_int("max", (long) SC_STR_MAX);
#else
			ev_int("max", 0);
#endif
			ev_end();
			continue;
		}
		if (vf_is("longtok")) { /* tokens of the given lengths joined with '-' */
			size_t n = 0, at = 0;
			int k = 0;
			for (int a = 1; a < vf_ntok; a++) n += vf_u64(a) + 1;
			char *w = malloc(n + 1), *p, *save = NULL;
			for (int a = 1; a < vf_ntok; a++) {
				size_t l = vf_u64(a);
				for (size_t j = 0; j < l; j++) w[at++] = (char) ('a' + (j + (size_t) a) % 23);
				w[at++] = '-';
			}
			w[--at] = 0;
			API(p = sc_str_create(w));
			ev_begin("longtok");
			ev_arr_begin("in");
			for (int a = 1; a < vf_ntok; a++) ev_item_int((long) vf_u64(a));
			ev_arr_end();
			ev_arr_begin("out");
			bool eq = true;
			const char *t;
			at = 0;
			while (p && (t = sc_str_token_begin(p, &save, "-")) && k++ < 64) {
				size_t l = strlen(t);
				ev_item_int((long) l);
				eq = eq && at + l < n && memcmp(w + at, t, l) == 0;
				at += l + 1;
			}
			ev_arr_end();
			sc_str_token_end(p, &save);
			ev_bool("eq", eq);
			ev_bool("whole", p && sc_str_len(p) == (int64_t) n - 1 && strcmp(p, w) == 0);
			API(sc_str_destroy(&p));
			free(w);
			dump();
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			vf_arm(vf_u64(1));
			continue;
		}
		if (vf_is("end")) {
			for (int i = 0; i < 4; i++) {
				API(sc_str_destroy(&slot[i]));
				ev_begin("destroy");
				ev_int("i", i);
				dump();
				ev_end();
			}
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		int i = (int) vf_int(1);
		bool ok = false;
		char *x = NULL, *y = NULL, **p = &slot[i], *q = NULL;
		size_t xl = 0, yl = 0;
		if (vf_is("cmp") && (!slot[i] || !slot[vf_int(2)])) continue;
		if (vf_is("appendslot") && (i == vf_int(2) || !slot[vf_int(2)])) continue;
		ev_begin(vf_tok[0]);
		ev_int("i", i);
		if (vf_is("create") || vf_is("createlen") || vf_is("set") || vf_is("append") || vf_is("trim") || vf_is("replace")) {
			x = vf_hex(2, &xl);
			if (vf_is("replace")) y = vf_hex(3, &yl);
			if (vf_is("create") || vf_is("createlen")) {
				API(sc_str_destroy(p));
				if (vf_is("create")) {
					API(q = sc_str_create(x));
				} else {
					/* exact block: no terminator to read */
					char *e = x ? malloc(xl ? xl : 1) : NULL;
					if (x) memcpy(e, x, xl);
					API(q = sc_str_create_len(e, (uint32_t) xl));
					free(e);
				}
				slot[i] = q;
				ok = q != NULL;
			} else if (vf_is("set")) {
				API(ok = sc_str_set(p, x));
			} else if (vf_is("append")) {
				API(ok = sc_str_append(p, x));
			} else if (vf_is("trim")) {
				API(ok = sc_str_trim(p, x));
			} else {
				API(ok = sc_str_replace(p, x, y));
				ev_cstr("y", y);
			}
			ev_cstr("x", x);
		} else if (vf_is("fmt") || vf_is("setfmt") || vf_is("appendfmt")) {
			int kind = (int) vf_int(2), n = (int) vf_int(4);
			bool self = strcmp(vf_tok[3], "S") == 0; /* the argument is the string itself */
			x = self ? (slot[i] ? slot[i] : vf_hex(5, &xl)) : vf_hex(3, &xl);
			y = vf_hex(5, &yl);
			ev_int("kind", kind);
			ev_int("n", n);
			ev_cstr("x", x);
			ev_cstr("y", y);
			if (vf_is("fmt")) {
				char *old = slot[i];
				slot[i] = NULL;
				API(switch (kind) {
				case 0: q = sc_str_create_fmt("%s", x); break;
				case 1: q = vfmt("%d", n); break;
				case 2: q = sc_str_create_fmt("x%sy%dz", x, n); break;
				case 3: q = vfmt("%s%s", x, y); break;
				case 4: q = sc_str_create_fmt("%%%s", y); break;
				default: q = sc_str_create_fmt("plain%s", x); break;
				});
				API(sc_str_destroy(&old));
				slot[i] = q;
				ok = q != NULL;
			} else if (vf_is("setfmt")) {
				API(switch (kind) {
				case 0: ok = sc_str_set_fmt(p, "%s", x); break;
				case 1: ok = sc_str_set_fmt(p, "%d", n); break;
				case 2: ok = sc_str_set_fmt(p, "x%sy%dz", x, n); break;
				case 3: ok = sc_str_set_fmt(p, "%s%s", x, y); break;
				case 4: ok = sc_str_set_fmt(p, "%%%s", y); break;
				default: ok = sc_str_set_fmt(p, "plain%s", x); break;
				});
			} else {
				API(switch (kind) {
				case 0: ok = sc_str_append_fmt(p, "%s", x); break;
				case 1: ok = sc_str_append_fmt(p, "%d", n); break;
				case 2: ok = sc_str_append_fmt(p, "x%sy%dz", x, n); break;
				case 3: ok = sc_str_append_fmt(p, "%s%s", x, y); break;
				case 4: ok = sc_str_append_fmt(p, "%%%s", y); break;
				default: ok = sc_str_append_fmt(p, "plain%s", x); break;
				});
			}
			if (self) x = NULL;
		} else if (vf_is("dup") || vf_is("setslot") || vf_is("appendslot") || vf_is("cmp")) {
			int j = (int) vf_int(2);
			ev_int("j", j);
			if (vf_is("dup")) {
				API(q = sc_str_dup(slot[j]));
				API(sc_str_destroy(p));
				slot[i] = q;
				ok = q != NULL;
			} else if (vf_is("cmp")) {
				ok = sc_str_cmp(slot[i], slot[j]);
			} else if (vf_is("setslot")) {
				API(ok = sc_str_set(p, slot[j]));
			} else {
				API(ok = sc_str_append(p, slot[j]));
			}
		} else if (vf_is("sub")) {
			uint64_t a = vf_u64(2), z = vf_u64(3);
			API(ok = sc_str_substring(p, (uint32_t) a, (uint32_t) z));
			ev_int("a", a > 2000000000 ? 2000000000 : (long) a);
			ev_int("z", z > 2000000000 ? 2000000001 : (long) z);
		} else if (vf_is("destroy")) {
			API(sc_str_destroy(p));
		} else if (vf_is("tokens")) {
			long k = vf_int(2), c = 0;
			int nd = vf_ntok - 3;
			char *ds[16], *save = NULL;
			size_t dl;
			const char *t;
			bool fin = false;
			for (int d = 0; d < nd; d++) ds[d] = vf_hex(3 + d, &dl);
			ev_int("k", k);
			vf_raw(",\"toks\":[");
			while (c < k) {
				t = sc_str_token_begin(*p, &save, ds[c % nd]);
				if (!t) { fin = true; break; }
				vf_raw(c ? ",[" : "[");
				for (size_t b = 0; t[b]; b++) vf_raw(b ? ",%d" : "%d", (unsigned char) t[b]);
				vf_raw("]");
				c++;
			}
			vf_raw("]");
			sc_str_token_end(*p, &save);
			ev_bool("fin", fin);
			vf_raw(",\"ds\":[");
			for (int d = 0; d < nd; d++) {
				vf_raw(d ? ",[" : "[");
				for (size_t b = 0; ds[d][b]; b++) vf_raw(b ? ",%d" : "%d", (unsigned char) ds[d][b]);
				vf_raw("]");
				free(ds[d]);
			}
			vf_raw("]");
		} else {
			_exit(96);
		}
		free(x);
		free(y);
		ev_bool("ok", ok);
		ev_bool("failed", vf_failed);
		dump();
		ev_end();
		vf_arm(0);
	}
	return 0;
}
