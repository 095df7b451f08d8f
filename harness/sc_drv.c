/* Drives the utility functions of sc/. Every text and buffer is a heap block of
 * exactly its size. */
#include "vf.h"
#include "sc.h"

static void limbs(const char *k, int64_t v)
{
	vf_raw(",\"%s\":[", k);
	if (v < -1) {
		vf_raw("-1");
	} else if (v >= 0) {
		for (int i = 0; i < 7; i++, v >>= 10) vf_raw(i ? ",%d" : "%d", (int) (v & 1023));
	}
	vf_raw("]");
}

static void bits(const char *k, uint64_t v)
{
	vf_raw(",\"%s\":[", k);
	for (int i = 0; i < 64; i++) vf_raw(i ? ",%d" : "%d", (int) (v >> i & 1));
	vf_raw("]");
}

int main(void)
{
	struct sc_rand *r = malloc(sizeof(*r));
	vf_init();
	while (vf_next()) {
		if (vf_is("begin") || vf_is("end")) {
			ev_begin(vf_tok[0]);
			ev_end();
		} else if (vf_is("size")) {
			size_t n;
			char *p = vf_hex(1, &n), *s = malloc(n + 1);
			memcpy(s, p, n + 1);
			errno = vf_ntok > 2 ? (int) vf_int(2) : 0;
			int64_t v = sc_size_to_bytes(s);
			ev_begin("size");
			ev_cstr("s", s);
			limbs("v", v);
			ev_bool("same", memcmp(p, s, n + 1) == 0);
			ev_end();
			free(s);
			free(p);
		} else if (vf_is("human")) {
			uint64_t v = vf_u64(1);
			size_t len = (size_t) vf_int(2);
			char *b = malloc(len);
			if (len) memset(b, 'x', len);
			char *p = sc_bytes_to_size(b, len, v);
			uint64_t w = v;
			ev_begin("human");
			vf_raw(",\"v\":[");
			for (int i = 0; i < 7; i++, w >>= 10) vf_raw(i ? ",%d" : "%d", (int) (w & 1023));
			vf_raw("]");
			ev_int("len", (long) len);
			ev_str("ret", p == NULL ? "null" : p == b ? "buf" : "other");
			ev_bytes("text", b, p == b ? strnlen(b, len) : 0);
			ev_bool("term", p == b && memchr(b, 0, len) != NULL);
			ev_end();
			free(b);
		} else if (vf_is("pow2")) {
			uint64_t v = vf_u64(1);
			ev_begin("pow2");
			bits("v", v);
			ev_bool("is", sc_is_pow2(v));
			bits("to", sc_to_pow2(v));
			ev_end();
		} else if (vf_is("seed")) {
			size_t n;
			char *p = vf_hex(1, &n);
			unsigned char *s = malloc(256);
			for (int i = 0; i < 256; i++) s[i] = (unsigned char) p[(size_t) i % n];
			memset(r, 0xa5, sizeof(*r));
			sc_rand_init(r, s);
			ev_begin("seed");
			ev_bytes("s", s, 256);
			ev_end();
			free(s);
			free(p);
		} else if (vf_is("read")) { /* n [null] */
			int n = (int) vf_int(1);
			bool null = vf_ntok > 2;
			char *b = malloc(n > 0 ? n : 1);
			if (n > 0) memset(b, 0, n);
			sc_rand_read(r, null ? NULL : b, n);
			ev_begin("read");
			ev_int("n", null || n < 0 ? 0 : n);
			ev_bytes("b", b, null || n < 0 ? 0 : (size_t) n);
			ev_end();
			free(b);
		}
	}
	return 0;
}
