/* Drives sc_crc32(): the data sits in a heap block that ends with it, at the
 * alignment asked for; the same data is also fed in pieces. */
#include "vf.h"
#include "sc_crc32.h"
#include <sys/mman.h>

static uint64_t s;
static unsigned rnd(void)
{
	s = s * 6364136223846793005ULL + 1442695040888963407ULL;
	return (unsigned) (s >> 33);
}
static void pair(const char *k, uint32_t v)
{
	vf_raw(",\"%s\":[%u,%u]", k, v >> 16, v & 0xffff);
}

int main(void)
{
	vf_init();
	sc_crc32_init();
	while (vf_next()) {
		if (vf_is("begin") || vf_is("end")) {
			ev_begin(vf_tok[0]);
			ev_end();
			continue;
		}
		if (vf_is("init")) { /* global set-up again */
			sc_crc32_init();
			continue;
		}
		if (vf_is("zrun")) { /* zrun align init N prefix suffix cut...: N zeros between two texts */
			size_t al = (size_t) vf_int(1), n = (size_t) vf_u64(3), lp, ls;
			uint32_t ini = (uint32_t) vf_u64(2), c = ini;
			unsigned char *pre = vf_hex(4, &lp), *suf = vf_hex(5, &ls);
			size_t len = lp + n + ls, at = 0;
			unsigned char *d = mmap(NULL, len + al, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (d == MAP_FAILED) continue; /* no room for it here */
			memcpy(d + al, pre, lp);
			memcpy(d + al + lp + n, suf, ls);
			uint32_t r = sc_crc32(ini, d + al, len);
			for (int i = 6; i < vf_ntok; i++) {
				size_t k = (size_t) vf_u64(i);
				if (k > len - at) k = len - at;
				c = sc_crc32(c, d + al + at, k);
				at += k;
			}
			if (at) c = sc_crc32(c, d + al + at, len - at);
			munmap(d, len + al);
			ev_begin("zrun");
			pair("init", ini);
			ev_bytes("pre", pre, lp);
			vf_raw(",\"n\":["); /* bits of N, lowest first */
			for (size_t k = n, i = 0; k; k >>= 1, i++) vf_raw(i ? ",%d" : "%d", (int) (k & 1));
			vf_raw("]");
			ev_bytes("suf", suf, ls);
			pair("r", r);
			pair("chain", at ? c : r);
			ev_end();
			continue;
		}
		/* crc seed align init len cut... */
		s = vf_u64(1);
		int kind = rnd() % 5;
		size_t al = (size_t) vf_int(2), len = (size_t) vf_int(4);
		uint32_t ini = (uint32_t) vf_u64(3);
		char *base = NULL;
		if (posix_memalign((void **) &base, 64, len + al)) abort();
		unsigned char *d = (unsigned char *) base + al;
		for (size_t i = 0; i < al; i++) base[i] = (char) rnd();
		for (size_t i = 0; i < len; i++) d[i] = kind == 0 ? 0xff : kind == 1 ? (i == len / 2) : (unsigned char) rnd();
		uint32_t r = sc_crc32(ini, d, len), c = ini;
		size_t at = 0;
		for (int i = 5; i < vf_ntok; i++) {
			size_t n = (size_t) vf_int(i);
			if (n > len - at) n = len - at;
			c = sc_crc32(c, d + at, n);
			at += n;
		}
		c = sc_crc32(c, d + at, len - at);
		ev_begin("crc");
		pair("init", ini);
		ev_bytes("d", d, len);
		pair("r", r);
		pair("chain", c);
		pair("again", sc_crc32(ini, d, len));
		ev_end();
		free(base);
	}
	return 0;
}
