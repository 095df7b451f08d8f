/* The signal-safe formatter: fmt|log SIZE HEXFMT ARG...; an argument is s<hex>, sN (NULL) or v<64-bit number>. */
#include "vf.h"
#include "sc_signal.h"
#include <sys/mman.h>

static int vcall(char *b, size_t n, const char *f, ...)
{
	va_list va;
	va_start(va, f);
	int r = sc_signal_vsnprintf(b, n, f, va);
	va_end(va);
	return r;
}
static void num(const char *k, const char *fmt, uint64_t v)
{
	char t[40];
	snprintf(t, sizeof(t), fmt, v);
	ev_cstr(k, t);
}

int main(void)
{
	int p[2];
	vf_init();
	if (pipe(p)) return 97;
	fcntl(p[0], F_SETFL, O_NONBLOCK);
	fcntl(p[1], F_SETFL, O_NONBLOCK);
	while (vf_next()) {
		if (vf_is("begin") || vf_is("end")) {
			ev_begin(vf_tok[0]);
			ev_end();
			continue;
		}
		size_t sz = (size_t) vf_u64(1), n;
		char *f = vf_hex(2, &n), *s[10] = {0};
		uint64_t a[10] = {0};
		for (int i = 3; i < vf_ntok && i < 13; i++) {
			char *t = vf_tok[i];
			if (*t == 's') {
				vf_tok[i] = t + 1;
				s[i - 3] = vf_hex(i, &n);
				vf_tok[i] = t;
				a[i - 3] = (uint64_t) (uintptr_t) s[i - 3];
			} else a[i - 3] = strtoull(t + 1, NULL, 0);
		}
		/* sizes of 2^31 and more: a mapping that large, of which only the start is touched */
		bool big = sz > 1 << 24;
		size_t mapped = ((size_t) 1 << 32) + (1 << 20), used = big ? 1 << 16 : sz + 64;
		char *raw = big ? mmap(NULL, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : malloc(used);
		if (big && (raw == MAP_FAILED || sz > mapped - 64)) continue;
		memset(raw, 0x5c, used);
		char *b = raw + 32;
		int rc = 0;
		static char out[1 << 17];
		ssize_t got = 0;
		if (vf_is("fmt")) {
			static int flip;
			API(rc = (flip ^= 1) ? sc_signal_snprintf(b, sz, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
					     : vcall(b, sz, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]));
		} else {
			API(sc_signal_log(p[1], b, sz, f, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]));
			got = read(p[0], out, sizeof(out));
			if (got < 0) got = 0;
			char c[4096];
			while (read(p[0], c, sizeof(c)) > 0) ;
		}
		bool clean = true;
		for (int i = 0; i < 32; i++)
			if (raw[i] != 0x5c || (!big && b[sz + (size_t) i] != 0x5c)) clean = false;
		if (big && rc >= 0 && rc < 60000) for (size_t i = (size_t) rc + 1; i < used - 32; i++) if (b[i] != 0x5c && vf_is("fmt")) clean = false;
		ev_begin(vf_tok[0]);
		ev_int("sz", big ? 1000000000 : (long) sz);
		ev_cstr("f", f);
		ev_int("rc", rc);
		ev_bool("clean", clean);
		if (vf_is("log")) ev_bytes("out", out, (size_t) got);
		else {
			size_t e = 0;
			while (e < sz && b[e]) e++;
			/* -3: no terminator */
			if (sz && e == sz && rc >= 0) vf_raw(",\"out\":[-3]");
			else ev_bytes("out", b, rc < 0 ? 0 : e);
		}
		vf_raw(",\"args\":[");
		for (int i = 0; i < 10; i++) {
			vf_raw(i ? ",{\"i\":%d" : "{\"i\":%d", i);
			bool str = i + 3 < vf_ntok && vf_tok[i + 3][0] == 's';
			ev_cstr("s", str ? s[i] : NULL);
			/* what the C library prints for the value in each type */
			char t[40];
			snprintf(t, sizeof(t), "%d", (int) a[i]); ev_cstr("d", str ? "" : t);
			snprintf(t, sizeof(t), "%u", (unsigned) a[i]); ev_cstr("u", str ? "" : t);
			num("ld", "%" PRId64, str ? 0 : a[i]);
			num("lu", "%" PRIu64, str ? 0 : a[i]);
			num("p", "%" PRIx64, str ? 0 : a[i]);
			vf_raw("}");
		}
		vf_raw("]");
		ev_end();
		big ? (void) munmap(raw, mapped) : free(raw);
		free(f);
		for (int i = 0; i < 10; i++) free(s[i]);
	}
	return 0;
}
