/* The logger under the deterministic scheduler.
 * run <bound> <maxruns> <seed> <script> <script> ...
 * d i w e log at that level, D I W E O set the level, X a wrong level name, 0 1 standard
 * output off/on, c C k callback off/on/failing, f g h file off/first/second, R log a
 * message of more than a megabyte (at level error) */
#include "vsched.h"
#include "sc_log.h"
#include <pthread.h>
#include <sys/stat.h>
#include <time.h>

static char *script[VS_MAX];
static int nthr, one, two, inside, sc[400], nsc, bad, was_file;
static bool rot;
static char *big;
static FILE *o_out, *o_err;

static const char *lname[] = {"DEBUG", "INFO ", "WARN ", "ERROR"};

/* every library call that shows intermediate states is a scheduling point */
int __wrap_vfprintf(FILE *f, const char *fmt, va_list va)
{
	extern int __real_vfprintf(FILE *, const char *, va_list);
	vs_point();
	return __real_vfprintf(f, fmt, va);
}
int __wrap_fprintf(FILE *f, const char *fmt, ...)
{
	extern int __real_vfprintf(FILE *, const char *, va_list);
	va_list va;
	vs_point();
	va_start(va, fmt);
	int r = __real_vfprintf(f, fmt, va);
	va_end(va);
	return r;
}
#define W(ret, name, decl, args) \
	ret __wrap_##name decl { extern ret __real_##name decl; vs_point(); return __real_##name args; }
W(int, fputs, (const char *s, FILE *f), (s, f))
W(int, fputc, (int c, FILE *f), (c, f))
W(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f))
W(int, fflush, (FILE *f), (f))
W(int, fclose, (FILE *f), (f))
W(FILE *, fopen, (const char *p, const char *m), (p, m))
W(long, ftell, (FILE *f), (f))
W(int, rename, (const char *a, const char *b), (a, b))
W(struct tm *, localtime_r, (const time_t *a, struct tm *b), (a, b))

/* the text of message id */
static int parse_text(const char *s, size_t n)
{
	int id = -1, k = 0;
	if (n < 8 || s[0] != 'm' || sscanf(s + 1, "%5d%n", &id, &k) != 1) return -1;
	s += 1 + k;
	n -= 1 + (size_t) k;
	if (id >= 9000 && id < 10000) { /* a big one */
		size_t m = strlen(big);
		if (n != m + 1 || memcmp(s + 1, big, m)) return -1;
		n -= m;
		if (*s != ';') return -1;
		return id;
	}
	if (n != 4 || memcmp(s, ";tx.", 4)) return -1;
	return id;
}
/* [date][LEVEL][Tn] text */
static int parse_line(const char *s, size_t n)
{
	int y, mo, d, h, mi, se, k = 0;
	if (n < 35 || sscanf(s, "[%4d-%2d-%2d %2d:%2d:%2d]%n", &y, &mo, &d, &h, &mi, &se, &k) != 6 || k != 21) return -1;
	int id = parse_text(s + 33, n - 33);
	char want[32];
	if (id < 0) return -1;
	sprintf(want, "[%s][T%d] ", lname[id % 10], id / 10 % 10);
	if (memcmp(s + 21, want, 12)) return -1;
	return id;
}
static int rd(const char *file, int *ids)
{
	static char *b;
	static size_t cap = 1 << 24;
	if (!b) b = malloc(cap);
	int fd = open(file, O_RDONLY), n = 0;
	if (fd < 0) return 0;
	ssize_t len = 0, r;
	while ((r = read(fd, b + len, cap - 1 - (size_t) len)) > 0) len += r;
	close(fd);
	b[len] = 0;
	for (char *p = b; p < b + len;) {
		char *e = memchr(p, '\n', (size_t) (b + len - p));
		if (!e) { ids[n++] = -1; break; }
		if (e > p && n < 380) ids[n++] = parse_line(p, (size_t) (e - p));
		p = e + 1;
	}
	return n;
}
static void arr(const char *k, int *a, int n)
{
	char b[4000];
	int p = 0;
	for (int i = 0; i < n; i++) p += sprintf(b + p, i ? ",%d" : "%d", a[i]);
	b[p] = 0;
	if (k) vs_log(",\"%s\":[%s]", k, b);
	else vs_log("[%s]", b);
}
static int take(void *arg, void *want, enum sc_log_level lvl, const char *fmt, va_list va)
{
	if (inside++) bad++;
	vs_point();
	char *t = malloc(rot ? strlen(big) + 100 : 100);
	int n = vsnprintf(t, rot ? strlen(big) + 100 : 100, fmt, va);
	while (n > 0 && t[n - 1] == '\n') n--;
	int id = parse_text(t, (size_t) n);
	if (arg != want || id < 0 || id % 10 != (int) lvl) bad++;
	if (nsc < 390) sc[nsc++] = id;
	free(t);
	vs_point();
	inside--;
	return 0;
}
static int on_log(void *arg, enum sc_log_level lvl, const char *fmt, va_list va) { return take(arg, &one, lvl, fmt, va); }
static int on_fail(void *arg, enum sc_log_level lvl, const char *fmt, va_list va) { take(arg, &two, lvl, fmt, va); return -1; }

static void setup(void)
{
	vs_fail_arm(0);
	fflush(stdout);
	fflush(stderr);
	if (ftruncate(1, 0) || ftruncate(2, 0)) abort();
	unlink("g"); unlink("h"); unlink("pg"); unlink("ph");
	nsc = 0;
	bad = inside = 0;
	vs_live_obj = 0;
	if (sc_log_init() != 0) abort();
}
static void begin(void) { vs_log("{\"op\":\"begin\",\"n\":%d}\n", nthr); }
static void call(int t, const char *k, int a, int b) { vs_log("{\"op\":\"call\",\"t\":%d,\"k\":\"%s\",\"a\":%d,\"b\":%d}\n", t, k, a, b); }
static void ret(int t, int rc) { vs_log("{\"op\":\"ret\",\"t\":%d,\"rc\":%d}\n", t, rc); }
static void body(int t)
{
	char nm[8] = "Tx";
	nm[1] = (char) ('0' + t);
	sc_log_set_thread_name(nm);
	int seq = 0;
	for (char *s = script[t]; *s; s++, seq++) {
		const char *q;
		if (*s && (q = strchr("diwe", *s))) {
			int l = (int) (q - "diwe"), id = 10000 + seq * 100 + t * 10 + l, rc;
			(void) q;
			l = *s == 'd' ? 0 : *s == 'i' ? 1 : *s == 'w' ? 2 : 3;
			id = 10000 + seq * 100 + t * 10 + l;
			call(t, "log", l, id);
			if (l == 0) rc = sc_log_debug("m%d;%s.\n", id, "tx");
			else if (l == 1) rc = sc_log_info("m%d;%s.\n", id, "tx");
			else if (l == 2) rc = sc_log_warn("m%d;%s.\n", id, "tx");
			else rc = sc_log_error("m%d;%s.\n", id, "tx");
			ret(t, rc);
		} else if (*s == 'R') {
			int id = 9000 + seq * 100 + t * 10 + 3;
			call(t, "log", 3, id);
			int rc = sc_log_error("m%d;%s\n", id, big);
			ret(t, rc);
		} else if (*s == 'D' || *s == 'I' || *s == 'W' || *s == 'E' || *s == 'O' || *s == 'X') {
			int l = *s == 'D' ? 0 : *s == 'I' ? 1 : *s == 'W' ? 2 : *s == 'E' ? 3 : *s == 'O' ? 4 : -1;
			const char *nms[] = {"nope", "DEBUG", "info", "Warn", "ERROR", "OFF"};
			call(t, "level", l, 0);
			int rc = sc_log_set_level(nms[l + 1]);
			ret(t, rc < 0 ? -1 : rc);
		} else if (*s == '0' || *s == '1') {
			call(t, "stdout", *s - '0', 0);
			sc_log_set_stdout(*s == '1');
			ret(t, 0);
		} else if (*s == 'c' || *s == 'C' || *s == 'k') {
			int a = *s == 'c' ? 0 : *s == 'C' ? 1 : 2;
			call(t, "cb", a, 0);
			sc_log_set_callback(a == 1 ? &one : &two, a == 0 ? NULL : a == 1 ? on_log : on_fail);
			ret(t, 0);
		} else {
			int a = *s - 'f';
			call(t, "file", a, 0);
			int rc = a == 0 ? sc_log_set_file(NULL, NULL) : a == 1 ? sc_log_set_file("pg", "g") : sc_log_set_file("ph", "h");
			ret(t, rc);
		}
	}
}
static void finish(int stuck)
{
	int ids[400], n;
	if (stuck) {
		vs_log("{\"op\":\"stuck\"}\n");
		return;
	}
	fflush(NULL);
	vs_log("{\"op\":\"sinks\"");
	n = rd("out", ids); arr("so", ids, n);
	n = rd("err", ids); arr("se", ids, n);
	arr("sc", sc, nsc);
	vs_log(",\"sf\":[");
	n = rd("pg", ids); n += rd("g", ids + n); arr(NULL, ids, n);
	vs_log(",");
	n = rd("ph", ids); n += rd("h", ids + n); arr(NULL, ids, n);
	vs_log("],\"keep\":%s,\"bad\":%d}\n", access("pg", F_OK) && access("ph", F_OK) ? "true" : "false", bad + vs_bad);
	int rc = sc_log_term();
	vs_log("{\"op\":\"term\",\"rc\":%d,\"live\":%d,\"bad\":%d,\"was\":true}\n", rc, vs_live_obj, vs_bad);
	rc = sc_log_term();
	vs_log("{\"op\":\"term\",\"rc\":%d,\"live\":%d,\"bad\":%d,\"was\":false}\n", rc, vs_live_obj, vs_bad);
	vs_log("{\"op\":\"end\"}\n");
}

int main(void)
{
	char dir[64];
	vf_init();
	if (!vf_next()) return 97;
	sprintf(dir, "logs.%d", (int) getpid());
	mkdir(dir, 0700);
	if (chdir(dir)) return 97;
	int fo = open("out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	int fe = open("err", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	dup2(fo, 1);
	dup2(fe, 2);
	static char obuf[1 << 16], ebuf[1 << 16];
	setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
	setvbuf(stderr, ebuf, _IOFBF, sizeof(ebuf));
	big = malloc(1100001);
	memset(big, 'z', 1100000);
	big[1100000] = 0;
	do {
		if (vf_is("run")) {
			struct vs_opt o = {.body = body, .setup = setup, .begin = begin, .finish = finish};
			o.bound = (int) vf_int(1);
			o.maxruns = vf_int(2);
			o.seed = vf_u64(3);
			o.nthreads = nthr = vf_ntok - 4;
			rot = false;
			for (int i = 0; i < nthr; i++) {
				script[i] = strdup(vf_tok[4 + i]);
				if (strchr(script[i], 'R')) rot = true;
			}
			vs_explore(&o);
			vf_raw("{\"op\":\"stat\",\"runs\":%ld,\"histories\":%ld,\"complete\":%s}\n", vs_runs, vs_new, vs_complete ? "true" : "false");
			continue;
		}
		/* init <n>: the n-th underlying call fails */
		vf_raw("{\"op\":\"begin\",\"n\":0}\n");
		vs_live_obj = 0;
		vs_bad = 0;
		vs_fail_arm((int) vf_int(1));
		errno = 0;
		int rc = sc_log_init(), e = errno, failed = vs_failed;
		vf_raw("{\"op\":\"init\",\"rc\":%d,\"err\":%d,\"failed\":%s,\"live\":%d,\"bad\":%d}\n", rc, e, failed ? "true" : "false", vs_live_obj, vs_bad);
		vs_fail_arm(0);
		for (int k = 0; k < 2; k++) {
			rc = sc_log_term();
			vf_raw("{\"op\":\"term\",\"rc\":%d,\"live\":%d,\"bad\":%d,\"was\":%s}\n", rc, vs_live_obj, vs_bad, !failed && !k ? "true" : "false");
		}
		vf_raw("{\"op\":\"end\"}\n");
		vf_raw("{\"op\":\"stat\",\"runs\":1,\"histories\":1,\"complete\":true}\n");
	} while (vf_next());
	unlink("g"); unlink("h"); unlink("pg"); unlink("ph"); unlink("out"); unlink("err");
	return 0;
}
