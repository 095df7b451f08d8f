/* Log rotation.  begin | file F | logn F COUNT LEN | restart | fault fopen|rename | end
 * After each command (and after every message that made the current file smaller) the
 * previous and the current file are read and every line is checked. */
#include "vf.h"
#include "sc_log.h"
#include <dirent.h>
#include <sys/stat.h>

#define FI(f) ((f) == 3 ? 1 : (f)) /* 3: the current file 1 with another previous name */
static long id[4];              /* lines logged to file f */
static int fault;               /* 1 fopen, 2 rename: the next call fails */
static bool hit;

FILE *__wrap_fopen(const char *p, const char *m)
{
	extern FILE *__real_fopen(const char *, const char *);
	if (vf_track && fault == 1) { fault = 0; hit = true; errno = EMFILE; return NULL; }
	return __real_fopen(p, m);
}
int __wrap_rename(const char *a, const char *b)
{
	extern int __real_rename(const char *, const char *);
	if (vf_track && fault == 2) { fault = 0; hit = true; errno = EXDEV; return -1; }
	return __real_rename(a, b);
}

static int f0;
static int fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static unsigned char padc(long i, size_t k) { return (unsigned char) ('a' + (i * 7 + (long) (k / 13)) % 26); }
static char *msg;
static void mkmsg(long i, size_t len)
{
	int n = sprintf(msg, "%ld %zu ", i, len);
	for (size_t k = 0; k < len; k++) msg[(size_t) n + k] = (char) padc(i, k);
	msg[(size_t) n + len] = 0;
}
struct view { long lo, hi, size; bool ok; };
static struct view look(const char *file)
{
	struct view v = {0, 0, -1, true};
	struct stat st;
	int fd = open(file, O_RDONLY);
	if (fd < 0) return v;
	fstat(fd, &st);
	v.size = st.st_size;
	char *b = st.st_size ? mmap(NULL, (size_t) st.st_size, PROT_READ, MAP_PRIVATE, fd, 0) : NULL;
	close(fd);
	for (char *p = b, *end = b + st.st_size; p < end;) {
		char *e = memchr(p, '\n', (size_t) (end - p));
		if (!e) { v.ok = false; break; }
		if (e > p) {
			long i = -1;
			size_t len = 0;
			int k = 0;
			char h[64];
			size_t hn = (size_t) (e - p) < 63 ? (size_t) (e - p) : 63;
			memcpy(h, p, hn);
			h[hn] = 0;
			char *x = strstr(h, "][WARN ][Thread] ");
			if (!x || sscanf(x + 17, "%ld %zu %n", &i, &len, &k) < 2) v.ok = false;
			else {
				char *q = p + (x - h) + 17 + k;
				if ((size_t) (e - q) != len) v.ok = false;
				else for (size_t j = 0; j < len; j++) if ((unsigned char) q[j] != padc(i, j)) { v.ok = false; break; }
			}
			if (!v.lo) v.lo = i;
			else if (i != v.hi + 1) v.ok = false;
			v.hi = i;
		}
		p = e + 1;
	}
	if (b) munmap(b, (size_t) st.st_size);
	return v;
}
static void views(void)
{
	fflush(NULL);
	for (int f = 1; f <= 3; f++) {
		char a[8], b[8];
		sprintf(a, "p%d", f);
		sprintf(b, "c%d", FI(f));
		struct view p = look(a), c = look(b);
		vf_raw(",\"v%d\":{\"plo\":%ld,\"phi\":%ld,\"ps\":%ld,\"clo\":%ld,\"chi\":%ld,\"cs\":%ld,\"ok\":%s}", f, p.lo, p.hi, p.size, c.lo, c.hi, c.size, p.ok && c.ok ? "true" : "false");
	}
}
static long csize(int f)
{
	struct stat st;
	char b[8];
	sprintf(b, "c%d", FI(f));
	return stat(b, &st) ? -1 : st.st_size;
}
static void logev(int f, long k, long bytes, long last, int rc)
{
	ev_begin("log");
	ev_int("f", f);
	ev_int("k", k);
	ev_int("bytes", bytes);
	ev_int("last", last);
	ev_int("rc", rc);
	ev_bool("fault", hit);
	hit = false;
	views();
	ev_end();
}

int main(void)
{
	char dir[64];
	vf_init();
	sprintf(dir, "rot.%d", (int) getpid());
	mkdir(dir, 0700);
	if (chdir(dir)) return 97;
	msg = malloc(8 << 20);
	int cur = 0;
	while (vf_next()) {
		if (vf_is("begin")) {
			unlink("p1"); unlink("p2"); unlink("p3"); unlink("c1"); unlink("c2");
			id[1] = id[2] = 0;
			fault = 0;
			cur = 0;
			f0 = fds();
			API(sc_log_init());
			sc_log_set_stdout(false);
			ev_begin("begin");
			ev_end();
		} else if (vf_is("restart")) {
			int rc;
			API(rc = sc_log_term());
			API(sc_log_init());
			sc_log_set_stdout(false);
			cur = 0;
			ev_begin("restart");
			ev_int("rc", rc);
			views();
			ev_end();
		} else if (vf_is("fault")) {
			fault = strcmp(vf_tok[1], "fopen") == 0 ? 1 : 2;
		} else if (vf_is("file")) {
			char a[8], b[8];
			int rc;
			hit = false;
			cur = (int) vf_int(1);
			sprintf(a, "p%d", cur);
			sprintf(b, "c%d", FI(cur));
			API(rc = cur ? sc_log_set_file(a, b) : sc_log_set_file(NULL, NULL));
			ev_begin("file");
			ev_int("f", cur);
			ev_int("rc", rc);
			ev_bool("fault", hit);
			hit = false;
			views();
			ev_end();
		} else if (vf_is("logn")) { /* to whichever file is current */
			int f = (int) vf_int(1), rc = 0;
			long n = vf_int(2), len = vf_int(3), k = 0, bytes = 0, last = 0, evs = 0;
			if (!f) { /* no file is open */
				for (long i = 0; i < n; i++) {
					mkmsg(0, (size_t) len);
					API(rc |= sc_log_warn("%s\n", msg));
				}
				ev_begin("nolog");
				ev_int("rc", rc);
				views();
				ev_end();
				continue;
			}
			for (long i = 0; i < n; i++) {
				fflush(NULL);
				long before = csize(f);
				mkmsg(++id[FI(f)], (size_t) len);
				API(rc |= sc_log_warn("%s\n", msg));
				/* [2026-11-19 21:00:00][WARN ][Thread] */
				last = 38 + (long) strlen(msg);
				bytes += last;
				k++;
				fflush(NULL);
				if (csize(f) < before + last || hit) {
					logev(f, k, bytes, last, rc);
					k = bytes = last = 0;
					rc = 0;
					if (++evs > 30) break; /* far too many */
				}
			}
			if (k) logev(f, k, bytes, last, rc);
		} else if (vf_is("huge")) { /* huge MIB: an existing file of that size and a byte */
			long mb = vf_int(1);
			struct stat ps = {0}, cs = {0};
			char tail[64] = "", want[32];
			int fd = open("hc", O_RDWR | O_CREAT | O_TRUNC, 0600), rc = 0;
			if (fd < 0 || ftruncate(fd, (off_t) mb << 20) || pwrite(fd, "\n", 1, (off_t) mb << 20) != 1) abort();
			close(fd);
			API(rc |= sc_log_set_file("hp", "hc"));
			API(rc |= sc_log_warn("line %ld\n", mb));
			API(rc |= sc_log_set_file(NULL, NULL));
			stat("hp", &ps);
			stat("hc", &cs);
			fd = open("hp", O_RDONLY);
			sprintf(want, "][Thread] line %ld\n", mb);
			if (fd >= 0) {
				pread(fd, tail, strlen(want), ps.st_size - (off_t) strlen(want));
				close(fd);
			}
			unlink("hp"); unlink("hc");
			cur = 0;
			ev_begin("huge");
			ev_int("rc", rc);
			ev_int("mb", mb);
			ev_int("pmb", (long) (ps.st_size >> 20));
			ev_int("cs", cs.st_size);
			ev_bool("ok", strcmp(tail, want) == 0);
			ev_end();
		} else { /* end */
			API(sc_log_term());
			ev_begin("end");
			ev_int("fds", fds() - f0);
			ev_end();
		}
	}
	unlink("p1"); unlink("p2"); unlink("p3"); unlink("c1"); unlink("c2");
	return 0;
}
