/* Memory maps of one file in a scratch directory.
 * begin [BASE] | init S FLAGS(c t w) PROT(r w) SHARED OFF LEN | store S P V | msync|mlock|munlock S OFF LEN |
 * term S | fault N ERRNO (the N-th system call of the next command fails) | end
 * With BASE the file exists from the start, a page longer than that; positions in the commands and in the log count
 * from BASE; flag W maps from the start of the file, as seen from BASE on. */
#include "vf.h"
#include "sc_mmap.h"
#include <dirent.h>
#include <sys/stat.h>

static struct sc_mmap m[3];
static bool on[3], inited[3];
static long moff[3], mlen[3], npages[3];
static long base;
static bool wides[3];
static unsigned char *win[3]; /* where BASE or the start of the map is */
static int clamp(long n) { return n > 1 << 30 ? 1 << 30 : n < -(1 << 30) ? -(1 << 30) : (int) n; }
static int countdown, ferr;
static const char *fault;
static int f0;

static bool hit(const char *what)
{
	if (!vf_track || !countdown || --countdown) return false;
	fault = ferr == EINTR && strstr(what, "allocate") ? "EINTR" : what;
	errno = ferr;
	return true;
}
#define W(ret, name, params, args, bad) \
	ret __real_##name params; \
	ret __wrap_##name params { if (hit(#name)) return bad; return __real_##name args; }
W(long, sysconf, (int n), (n), -1)
W(int, stat, (const char *p, struct stat *b), (p, b), -1)
W(int, stat64, (const char *p, struct stat *b), (p, b), -1)
W(int, fstat, (int f, struct stat *b), (f, b), -1)
W(int, fstat64, (int f, struct stat *b), (f, b), -1)
W(int, ftruncate, (int f, off_t n), (f, n), -1)
W(int, ftruncate64, (int f, off_t n), (f, n), -1)
/* a huge file stays sparse */
static int grow(int f, off_t o, off_t n)
{
	struct stat st;
	if (o < 0 || n <= 0) return EINVAL;
	if (__real_fstat64(f, &st)) return errno;
	return o + n > st.st_size && __real_ftruncate64(f, o + n) ? errno : 0;
}
int __real_posix_fallocate(int, off_t, off_t);
int __wrap_posix_fallocate(int f, off_t o, off_t n) { return hit("posix_fallocate") ? ferr : base ? grow(f, o, n) : __real_posix_fallocate(f, o, n); }
int __real_posix_fallocate64(int, off_t, off_t);
int __wrap_posix_fallocate64(int f, off_t o, off_t n) { return hit("posix_fallocate64") ? ferr : base ? grow(f, o, n) : __real_posix_fallocate64(f, o, n); }
W(void *, mmap, (void *a, size_t n, int p, int fl, int fd, off_t o), (a, n, p, fl, fd, o), MAP_FAILED)
W(void *, mmap64, (void *a, size_t n, int p, int fl, int fd, off_t o), (a, n, p, fl, fd, o), MAP_FAILED)
int __real_open(const char *, int, mode_t);
int __wrap_open(const char *p, int fl, mode_t mode) { return hit("open") ? -1 : __real_open(p, fl, mode); }
int __real_open64(const char *, int, mode_t);
int __wrap_open64(const char *p, int fl, mode_t mode) { return hit("open") ? -1 : __real_open64(p, fl, mode); }
/* a close that works may change errno */
int __real_close(int);
int __wrap_close(int fd) { int rc = __real_close(fd); if (vf_track && rc == 0) errno = EDOM; return rc; }

static unsigned char synced[3][64], locked[3][64];
static unsigned char *lost; /* a mapping whose munmap failed */
static size_t lostlen;
static void mark(unsigned char (*t)[64], const void *a, size_t n, int v)
{
	for (int s = 1; s <= 2; s++)
		for (long p = 0; on[s] && p < npages[s]; p++) {
			unsigned char *q = win[s] + p * 4096;
			/* whole pages are affected */
			if (n && (unsigned char *) a < q + 4096 && (unsigned char *) a + n > q) t[s][p] = (unsigned char) v;
		}
}
int __real_msync(void *, size_t, int);
int __wrap_msync(void *a, size_t n, int fl)
{
	if (hit("msync")) return -1;
	int rc = __real_msync(a, n, fl);
	if (rc == 0 && (fl & MS_SYNC)) mark(synced, a, n, 1);
	return rc;
}
int __real_fsync(int);
int __wrap_fsync(int fd) { if (hit("fsync")) return -1; for (int s = 1; s <= 2; s++) if (on[s] && m[s].fd == fd) mark(synced, m[s].ptr, m[s].len, 1); return __real_fsync(fd); }
int __real_fdatasync(int);
int __wrap_fdatasync(int fd) { if (hit("fdatasync")) return -1; for (int s = 1; s <= 2; s++) if (on[s] && m[s].fd == fd) mark(synced, m[s].ptr, m[s].len, 1); return __real_fdatasync(fd); }
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { if (hit("mlock")) return -1; int rc = __real_mlock(a, n); if (rc == 0) mark(locked, a, n, 1); return rc; }
int __real_munlock(const void *, size_t);
int __wrap_munlock(const void *a, size_t n) { if (hit("munlock")) return -1; int rc = __real_munlock(a, n); if (rc == 0) mark(locked, a, n, 0); return rc; }
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n)
{
	if (hit("munmap")) { lost = a; lostlen = n; return -1; }
	return __real_munmap(a, n);
}

static int fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static int maps(void)
{
	char b[512];
	int n = 0;
	char *last = NULL;
	FILE *f = fopen("/proc/self/maps", "r");
	while (fgets(b, sizeof b, f)) if (strstr(b, "/mapped.file")) {
		/* pieces of one mapping (locked pages) are adjacent */
		char *lo, *hi;
		sscanf(b, "%p-%p", (void **) &lo, (void **) &hi);
		bool inside = false;
		for (int s = 1; s <= 2; s++) if (on[s] && lo > (char *) m[s].ptr && lo < (char *) m[s].ptr + m[s].len) inside = true;
		if (!inside) n++;
	}
	fclose(f);
	return n;
}
static void resources(void)
{
	ev_int("fds", fds() - f0);
	ev_int("maps", maps());
}
static void content(void)
{
	struct stat st;
	bool ex = __real_stat64("mapped.file", &st) == 0;
	ev_bool("ex", ex);
	ev_int("size", ex ? clamp(st.st_size - base) : 0);
	vf_raw(",\"nz\":[");
	if (ex) {
		static unsigned char b[1 << 18];
		int fd = __real_open("mapped.file", O_RDONLY, 0), k = 0;
		ssize_t n = base ? pread(fd, b, sizeof b, 0) : 0;
		for (ssize_t i = 0; i < n; i++) if (b[i]) vf_raw(k++ ? ",[%d,%u]" : "[%d,%u]", (int) i - (1 << 28), b[i]);
		n = pread(fd, b, sizeof b, base);
		__real_close(fd);
		for (ssize_t i = 0; i < n; i++) if (b[i]) vf_raw(k++ ? ",[%zd,%u]" : "[%zd,%u]", i, b[i]);
	}
	vf_raw("]");
}
static void view(int s)
{
	struct stat st;
	int k = 0;
	if (on[s]) {
		long lim = __real_stat64("mapped.file", &st) == 0 ? st.st_size - base - moff[s] : 0;
		if (lim > mlen[s]) lim = mlen[s];
		for (long i = 0; i < lim; i++) if (win[s][i]) vf_raw(k++ ? ",[%ld,%u]" : "[%ld,%u]", i, win[s][i]);
	}
}
static void pages(unsigned char (*t)[64], int s)
{
	int k = 0;
	vf_raw(",\"pages\":[");
	for (int i = 0; i < npages[s]; i++) if (t[s][i]) vf_raw(k++ ? ",%d" : "%d", i);
	vf_raw("]");
}
static void result(int s, int rc)
{
	const char *e = sc_mmap_err(&m[s]);
	ev_int("rc", rc < 0 ? -1 : rc);
	ev_str("fault", fault);
	ev_bool("text", e && memchr(e, 0, sizeof m[s].err) && e[0]);
	ev_bool("named", e && memchr(e, 0, sizeof m[s].err) && strstr(e, strerror(ferr)));
}

int main(void)
{
	char dir[64];
	vf_init();
	sprintf(dir, "mmap.%d", (int) getpid());
	mkdir(dir, 0700);
	if (chdir(dir)) return 97;
	while (vf_next()) {
		int s = vf_ntok > 1 ? atoi(vf_tok[1]) : 0, rc;
		if (vf_is("begin")) {
			unlink("mapped.file");
			countdown = 0;
			fault = "";
			memset(locked, 0, sizeof locked);
			inited[1] = inited[2] = false;
			base = vf_ntok > 1 ? vf_int(1) : 0;
			if (base) {
				int fd = __real_open64("mapped.file", O_RDWR | O_CREAT, 0600);
				if (__real_ftruncate64(fd, base + 4096)) return 96;
				__real_close(fd);
			}
			f0 = fds();
			ev_begin("begin");
			ev_bool("ex", base);
			ev_int("size", base ? 4096 : 0);
			ev_end();
		} else if (vf_is("fault")) {
			countdown = (int) vf_int(1);
			ferr = (int) vf_int(2);
		} else if (vf_is("init")) {
			const char *fl = vf_tok[2], *pr = vf_tok[3];
			long off = vf_int(5), len = vf_int(6);
			bool wide = base && strchr(fl, 'W');
			if (wide) off = 0;
			int flags = (strchr(fl, 'w') ? O_RDWR : O_RDONLY) | (strchr(fl, 'c') ? O_CREAT : 0) | (strchr(fl, 't') ? O_TRUNC : 0);
			int prot = PROT_READ | (strchr(pr, 'w') ? PROT_WRITE : 0);
			fault = "";
			memset(&m[s], 0x5a, sizeof m[s]);
			errno = 0;
			API(rc = sc_mmap_init(&m[s], "mapped.file", flags, prot, vf_int(4) ? MAP_SHARED : MAP_PRIVATE, (size_t) (wide ? 0 : base + off), (size_t) (wide && len ? base + len : len)));
			countdown = 0;
			on[s] = rc == 0;
			inited[s] = true;
			if (on[s]) {
				moff[s] = off;
				mlen[s] = clamp((long) m[s].len - (wide ? base : 0));
				win[s] = m[s].ptr + (wide ? base : 0);
				npages[s] = (mlen[s] + 4095) / 4096;
				if (npages[s] > 64) npages[s] = 64;
				wides[s] = wide;
				memset(locked[s], 0, 64);
			}
			ev_begin("init");
			ev_int("s", s);
			ev_bool("creat", strchr(fl, 'c'));
			ev_bool("trunc", strchr(fl, 't'));
			ev_bool("rdwr", strchr(fl, 'w'));
			ev_bool("w", strchr(pr, 'w'));
			ev_bool("sh", vf_int(4));
			ev_int("off", off);
			ev_int("len", len);
			ev_int("mlen", on[s] ? mlen[s] : 0);
			content();
			result(s, rc);
			vf_raw(",\"view\":[");
			view(s);
			vf_raw("]");
			resources();
			ev_end();
		} else if (vf_is("store")) {
			long p = vf_int(2);
			struct stat st;
			if (!on[s] || p >= mlen[s] || __real_stat64("mapped.file", &st) || p + moff[s] >= st.st_size - base) continue;
			win[s][p] = (unsigned char) vf_int(3);
			ev_begin("store");
			ev_int("s", s);
			ev_int("p", p);
			ev_int("v", vf_int(3));
			content();
			vf_raw(",\"views\":[[");
			view(1);
			vf_raw("],[");
			view(2);
			vf_raw("]]");
			resources();
			ev_end();
		} else if (vf_is("msync") || vf_is("mlock") || vf_is("munlock")) {
			if (!on[s]) continue;
			size_t o = (size_t) vf_int(2), n = (size_t) vf_int(3);
			if (o + n > (size_t) npages[s] * 4096) continue; /* not in this map */
			size_t at = wides[s] ? (size_t) base : 0;
			fault = "";
			memset(synced, 0, sizeof synced);
			m[s].err[0] = 0;
			if (vf_is("msync")) API(rc = sc_mmap_msync(&m[s], o + at, n));
			else if (vf_is("mlock")) API(rc = sc_mmap_mlock(&m[s], o + at, n));
			else API(rc = sc_mmap_munlock(&m[s], o + at, n));
			countdown = 0;
			ev_begin(vf_tok[0]);
			ev_int("s", s);
			ev_int("off", (long) o);
			ev_int("len", (long) n);
			pages(vf_is("msync") ? synced : locked, s);
			result(s, rc);
			resources();
			ev_end();
		} else if (vf_is("term")) {
			if (!inited[s]) continue;
			fault = "";
			m[s].err[0] = 0;
			lost = NULL;
			API(rc = sc_mmap_term(&m[s]));
			countdown = 0;
			on[s] = false;
			if (lost) __real_munmap(lost, lostlen);
			ev_begin("term");
			ev_int("s", s);
			content();
			result(s, rc);
			resources();
			ev_end();
		} else { /* end */
			for (s = 1; s <= 2; s++) if (on[s]) { sc_mmap_term(&m[s]); on[s] = false; }
			ev_begin("end");
			ev_end();
		}
	}
	unlink("mapped.file");
	return 0;
}
