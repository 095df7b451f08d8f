/* Drives the logger with one thread; after each call the new bytes of stdout, stderr,
 * the callback and the files are recorded. */
#include "vf.h"
#include "sc_log.h"
#include <dirent.h>
#include <sys/stat.h>
#include <time.h>

static int fout, ferrf;          /* where descriptors 1 and 2 go */
static off_t pos[6];             /* stdout, stderr, files 1..3 */
static char cbtext[8][20000];
static int cblvl[8], ncb, cbid;
static time_t t_from, t_to;
static long fail_at, nstdio;
static bool failed;

static bool stdio_fails(void)
{
	if (vf_track && fail_at && ++nstdio == fail_at) { failed = true; return true; }
	return false;
}
int __wrap_vfprintf(FILE *f, const char *fmt, va_list va)
{
	extern int __real_vfprintf(FILE *, const char *, va_list);
	if (stdio_fails()) { errno = EIO; return -1; }
	return __real_vfprintf(f, fmt, va);
}
int __wrap_fprintf(FILE *f, const char *fmt, ...)
{
	va_list va;
	if (stdio_fails()) { errno = EIO; return -1; }
	extern int __real_vfprintf(FILE *, const char *, va_list);
	va_start(va, fmt);
	int r = __real_vfprintf(f, fmt, va);
	va_end(va);
	return r;
}
FILE *__wrap_fopen(const char *p, const char *m)
{
	extern FILE *__real_fopen(const char *, const char *);
	if (stdio_fails()) { errno = EMFILE; return NULL; }
	return __real_fopen(p, m);
}
long __wrap_ftell(FILE *f)
{
	extern long __real_ftell(FILE *);
	if (stdio_fails()) { errno = EIO; return -1; }
	return __real_ftell(f);
}

static int fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static int on_log(void *arg, enum sc_log_level lvl, const char *fmt, va_list va)
{
	int t = vf_track;
	vf_track = 0;
	if (arg != &cbid) abort();
	if (ncb < 8) {
		cblvl[ncb] = lvl;
		vsnprintf(cbtext[ncb], sizeof(cbtext[0]), fmt, va);
	}
	ncb++;
	vf_track = t;
	return cbid == 2 ? -1 : 0;
}
/* replaces each correct "[date time]" by "[T]" */
static size_t norm(char *b, size_t n)
{
	for (time_t t = t_from; t <= t_to; t++) {
		char s[64];
		struct tm tm;
		localtime_r(&t, &tm);
		size_t k = strftime(s, sizeof(s), "[%Y-%m-%d %H:%M:%S]", &tm);
		if (n >= k && memcmp(b, s, k) == 0) {
			memmove(b + 3, b + k, n - k);
			memcpy(b, "[T]", 3);
			return n - k + 3;
		}
	}
	return n;
}
static void delta(const char *k, int fd, int i)
{
	static char b[1 << 20];
	ssize_t n = fd < 0 ? 0 : pread(fd, b, sizeof(b), pos[i]);
	if (n < 0) n = 0;
	pos[i] += n;
	n = (ssize_t) norm(b, (size_t) n);
	if (k) ev_bytes(k, b, (size_t) n);
	else {
		vf_raw("[");
		for (ssize_t j = 0; j < n; j++) vf_raw(j ? ",%d" : "%d", (unsigned char) b[j]);
		vf_raw("]");
	}
}
static char fname[4][300];
static void sinks(void)
{
	fflush(NULL);
	delta("so", fout, 0);
	delta("se", ferrf, 1);
	vf_raw(",\"sc\":[");
	for (int i = 0; i < ncb && i < 8; i++) {
		vf_raw(i ? ",{\"lvl\":%d" : "{\"lvl\":%d", cblvl[i]);
		ev_cstr("text", cbtext[i]);
		vf_raw("}");
	}
	vf_raw("],\"sf\":[");
	for (int i = 1; i <= 3; i++) {
		if (i > 1) vf_raw(",");
		int fd = open(fname[i], O_RDONLY);
		delta(NULL, fd, 1 + i);
		if (fd >= 0) close(fd);
	}
	vf_raw("]");
	ncb = 0;
}

int main(void)
{
	char dir[64];
	vf_init();
	sprintf(dir, "log.%d", (int) getpid());
	mkdir(dir, 0700);
	if (chdir(dir)) return 97;
	fout = open("out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	ferrf = open("err", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	int e2 = dup(2);
	fflush(stdout);
	dup2(fout, 1);
	dup2(ferrf, 2);
	int f0 = 0;
	while (vf_next()) {
		if (vf_is("begin")) {
			for (int i = 1; i <= 3; i++) {
				sprintf(fname[i], "f%d", i);
				unlink(fname[i]);
				pos[1 + i] = 0;
			}
			unlink("prev");
			f0 = fds();
			fail_at = 0;
			ncb = 0;
			sc_log_set_thread_name("Thread");
			ev_begin("begin");
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			fail_at = vf_int(1);
			nstdio = 0;
			continue;
		}
		if (vf_is("end")) {
			ev_begin("end");
			ev_int("fds", fds() - f0);
			ev_end();
			continue;
		}
		int rc = 0;
		size_t n;
		failed = false;
		t_from = time(NULL);
		ev_begin(vf_tok[0]);
		if (vf_is("init")) {
			API(rc = sc_log_init());
		} else if (vf_is("term")) {
			API(rc = sc_log_term());
		} else if (vf_is("level")) {
			char *s = vf_hex(1, &n);
			API(rc = sc_log_set_level(s));
			ev_cstr("name", s);
			free(s);
		} else if (vf_is("stdout")) {
			API(sc_log_set_stdout(vf_int(1)));
			ev_bool("on", vf_int(1));
		} else if (vf_is("cb")) {
			cbid = (int) vf_int(1);
			API(sc_log_set_callback(&cbid, cbid ? on_log : NULL));
			ev_int("id", cbid);
		} else if (vf_is("name")) {
			char *s = vf_hex(1, &n);
			API(sc_log_set_thread_name(s));
			ev_cstr("name", s);
			memset(s, 'X', n);
			free(s);
		} else if (vf_is("file")) { /* file <f> [wrong] */
			int f = (int) vf_int(1);
			int wrong = vf_ntok > 2 ? (int) vf_int(2) : 0;
			char lng[400];
			memset(lng, 'q', sizeof(lng));
			lng[wrong >= 10 ? wrong : 0] = 0;
			const char *p = "prev", *c = fname[f];
			if (!f) { if (wrong != 1) p = NULL; if (wrong != 2) c = NULL; if (wrong == 2) c = "f1"; }
			else if (wrong == 1) c = "nodir/f";
			else if (wrong >= 1000) p = lng + 0, lng[wrong - 1000] = 0, lng[0] = 'q';
			else if (wrong >= 10) c = lng;
			char *pp = p ? strdup(p) : NULL, *cc = c ? strdup(c) : NULL;
			errno = 0;
			API(rc = sc_log_set_file(pp, cc));
			int e = errno;
			if (pp) memset(pp, 'X', strlen(pp));
			if (cc) memset(cc, 'X', strlen(cc));
			free(pp);
			free(cc);
			ev_int("f", f);
			ev_int("err", e);
			ev_bool("wrong", f && wrong);
		} else if (vf_is("log")) { /* log <level> <kind> <hex> <int> */
			int l = (int) vf_int(1), k = (int) vf_int(2), i = (int) vf_int(4);
			char *s = vf_hex(3, &n);
			static char text[70000];
			int line = 0;
#define CALL(...)                                                              \
	do {                                                                   \
		line = __LINE__;                                               \
		vf_track = 1;                                                  \
		rc = l == 0 ? sc_log_debug(__VA_ARGS__) : l == 1 ? sc_log_info(__VA_ARGS__) : l == 2 ? sc_log_warn(__VA_ARGS__) : sc_log_error(__VA_ARGS__); \
		vf_track = 0;                                                  \
	} while (0)
			switch (k) {
			case 0: CALL("%s", s); snprintf(text, sizeof(text), "%s", s); break;
			case 1: CALL("%s %d\n", s, i); snprintf(text, sizeof(text), "%s %d\n", s, i); break;
			case 2: CALL("%5.2f|%x|%s|%-8d|%c", i / 8.0, i, s, i, 'q'); snprintf(text, sizeof(text), "%5.2f|%x|%s|%-8d|%c", i / 8.0, i, s, i, 'q'); break;
			case 3: CALL("plain %% text\n"); snprintf(text, sizeof(text), "plain %% text\n"); break;
			case 4: CALL("%d%d%d%d%d%d%d%d%s%f%lld", 1, 2, 3, 4, 5, 6, 7, i, s, 0.5, 1LL << 60); snprintf(text, sizeof(text), "%d%d%d%d%d%d%d%d%s%f%lld", 1, 2, 3, 4, 5, 6, 7, i, s, 0.5, 1LL << 60); break;
			default: CALL(""); text[0] = 0;
			}
#ifdef SC_LOG_PRINT_FILE_NAME
			char pre[64];
			sprintf(pre, "(log_drv.c:%d) ", line);
			memmove(text + strlen(pre), text, strlen(text) + 1);
			memcpy(text, pre, strlen(pre));
#endif
			ev_int("lvl", l);
			ev_cstr("text", text);
			free(s);
		} else
			return 96;
		t_to = time(NULL);
		ev_int("rc", rc);
		ev_bool("failed", failed);
		fail_at = 0;
		sinks();
		ev_end();
	}
	dup2(e2, 2);
	for (int i = 1; i <= 3; i++) unlink(fname[i]);
	return 0;
}
