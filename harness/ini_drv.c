/* Drives the INI parser: every text as a string and as a file, with the callback
 * asking to stop at a given item, with read errors and with unreadable files. */
#include "vf.h"
#include "sc_ini.h"
#include <sys/stat.h>
#include <dirent.h>

static int nitem, stop;
static long cut = -1;   /* read error after that many bytes */
static const char *mode;

static int on_item(void *arg, int line, const char *sec, const char *key, const char *val)
{
	if (arg != &nitem) abort();
	int t = vf_track;
	vf_track = 0;
	vf_raw(nitem ? ",{\"n\":%d" : "{\"n\":%d", line);
	ev_cstr("s", sec);
	ev_cstr("k", key);
	ev_cstr("v", val);
	vf_raw("}");
	nitem++;
	vf_track = t;
	if (stop && nitem >= stop) return (nitem & 1) ? 7 : -3;
	return 0;
}

static int fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}

/* a stream over the file that fails after cut bytes */
struct ck { FILE *f; long left; };
static ssize_t ck_read(void *c, char *buf, size_t n)
{
	struct ck *k = c;
	if (k->left <= 0) { errno = EIO; return -1; }
	if ((long) n > k->left) n = (size_t) k->left;
	n = fread(buf, 1, n, k->f);
	k->left -= (long) n;
	return (ssize_t) n;
}
static int ck_close(void *c) { struct ck *k = c; fclose(k->f); free(k); return 0; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *m)
{
	FILE *f = __real_fopen(path, m);
	if (!f || cut < 0 || !vf_track) return f;
	int t = vf_track;
	vf_track = 0;
	struct ck *k = malloc(sizeof(*k));
	k->f = f;
	k->left = cut;
	f = fopencookie(k, m, (cookie_io_functions_t){.read = ck_read, .close = ck_close});
	vf_track = t;
	return f;
}

static void ev(const char *op, const char *txt, size_t n)
{
	ev_begin(op);
	ev_bytes("t", txt, n);
	ev_int("stop", stop);
	vf_raw(",\"items\":[");
	nitem = 0;
}

int main(void)
{
	char path[64];
	vf_init();
	sprintf(path, "ini.%d", (int) getpid());
	while (vf_next()) {
		if (vf_is("begin")) {
			vf_reset_live();
			vf_arm(0);
			ev_begin("begin");
			ev_end();
			continue;
		}
		if (vf_is("end")) {
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		int rc = 0, f0;
		size_t n = 0;
		char *t = vf_ntok > 1 ? vf_hex(1, &n) : NULL;
		stop = vf_ntok > 2 ? (int) vf_int(2) : 0;
		if (vf_is("nofile")) {
			if (n) mkdir(path, 0700);
			f0 = fds();
			ev("nofile", t, n);
			API(rc = sc_ini_parse_file(&nitem, on_item, path));
			vf_raw("]");
			ev_int("rc", rc);
			ev_int("fds", fds() - f0);
			ev_end();
			rmdir(path);
			free(t);
			continue;
		}
		if (vf_is("lines")) { /* lines TEXT STOP PAD: that many empty lines before it */
			size_t pad = (size_t) vf_u64(3);
			char *copy = malloc(pad + n + 1);
			memset(copy, '\n', pad);
			memcpy(copy + pad, t, n + 1);
			for (int file = 0; file < 2; file++) {
				FILE *f = __real_fopen(path, "wb");
				fwrite(copy, 1, pad + n, f);
				fclose(f);
				ev("lines", t, n);
				if (file) API(rc = sc_ini_parse_file(&nitem, on_item, path));
				else API(rc = sc_ini_parse_string(&nitem, on_item, copy));
				vf_raw("]");
				ev_int("rc", rc);
				ev_int("pad", (long) pad);
				ev_end();
			}
			unlink(path);
			free(copy);
			free(t);
			continue;
		}
		/* "both TEXT STOP" or "ferr TEXT STOP CUT" */
		if (vf_is("both")) {
			char *copy = malloc(n + 1);
			memcpy(copy, t, n + 1);
			ev("string", t, n);
			API(rc = sc_ini_parse_string(&nitem, on_item, copy));
			vf_raw("]");
			ev_int("rc", memcmp(copy, t, n + 1) ? -1000 : rc);
			ev_end();
			free(copy);
		}
		FILE *f = __real_fopen(path, "wb");
		fwrite(t, 1, n, f);
		fclose(f);
		cut = vf_is("ferr") ? vf_int(3) : -1;
		f0 = fds();
		ev(cut >= 0 ? "ferr" : "file", t, cut >= 0 && (size_t) cut < n ? (size_t) cut : n);
		API(rc = sc_ini_parse_file(&nitem, on_item, path));
		vf_raw("]");
		ev_int("rc", rc);
		ev_int("fds", fds() - f0);
		ev_end();
		cut = -1;
		unlink(path);
		free(t);
	}
	return 0;
}
