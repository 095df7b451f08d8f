/* Drives the perf counters over a scripted kernel, one process per chunk (a failing
 * call ends it). The kernel's counters are descriptors 5000 and up. */
#include "vf.h"
#include "sc_perf.h"
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>

int __real_clock_gettime(clockid_t c, struct timespec *t);
ssize_t __real_read(int fd, void *b, size_t n);
int __real_close(int fd);
int __real_prctl(int o, ...);
int __real_ioctl(int fd, unsigned long r, ...);

#define BASE 5000
static uint64_t fmt[64];
static int nopen;
static long fault, err, now;
static int faultkind;
static uint64_t seed;
static unsigned rnd(unsigned n)
{
	seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
	return (unsigned) (seed >> 33) % n;
}
static bool fails(void)
{
	return fault > 0 && --fault == 0;
}

long __wrap_syscall(long nr, ...)
{
	va_list va;
	va_start(va, nr);
	long a[6];
	for (int i = 0; i < 6; i++) a[i] = va_arg(va, long);
	va_end(va);
	if (nr != __NR_perf_event_open) _exit(97);
	struct perf_event_attr *p = (void *) a[0];
	int fd = fails() || nopen == 64 ? -1 : BASE + nopen++;
	ev_begin("open");
	ev_int("type", (long) p->type);
	ev_int("config", (long) (p->config & 0x7fffffff));
	ev_int("pid", (int) a[1]);
	ev_int("cpu", (int) a[2]);
	ev_bool("disabled", p->disabled);
	/* user, kernel and hypervisor work, threads and children too, a group of its own */
	ev_bool("all", p->inherit && !p->exclude_user && !p->exclude_kernel && !p->exclude_hv && !p->exclude_idle && (int) a[3] == -1);
	ev_bool("times", (p->read_format & 3) == 3 && p->size >= PERF_ATTR_SIZE_VER0);
	ev_int("fd", fd);
	ev_end();
	if (fd < 0) {
		errno = (int) err;
		return -1;
	}
	fmt[fd - BASE] = p->read_format;
	return fd;
}
static int switched(bool on, int fd)
{
	int rc = fails() ? -1 : 0;
	ev_begin("switch");
	ev_bool("on", on);
	ev_int("fd", fd);
	ev_int("rc", rc);
	ev_end();
	if (rc) errno = (int) err;
	return rc;
}
int __wrap_prctl(int o, ...)
{
	if (o == PR_TASK_PERF_EVENTS_ENABLE || o == PR_TASK_PERF_EVENTS_DISABLE) return switched(o == PR_TASK_PERF_EVENTS_ENABLE, -1);
	return 0;
}
int __wrap_ioctl(int fd, unsigned long r, ...)
{
	if (fd >= BASE && (r == PERF_EVENT_IOC_ENABLE || r == PERF_EVENT_IOC_DISABLE)) return switched(r == PERF_EVENT_IOC_ENABLE, fd);
	errno = EINVAL;
	return -1;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	(void) c;
	if (fails()) {
		ev_begin("clock");
		ev_end();
		errno = (int) err;
		return -1;
	}
	t->tv_sec = 5000000000L + now / 100;
	t->tv_nsec = now % 100 * 10000000;
	return 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (fd < BASE) return __real_read(fd, b, n);
	uint64_t f = fmt[fd - BASE], v[5], e, r;
	size_t k = 0;
	static const uint64_t big[] = {0, 1, 99, 4294967295u, 4294967296ull, 4503599627370495ull, 987654321012345ull};
	v[k++] = rnd(10000);
	e = rnd(5) ? 1 + rnd(1000) : 0;
	r = e ? rnd(3) ? e : rnd((unsigned) e + 1) : 0;
	if (!r) v[0] = 0;
	if (e == r && r && rnd(2)) v[0] = big[rnd(7)];
	if (f & PERF_FORMAT_TOTAL_TIME_ENABLED) v[k++] = e;
	if (f & PERF_FORMAT_TOTAL_TIME_RUNNING) v[k++] = r;
	if (f & PERF_FORMAT_ID) v[k++] = 77;
	size_t need = k * 8;
	const char *res = "ok";
	ssize_t rc = (ssize_t) need;
	if (n < need) {
		res = "fail";
		rc = -1;
		errno = ENOSPC;
	} else if (fails()) {
		res = err == EINTR ? "eintr" : "fail";
		if (faultkind && err != EINTR) { /* short or empty */
			rc = faultkind == 1 ? 0 : 8;
			memcpy(b, v, (size_t) rc);
		} else {
			rc = -1;
			errno = (int) err;
		}
	} else {
		memcpy(b, v, need);
	}
	char s[32];
	snprintf(s, sizeof(s), "%" PRIu64, v[0]);
	ev_begin("read");
	ev_int("fd", fd);
	ev_str("res", res);
	ev_int("v", v[0] < 10000 ? (long) v[0] : 0);
	ev_str("s", s);
	ev_int("e", (long) e);
	ev_int("r", (long) r);
	ev_end();
	return rc;
}
int __wrap_close(int fd)
{
	if (fd < BASE && fd >= 0) return __real_close(fd);
	ev_begin("close");
	ev_int("fd", fd);
	ev_end();
	if (rnd(9) == 0) {
		errno = EINTR;
		return -1;
	}
	return 0;
}

/* "| name | value | (share) ..." lines of the report */
static void rows(FILE *f)
{
	char ln[512];
	bool first = true;
	fflush(stdout);
	rewind(f);
	vf_raw(",\"rows\":[");
	while (fgets(ln, sizeof(ln), f)) {
		char *n = strtok(ln, "|"), *v = strtok(NULL, "|"), *p = strtok(NULL, "|");
		if (!n || !v || !p) continue;
		while (*n == ' ') n++;
		for (char *e = n + strlen(n); e > n && e[-1] == ' ';) *--e = 0;
		while (*v == ' ') v++;
		for (char *e = v + strlen(v); e > v && (e[-1] == ' ' || e[-1] == '\n');) *--e = 0;
		if (!strcmp(n, "Event")) continue;
		p = strchr(p, '(');
		double x = atof(v) * 100;
		vf_raw(first ? "{\"n\":\"%s\",\"t\":\"%s\",\"v\":%ld,\"p\":%ld}" : ",{\"n\":\"%s\",\"t\":\"%s\",\"v\":%ld,\"p\":%ld}", n, v,
		       x >= 0 && x < 2e9 ? (long) (x + .5) : -1L, p ? (long) (atof(p + 1) * 100 + .5) : -1L);
		first = false;
	}
	vf_raw("]");
	rewind(f);
	if (ftruncate(fileno(f), 0)) _exit(97);
}

int main(void)
{
	vf_init();
	pid_t pid = 0;
	bool child = false;
	FILE *out = tmpfile(), *errf = tmpfile();
	dup2(fileno(out), 1);
	dup2(fileno(errf), 2);
	while (vf_next()) {
		if (vf_is("begin")) {
			ev_begin("begin");
			ev_end();
			fflush(NULL);
			if (ftruncate(fileno(out), 0) || ftruncate(fileno(errf), 0)) _exit(97);
			lseek(1, 0, SEEK_SET);
			lseek(2, 0, SEEK_SET);
			pid = fork();
			child = pid == 0;
			seed = (uint64_t) vf_i64(1);
			continue;
		}
		if (!child) {
			if (!vf_is("end")) continue;
			int st;
			while (waitpid(pid, &st, 0) < 0) ;
			vf_pos += strlen(vf_out + vf_pos);
			if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 97)) _exit(WEXITSTATUS(st));
			if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
				ev_begin("died");
				ev_bool("msg", lseek(2, 0, SEEK_END) > 0);
				ev_bool("eintr", strstr(vf_out + vf_pos > vf_out + 700 ? vf_out + vf_pos - 700 : vf_out, "\"eintr\"") != NULL);
				ev_end();
			}
			ev_begin("end");
			ev_end();
			continue;
		}
		if (vf_is("end")) _exit(0);
		if (vf_is("tick")) {
			now += vf_int(1);
			ev_begin("tick");
			ev_int("d", vf_int(1));
			ev_end();
			continue;
		}
		/* start | pause | end_  [fault err kind] */
		fault = vf_ntok > 1 ? vf_int(1) : 0;
		err = vf_ntok > 2 ? vf_int(2) : EINVAL;
		faultkind = vf_ntok > 3 ? (int) vf_int(3) : 0;
		const char *f = vf_is("stop") ? "end" : vf_tok[0];
		ev_begin("call");
		ev_str("f", f);
		ev_end();
		if (vf_is("start")) sc_perf_start();
		else if (vf_is("pause")) sc_perf_pause();
		else sc_perf_end();
		fault = 0;
		ev_begin("ret");
		rows(out);
		ev_end();
	}
	return 0;
}
