/* Drives the time functions over scripted clocks and a scripted nanosleep(); also
 * against the real ones, with real interruptions. */
#include "vf.h"
#include "sc_time.h"
#include <signal.h>
#include <sys/time.h>
#include <time.h>

int __real_clock_gettime(clockid_t c, struct timespec *t);
int __real_nanosleep(const struct timespec *a, struct timespec *b);
static volatile int scripted;
static struct timespec real_, mono;
static int pos; /* next outcome */

static void digits(uint64_t v)
{
	char b[24];
	int n = v ? snprintf(b, sizeof(b), "%" PRIu64, v) : 0;
	vf_raw("[");
	for (int i = 0; i < n; i++) vf_raw(i ? ",%d" : "%d", b[i] - '0');
	vf_raw("]");
}
static void dig(const char *k, uint64_t v)
{
	vf_raw(",\"%s\":", k);
	digits(v);
}
static void span(const char *k, const struct timespec *t)
{
	vf_raw(",\"%s\":[", k);
	if (t->tv_sec < 0) vf_raw("[-1]");
	else digits((uint64_t) t->tv_sec);
	vf_raw(",%ld]", t->tv_nsec >= 0 && t->tv_nsec < 1000000000 ? t->tv_nsec : -1L);
}

int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!vf_track || !scripted) return __real_clock_gettime(c, t);
	if (c == CLOCK_REALTIME) *t = real_;
	else if (c == CLOCK_MONOTONIC) *t = mono;
	else return __real_clock_gettime(c, t);
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
	struct timespec t;
	__wrap_clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}

/* outcome: 0, EINTR or another error; advances the scripted clocks by what was slept */
static int outcome(struct timespec ask, struct timespec *rem)
{
	const char *o = pos < vf_ntok ? vf_tok[pos++] : "o";
	struct timespec left = {0, 0};
	int rc = 0;
	vf_track = 0;
	ev_begin("nano");
	span("ask", &ask);
	if (ask.tv_sec < 0 || ask.tv_nsec < 0 || ask.tv_nsec > 999999999 || *o == 'e') {
		rc = *o == 'e' && o[1] ? atoi(o + 1) : EINVAL;
		left = ask;
	} else if (*o == 'i') { /* i<sec>.<nsec> slept at most */
		char *e;
		int64_t s = strtoll(o + 1, &e, 10);
		long n = *e == '.' ? atol(e + 1) : 0;
		if (s > ask.tv_sec || (s == ask.tv_sec && n > ask.tv_nsec)) {
			s = ask.tv_sec;
			n = ask.tv_nsec;
		}
		left.tv_sec = ask.tv_sec - s;
		left.tv_nsec = ask.tv_nsec - n;
		if (left.tv_nsec < 0) {
			left.tv_nsec += 1000000000;
			left.tv_sec--;
		}
		rc = EINTR;
	}
	ev_str("res", rc == 0 ? "ok" : rc == EINTR ? "eintr" : "fail");
	span("rem", &left);
	ev_end();
	if (rc == EINTR && rem) *rem = left;
	vf_track = 1;
	return rc;
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b)
{
	if (!vf_track || !scripted) return __real_nanosleep(a, b);
	int rc = outcome(*a, b);
	errno = rc ? rc : errno;
	return rc ? -1 : 0;
}
int __real_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b);
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
{
	if (!vf_track || !scripted || f) return __real_clock_nanosleep(c, f, a, b);
	return outcome(*a, b);
}

static void on_alarm(int s) { (void) s; }
static uint64_t ns(void)
{
	struct timespec t;
	__real_clock_gettime(CLOCK_MONOTONIC, &t);
	return (uint64_t) t.tv_sec * 1000000000 + t.tv_nsec;
}

int main(void)
{
	vf_init();
	while (vf_next()) {
		scripted = 1;
		if (vf_is("begin") || vf_is("end")) {
			ev_begin(vf_tok[0]);
			ev_end();
		} else if (vf_is("clock")) {
			real_.tv_sec = (time_t) vf_i64(1);
			real_.tv_nsec = vf_int(2);
			mono.tv_sec = (time_t) vf_i64(3);
			mono.tv_nsec = vf_int(4);
			for (int k = 0; k < 4; k++) {
				static const char *nm[] = {"time_ms", "time_ns", "mono_ms", "mono_ns"};
				uint64_t r = 0;
				API(r = k == 0 ? sc_time_ms() : k == 1 ? sc_time_ns() : k == 2 ? sc_time_mono_ms() : sc_time_mono_ns());
				ev_begin("read");
				ev_str("f", nm[k]);
				dig("r", r);
				vf_raw(",\"clk\":{\"op\":0");
				span("real", &real_);
				span("mono", &mono);
				vf_raw("}");
				ev_end();
			}
		} else if (vf_is("sleep")) { /* ms outcome... */
			int rc = 0;
			pos = 2;
			ev_begin("sleep");
			dig("ms", vf_u64(1));
			ev_end();
			errno = (int) (vf_u64(1) % 5 == 0 ? EINTR : 0);
			API(rc = sc_time_sleep(vf_u64(1)));
			ev_begin("slept");
			ev_int("rc", rc);
			ev_end();
		} else if (vf_is("real")) {
			scripted = 0;
			struct timespec a[2], b[2];
			uint64_t r[4];
			__real_clock_gettime(CLOCK_REALTIME, &a[0]);
			__real_clock_gettime(CLOCK_MONOTONIC, &a[1]);
			r[0] = sc_time_ms();
			r[1] = sc_time_ns();
			r[2] = sc_time_mono_ms();
			r[3] = sc_time_mono_ns();
			__real_clock_gettime(CLOCK_REALTIME, &b[0]);
			__real_clock_gettime(CLOCK_MONOTONIC, &b[1]);
			ev_begin("real");
			vf_raw(",\"a\":{\"op\":0");
			span("real", &a[0]);
			span("mono", &a[1]);
			vf_raw("},\"b\":{\"op\":0");
			span("real", &b[0]);
			span("mono", &b[1]);
			vf_raw("}");
			dig("time_ms", r[0]);
			dig("time_ns", r[1]);
			dig("mono_ms", r[2]);
			dig("mono_ns", r[3]);
			ev_end();
		} else if (vf_is("realsleep")) { /* ms, signal every us */
			scripted = 0;
			struct sigaction sa = {.sa_handler = on_alarm};
			long us = vf_int(2);
			struct itimerval it = {{0, us}, {0, us}}, off = {{0, 0}, {0, 0}};
			sigaction(SIGALRM, &sa, NULL);
			uint64_t t = ns();
			setitimer(ITIMER_REAL, &it, NULL);
			int rc = sc_time_sleep(vf_u64(1));
			setitimer(ITIMER_REAL, &off, NULL);
			t = ns() - t;
			ev_begin("realsleep");
			ev_int("ms", vf_int(1));
			ev_int("elapsed_us", (long) (t / 1000));
			ev_int("rc", rc);
			ev_end();
		}
	}
	return 0;
}
