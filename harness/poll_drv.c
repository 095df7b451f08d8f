/* Poll sets over socket pairs and pipes.
 * begin | pinit P | pterm P | open I KIND | close I | add P I EV K [nest a|d EV K] | del ... |
 * peer I write|read|close|shut | own I fill|drain | wait P TIMEOUT | fault ctl|wait ERRNO COUNT | end */
#include "vf.h"
#include "sc_sock.h"
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <time.h>

#define N 9
static struct sc_sock s[N];
static int peer[N], kind[N], inpoll[N];
static bool isopen[N], pipekind;
static struct sc_sock_poll P[3];
static bool up[3];
static int ctlfault, waitfault, waitcount;
static bool refused;
static struct { int op, p, i, e, k, rc; bool armed, ran; char err[160]; } nest;

static void *data(int i, int k) { return (void *) (intptr_t) (i * 100 + k); }

int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_ctl(int ep, int op, int f, struct epoll_event *e)
{
	if (vf_track && ctlfault) {
		errno = ctlfault;
		ctlfault = 0;
		refused = true;
		return -1;
	}
	int rc = __real_epoll_ctl(ep, op, f, e);
	if (rc == 0 && nest.armed) {
		nest.armed = false;
		nest.ran = true;
		nest.rc = nest.op == 'a' ? sc_sock_poll_add(&P[nest.p], &s[nest.i].fdt, (enum sc_sock_ev) nest.e, data(nest.i, nest.k)) :
					   sc_sock_poll_del(&P[nest.p], &s[nest.i].fdt, (enum sc_sock_ev) nest.e, data(nest.i, nest.k));
	}
	return rc;
}
#define WAITW(name, params, args) \
	int __real_##name params; \
	int __wrap_##name params \
	{ \
		if (vf_track && waitcount) { waitcount--; errno = waitfault; refused = waitfault != EINTR; return -1; } \
		return __real_##name args; \
	}
WAITW(epoll_wait, (int e, struct epoll_event *v, int n, int t), (e, v, n, t))
WAITW(epoll_pwait, (int e, struct epoll_event *v, int n, int t, const sigset_t *m), (e, v, n, t, m))

static void changed(const char *op, int p, int i, int e, int k, bool ref, int rc)
{
	ev_begin(op);
	ev_int("p", p);
	ev_int("i", i);
	ev_int("e", e);
	ev_int("d", i * 100 + k);
	ev_bool("refused", ref);
	ev_int("rc", rc < 0 ? -1 : rc);
	ev_bool("text", sc_sock_poll_err(&P[p])[0] != 0);
	ev_end();
}
static long now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static void act(int i, const char *what)
{
	ev_begin("act");
	ev_int("i", i);
	ev_str("what", what);
	ev_end();
}
static short look(int f)
{
	struct pollfd q = {.fd = f, .events = POLLIN | POLLOUT | POLLRDHUP};
	poll(&q, 1, 0);
	return q.revents;
}
static void shut(int i)
{
	if (!isopen[i]) return;
	close(s[i].fdt.fd);
	if (peer[i] >= 0) close(peer[i]);
	isopen[i] = false;
}

int main(void)
{
	static char b[1 << 16];
	signal(SIGPIPE, SIG_IGN);
	vf_init();
	while (vf_next()) {
		int i = vf_ntok > 1 ? atoi(vf_tok[1]) : 0;
		if (vf_is("begin")) {
			for (int j = 1; j < N; j++) shut(j), inpoll[j] = 0;
			for (int p = 1; p <= 2; p++) { if (up[p]) sc_sock_poll_term(&P[p]); up[p] = false; memset(&P[p], 0, sizeof P[p]); }
			ctlfault = waitcount = 0;
			nest.armed = false;
			ev_begin("begin");
			ev_end();
		} else if (vf_is("pinit")) {
			int rc;
			if (up[i]) continue;
			API(rc = sc_sock_poll_init(&P[i]));
			up[i] = rc == 0;
			ev_begin("pinit");
			ev_int("p", i);
			ev_int("rc", rc);
			ev_end();
		} else if (vf_is("pterm")) {
			int rc;
			API(rc = sc_sock_poll_term(&P[i]));
			up[i] = false;
			for (int j = 1; j < N; j++) if (isopen[j] && inpoll[j] == i) { int f = s[j].fdt.fd; sc_sock_init(&s[j], 0, false, AF_UNIX); s[j].fdt.fd = f; inpoll[j] = 0; }
			ev_begin("pterm");
			ev_int("p", i);
			ev_int("rc", rc);
			ev_end();
		} else if (vf_is("open")) {
			int f[2], sz = 4096;
			if (isopen[i]) continue;
			kind[i] = (int) vf_int(2);
			sc_sock_init(&s[i], 0, false, AF_UNIX);
			if (kind[i] == 0) {
				socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, f);
				setsockopt(f[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
				setsockopt(f[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
			} else {
				pipe2(f, O_NONBLOCK);
				fcntl(f[1], F_SETPIPE_SZ, 4096);
			}
			s[i].fdt.fd = kind[i] == 2 ? f[1] : f[0];
			peer[i] = kind[i] == 2 ? f[0] : f[1];
			isopen[i] = true;
			inpoll[i] = 0;
			ev_begin("open");
			ev_int("i", i);
			ev_end();
		} else if (vf_is("close")) {
			if (!isopen[i]) continue;
			shut(i);
			inpoll[i] = 0;
			ev_begin("close");
			ev_int("i", i);
			ev_end();
		} else if (vf_is("add") || vf_is("del")) {
			int p = i, rc, e = (int) vf_int(3), k = (int) vf_int(4);
			char *op = strdup(vf_tok[0]);
			i = (int) vf_int(2);
			if (!up[p] || !isopen[i] || (inpoll[i] && inpoll[i] != p)) { ctlfault = 0; free(op); continue; }
			refused = false;
			nest.armed = nest.ran = false;
			if (vf_ntok > 5) {
				nest.op = vf_tok[6][0];
				nest.p = p;
				nest.i = i;
				nest.e = (int) vf_int(7);
				nest.k = (int) vf_int(8);
				nest.armed = true;
			}
			sc_sock_poll_err(&P[p]);
			vf_track = 1;
			if (op[0] == 'a') rc = sc_sock_poll_add(&P[p], &s[i].fdt, (enum sc_sock_ev) e, data(i, k));
			else rc = sc_sock_poll_del(&P[p], &s[i].fdt, (enum sc_sock_ev) e, data(i, k));
			vf_track = 0;
			ctlfault = 0;
			nest.armed = false;
			changed(op, p, i, e, k, refused, rc);
			if (nest.ran) changed(nest.op == 'a' ? "add" : "del", p, i, nest.e, nest.k, false, nest.rc);
			inpoll[i] = p; /* until it is closed, kept simple */
			free(op);
		} else if (vf_is("peer")) {
			const char *w = vf_tok[2];
			if (!isopen[i] || peer[i] < 0) continue;
			if (strcmp(w, "write") == 0) {
				bool had = look(s[i].fdt.fd) & POLLIN;
				if (kind[i] == 2) continue;
				if (write(peer[i], "x", 1) != 1) continue;
				act(i, kind[i] && had ? "more" : "data");
			} else if (strcmp(w, "read") == 0) {
				if (kind[i] == 1) continue;
				while (read(peer[i], b, sizeof b) > 0);
				act(i, "room");
			} else if (strcmp(w, "shut") == 0) {
				if (kind[i] || shutdown(peer[i], SHUT_WR)) continue;
				act(i, "more");
			} else {
				close(peer[i]);
				peer[i] = -1;
				act(i, "close");
			}
		} else if (vf_is("own")) {
			if (!isopen[i]) continue;
			if (vf_tok[2][0] == 'f') while (kind[i] != 1 && write(s[i].fdt.fd, b, 512) > 0);
			else while (kind[i] != 2 && read(s[i].fdt.fd, b, sizeof b) > 0);
			act(i, "own");
		} else if (vf_is("fault")) {
			if (vf_tok[1][0] == 'c') ctlfault = (int) vf_int(2);
			else waitfault = (int) vf_int(2), waitcount = (int) vf_int(3);
		} else if (vf_is("wait")) {
			int p = i, t = (int) vf_int(2), rc;
			bool some = false;
			short r[N] = {0};
			for (int j = 1; j < N; j++) if (isopen[j]) { r[j] = look(s[j].fdt.fd); some = some || (inpoll[j] == p && r[j]); }
			if (t < 0 && up[p] && !(waitcount && waitfault != EINTR)) t = 0;
			refused = false;
			long t0 = now();
			API(rc = sc_sock_poll_wait(&P[p], t));
			long ms = now() - t0;
			waitcount = 0;
			ev_begin("wait");
			ev_int("p", p);
			ev_int("timeout", t);
			ev_int("ms", ms);
			ev_bool("refused", refused);
			ev_bool("text", sc_sock_poll_err(&P[p])[0] != 0);
			vf_raw(",\"r\":[");
			for (int j = 1; j < N; j++) vf_raw("%s{\"in\":%s,\"out\":%s,\"hup\":%s}", j > 1 ? "," : "", r[j] & POLLIN ? "true" : "false", r[j] & POLLOUT ? "true" : "false", r[j] & (POLLHUP | POLLRDHUP | POLLERR) ? "true" : "false");
			vf_raw("],\"res\":[");
			int k = 0, n = rc;
			for (int j = 0; j < rc; j++) {
				uint32_t e = sc_sock_poll_event(&P[p], j);
				if (e == 0) { n--; continue; } /* reports nothing */
				vf_raw("%s[%d,%u]", k++ ? "," : "", (int) (intptr_t) sc_sock_poll_data(&P[p], j), e);
			}
			vf_raw("]");
			ev_int("rc", rc < 0 ? -1 : n);
			ev_end();
		} else { /* end */
			ev_begin("end");
			ev_end();
		}
	}
	return 0;
}
