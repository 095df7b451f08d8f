/* Sockets, pipes and poll sets with a failing call at any point.
 * begin | init S BLK FAM(4 6 u) | listen S KIND | connect S L|0 KIND SRC | accept L S | finish S | send S N | recv S N |
 * term S | setblk S B | timeo S r|s MS | addr S LEN | pipe P | pwrite P N | pread P N | pipeterm P | poll P | pollterm P |
 * notify KIND N | fault N ERRNO | xfer eintr|short|err A B | soerr E (what the next SO_ERROR says) | end
 * SRC of a connect: - none, 2 another loopback address, n not ours, x of another family, P a port, Q address and port */
#include "vf.h"
#include "sc_sock.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>

#define N 6
static struct sc_sock s[N];
static bool inited[N], islisten[N], isconn[N];
static char fam[N];
static int port[N];
static char upath[N][200];
static long outn[N], inn[N];
static struct sc_sock_pipe pp[3];
static struct sc_sock_poll po[3];
static bool ppup[3], poup[3];
static long pout[3], pin[3];

static int lastport; /* where the last connect() went */
static int f0, countdown, ferr, badclose, gai;
static const char *fault;
static int xk, xa, xb;            /* pending transfer fault: 1 eintr, 2 short, 3 error */
static long moved;                /* bytes the kernel moved in this call */
static int kcalls, klast, kerr;   /* last transfer call: 0 bytes, -1 error */
static bool taken;                /* a real accept happened */

static bool hit(const char *what)
{
	if (!vf_track || !countdown || --countdown) return false;
	fault = what;
	errno = (ferr == EAGAIN || ferr == EINPROGRESS) && what[0] != 'a' && strcmp(what, "connect") ? ENOMEM : ferr; /* these are the calls that may block */
	return true;
}
#define W(ret, name, params, args, bad) \
	ret __real_##name params; \
	ret __wrap_##name params { if (hit(#name)) return bad; return __real_##name args; }
W(int, socket, (int a, int b, int c), (a, b, c), -1)
W(int, listen, (int f, int n), (f, n), -1)
W(int, setsockopt, (int f, int l, int o, const void *v, socklen_t n), (f, l, o, v, n), -1)
static int soerr;
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __wrap_getsockopt(int f, int l, int o, void *v, socklen_t *n)
{
	if (hit("getsockopt")) return -1;
	if (vf_track && soerr && l == SOL_SOCKET && o == SO_ERROR) {
		fault = "so_error";
		*(int *) v = soerr;
		*n = sizeof(int);
		soerr = 0;
		return 0;
	}
	return __real_getsockopt(f, l, o, v, n);
}
W(int, getsockname, (int f, struct sockaddr *a, socklen_t *n), (f, a, n), -1)
W(int, getpeername, (int f, struct sockaddr *a, socklen_t *n), (f, a, n), -1)
int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int f, const struct sockaddr *a, socklen_t n)
{
	if (vf_track) lastport = a->sa_family == AF_INET ? ntohs(((struct sockaddr_in *) a)->sin_port) : a->sa_family == AF_INET6 ? ntohs(((struct sockaddr_in6 *) a)->sin6_port) : 0;
	if (hit("connect")) return -1;
	return __real_connect(f, a, n);
}
W(int, pipe, (int *f), (f), -1)
W(int, pipe2, (int *f, int fl), (f, fl), -1)
W(int, epoll_create1, (int fl), (fl), -1)
W(int, epoll_create, (int n), (n), -1)
int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int f, const struct sockaddr *a, socklen_t n)
{
	if (hit("bind")) return -1;
	/* nothing outside the scratch directory */
	if (vf_track && a->sa_family == AF_UNIX && memchr(((struct sockaddr_un *) a)->sun_path, '/', 100)) { errno = EPERM; return -1; }
	return __real_bind(f, a, n);
}
int __real_unlink(const char *);
int __wrap_unlink(const char *p) { if (vf_track && strchr(p, '/')) { errno = EPERM; return -1; } return __real_unlink(p); }
int __real_fcntl(int, int, ...);
int __wrap_fcntl(int f, int c, long a) { return hit("fcntl") ? -1 : __real_fcntl(f, c, a); }
int __real_fcntl64(int, int, ...);
int __wrap_fcntl64(int f, int c, long a) { return hit("fcntl") ? -1 : __real_fcntl64(f, c, a); }
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int f, struct sockaddr *a, socklen_t *n) { if (hit("accept")) return -1; int r = __real_accept(f, a, n); if (vf_track && r >= 0) taken = true; return r; }
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __wrap_accept4(int f, struct sockaddr *a, socklen_t *n, int fl) { if (hit("accept")) return -1; int r = __real_accept4(f, a, n, fl); if (vf_track && r >= 0) taken = true; return r; }
void __real_freeaddrinfo(struct addrinfo *);
static int deadport(void);
static char hosts[16];
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *i, struct addrinfo **r)
{
	if (hit("getaddrinfo")) return EAI_MEMORY;
	int rc;
	if (vf_track && hosts[0]) { /* the name has several addresses */
		struct addrinfo **e = r;
		char b[16], list[16];
		strcpy(list, hosts);
		hosts[0] = 0;
		*r = NULL;
		for (char *k = list; *k; k++) {
			sprintf(b, "%d", deadport());
			rc = *k == 't' ? __real_getaddrinfo(h, p, i, e) : __real_getaddrinfo(*k == 'd' ? "127.0.0.1" : "::1", *k == 'd' ? b : "1", i, e);
			if (rc) { if (*r) __real_freeaddrinfo(*r); return rc; }
			while (*e) e = &(*e)->ai_next;
		}
	} else rc = __real_getaddrinfo(h, p, i, r);
	if (vf_track && rc == 0) gai++;
	return rc;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { if (vf_track) gai--; __real_freeaddrinfo(a); }
int __real_close(int);
int __wrap_close(int f)
{
	if (vf_track && __real_fcntl(f, F_GETFD) < 0) badclose++;
	if (hit("close")) { int e = errno; __real_close(f); errno = e; return -1; } /* as Linux does: it is closed */
	return __real_close(f);
}
/* transfers */
static int xfer(size_t *n)
{
	kcalls++;
	if (xk == 1 && xa > 0) { xa--; errno = EINTR; klast = -1; kerr = EINTR; return -1; }
	if (xk == 3 && xa-- == 0) { xk = 0; errno = xb; klast = -1; kerr = xb; return -1; }
	if (xk == 2 && *n > (size_t) xa) *n = (size_t) xa;
	return 0;
}
static ssize_t did(ssize_t r) { klast = r < 0 ? -1 : (int) r; kerr = errno; if (r > 0) moved += r; return r; }
#define X(name, params, args, len) \
	ssize_t __real_##name params; \
	ssize_t __wrap_##name params { if (!vf_track) return __real_##name args; if (xfer(&len)) return -1; return did(__real_##name args); }
X(send, (int f, const void *b, size_t n, int fl), (f, b, n, fl), n)
X(recv, (int f, void *b, size_t n, int fl), (f, b, n, fl), n)
X(sendto, (int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l), (f, b, n, fl, a, l), n)
X(recvfrom, (int f, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l), (f, b, n, fl, a, l), n)
X(read, (int f, void *b, size_t n), (f, b, n), n)
X(write, (int f, const void *b, size_t n), (f, b, n), n)
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __wrap_sendmsg(int f, const struct msghdr *m, int fl) { if (hit("sendmsg")) return -1; return __real_sendmsg(f, m, fl); }

static int fds(void)
{
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
static unsigned char pat(int id, long k) { return (unsigned char) (k * 7 + k / 251 * 13 + id * 29); }
static int waiting[N];
static bool fresh[N]; /* connecting, nothing transferred yet */
static void start(void)
{
	for (int j = 0; j < N; j++) if (inited[j]) s[j].err[0] = 0;
	for (int j = 0; j < 3; j++) if (ppup[j]) pp[j].err[0] = 0;
	*(char *) sc_sock_poll_err(&po[0]) = 0;
	fault = ""; moved = 0; kcalls = 0; klast = 0; kerr = 0; taken = false; errno = 0;
}
static bool nonblock(int i) { int f = __real_fcntl(s[i].fdt.fd, F_GETFL); return f >= 0 && (f & O_NONBLOCK); }
static short ready(int f, short e)
{
	struct pollfd q = {.fd = f, .events = e};
	return poll(&q, 1, 0) > 0 ? q.revents : 0;
}
static void result(int rc, int err, const char *text)
{
	ev_int("rc", rc < -1 ? -1 : rc);
	ev_str("fault", fault);
	ev_str("err", rc >= 0 ? "" : err == EAGAIN ? "EAGAIN" : err == EOF ? "EOF" : "other");
	ev_bool("text", text && memchr(text, 0, 128) && text[0]);
	ev_int("fds", fds() - f0);
	ev_int("bad", badclose);
	ev_int("gai", gai);
	ev_int("live", (int) vf_live);
	ev_end();
}
static void done(int i, int rc, int err) { hosts[0] = 0; result(rc, err, sc_sock_error(&s[i])); countdown = 0; xk = soerr = 0; }
static int localport(int i)
{
	struct sockaddr_storage a;
	socklen_t n = sizeof a;
	if (__real_getsockname(s[i].fdt.fd, (struct sockaddr *) &a, &n)) return 0;
	return a.ss_family == AF_INET ? ntohs(((struct sockaddr_in *) &a)->sin_port) : ntohs(((struct sockaddr_in6 *) &a)->sin6_port);
}
/* the address as the kernel has it; host only or as host:port */
static void kernaddr(char *b, int i, bool remote, bool withport)
{
	struct sockaddr_storage a;
	socklen_t n = sizeof a;
	char h[64];
	memset(&a, 0, sizeof a);
	*b = 0;
	if ((remote ? __real_getpeername : __real_getsockname)(s[i].fdt.fd, (struct sockaddr *) &a, &n)) return;
	if (a.ss_family == AF_UNIX) {
		size_t l = n > offsetof(struct sockaddr_un, sun_path) ? n - offsetof(struct sockaddr_un, sun_path) : 0;
		memcpy(b, ((struct sockaddr_un *) &a)->sun_path, l);
		b[l] = 0;
	} else {
		void *p = a.ss_family == AF_INET ? (void *) &((struct sockaddr_in *) &a)->sin_addr : (void *) &((struct sockaddr_in6 *) &a)->sin6_addr;
		int pt = ntohs(a.ss_family == AF_INET ? ((struct sockaddr_in *) &a)->sin_port : ((struct sockaddr_in6 *) &a)->sin6_port);
		inet_ntop(a.ss_family, p, h, sizeof h);
		if (withport) sprintf(b, "%s:%d", h, pt);
		else strcpy(b, h);
	}
}
static bool hasname(int i, bool remote)
{
	struct sockaddr_storage a;
	socklen_t n = sizeof a;
	return (remote ? __real_getpeername : __real_getsockname)(s[i].fdt.fd, (struct sockaddr *) &a, &n) == 0;
}
static const char *unixname(int i, const char *kind)
{
	int n = atoi(kind + 1);
	if (kind[0] == 'l') { /* a name of this length */
		memset(upath[i], 'a' + i, (size_t) n);
		upath[i][n] = 0;
	} else sprintf(upath[i], "u%d.sock", i);
	return upath[i];
}
static bool v6(void)
{
	static int have = -1;
	if (have < 0) {
		struct sockaddr_in6 a = {.sin6_family = AF_INET6, .sin6_addr = IN6ADDR_LOOPBACK_INIT};
		int f = __real_socket(AF_INET6, SOCK_STREAM, 0);
		have = f >= 0 && __real_bind(f, (struct sockaddr *) &a, sizeof a) == 0;
		if (f >= 0) __real_close(f);
	}
	return have;
}
static int deadport(void) /* nobody listens there */
{
	struct sockaddr_in a = {.sin_family = AF_INET};
	socklen_t n = sizeof a;
	static int f = -1;
	if (f < 0) { f = __real_socket(AF_INET, SOCK_STREAM, 0); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); __real_bind(f, (struct sockaddr *) &a, sizeof a); }
	__real_getsockname(f, (struct sockaddr *) &a, &n);
	return ntohs(a.sin_port);
}

static int freeport(void) /* outside the range the kernel picks from */
{
	static int n;
	for (;;) {
		struct sockaddr_in a = {.sin_family = AF_INET};
		struct sockaddr_in6 a6 = {.sin6_family = AF_INET6};
		int p = 20000 + (int) ((getpid() * 37u + n++) % 12000);
		int f = __real_socket(AF_INET, SOCK_STREAM, 0), f6 = __real_socket(AF_INET6, SOCK_STREAM, 0);
		a.sin_port = a6.sin6_port = htons((unsigned short) p);
		bool ok = __real_bind(f, (struct sockaddr *) &a, sizeof a) == 0;
		__real_close(f);
		if (f6 >= 0) { ok = ok && (!v6() || __real_bind(f6, (struct sockaddr *) &a6, sizeof a6) == 0); __real_close(f6); }
		if (ok) return p;
	}
}

int main(void)
{
	static char buf[1 << 20], a[4096], b[4096];
	char dir[64];
	signal(SIGPIPE, SIG_IGN);
	vf_init();
	sprintf(dir, "sock.%d", (int) getpid());
	mkdir(dir, 0700);
	if (chdir(dir)) return 97;
	deadport();
	while (vf_next()) {
		int i = vf_ntok > 1 ? atoi(vf_tok[1]) : 0, rc, err;
		const char *op = vf_tok[0];
		if (!vf_is("fault") && !vf_is("soerr") && !vf_is("hosts") && !vf_is("xfer") && !vf_is("notify") && (i < 0 || i >= N)) return 96;
		if (vf_is("begin")) {
			for (int j = 0; j < N; j++) { if (inited[j]) sc_sock_term(&s[j]); inited[j] = islisten[j] = isconn[j] = false; if (upath[j][0]) __real_unlink(upath[j]); }
			for (int j = 0; j < 3; j++) { if (ppup[j]) sc_sock_pipe_term(&pp[j]); if (poup[j]) sc_sock_poll_term(&po[j]); ppup[j] = poup[j] = false; }
			f0 = fds();
			badclose = gai = countdown = xk = soerr = 0;
			vf_reset_live();
			start();
			ev_begin("begin");
			ev_end();
		} else if (vf_is("fault")) {
			countdown = (int) vf_int(1);
			ferr = (int) vf_int(2);
		} else if (vf_is("soerr")) {
			soerr = (int) vf_int(1);
		} else if (vf_is("hosts")) {
			strcpy(hosts, strchr(vf_tok[1], 'D') && !v6() ? "dt" : vf_tok[1]);
		} else if (vf_is("xfer")) {
			xk = vf_tok[1][1] == 'i' ? 1 : vf_tok[1][0] == 's' ? 2 : 3;
			xa = (int) vf_int(2);
			xb = vf_ntok > 3 ? (int) vf_int(3) : 0;
		} else if (vf_is("init")) {
			int blk = (int) vf_int(2);
			if (inited[i] && s[i].fdt.fd >= 0) continue;
			fam[i] = vf_tok[3][0];
			if (fam[i] == '6' && !v6()) fam[i] = '4';
			memset(&s[i], 0x55, sizeof s[i]);
			API(sc_sock_init(&s[i], 7, blk, fam[i] == '4' ? AF_INET : fam[i] == '6' ? AF_INET6 : AF_UNIX));
			inited[i] = true;
			islisten[i] = isconn[i] = false;
			ev_begin("init");
			ev_int("s", i);
			ev_bool("blk", blk);
			char f[2] = {fam[i], 0};
			ev_str("fam", f);
			result(0, 0, "");
		} else if (!inited[i] && !vf_is("end") && strstr("listen connect finish send recv term setblk timeo addr", op)) {
			countdown = xk = hosts[0] = 0;
			continue;
		} else if (vf_is("listen")) {
			const char *kind = vf_tok[2];
			if (s[i].fdt.fd >= 0) { countdown = hosts[0] = 0; continue; }
			if (hosts[0]) strcpy(hosts, "tt");
			bool multi = hosts[0];
			bool u = fam[i] == 'u', good = u ? (kind[0] == 'g' || kind[0] == 'p' || (kind[0] == 'l' && atoi(kind + 1) < 108)) : kind[0] == 'g' || kind[0] == 'l';
			const char *h = u ? unixname(i, kind) : kind[0] == 'b' ? (fam[i] == '4' ? "::1" : "127.0.0.1") : fam[i] == '4' ? "127.0.0.1" : "::1";
			if (u && kind[0] == 'b') h = strcpy(upath[i], "no/such/dir");
			start();
			API(rc = sc_sock_listen(&s[i], h, "0"));
			err = errno;
			islisten[i] = rc == 0;
			waiting[i] = 0;
			if (rc == 0 && !u) port[i] = localport(i);
			struct stat st;
			ev_begin("listen");
			ev_int("s", i);
			ev_bool("good", good);
			ev_bool("multi", multi);
			ev_bool("nb", rc == 0 && nonblock(i));
			/* a unix listener is at its name */
			ev_bool("there", rc != 0 || !u || (stat(h, &st) == 0 && S_ISSOCK(st.st_mode)));
			done(i, rc, err);
		} else if (vf_is("connect")) {
			int l = (int) vf_int(2);
			const char *kind = vf_tok[3], *src = vf_tok[4];
			char pb[16], spb[16];
			if (s[i].fdt.fd >= 0) { countdown = hosts[0] = 0; continue; }
			bool multi = hosts[0] && fam[i] != 'u';
			if (!multi) hosts[0] = 0;
			if (multi) kind = "g", src = "-";
			bool live = l && islisten[l] && s[l].fdt.fd >= 0 && kind[0] == 'g' && (!multi || strchr(hosts, 't'));
			char f = l && fam[l] != 'u' ? fam[l] : fam[i];
			bool u = fam[i] == 'u';
			if (l && islisten[l] && (fam[i] == 'u') != (fam[l] == 'u')) live = false;
			const char *h, *sp = NULL, *sh = NULL;
			if (u) h = kind[0] == 'l' ? unixname(i, kind) : l && fam[l] == 'u' && islisten[l] && kind[0] == 'g' ? upath[l] : "none.sock";
			else h = f == '6' ? "::1" : "127.0.0.1";
			sprintf(pb, "%d", live && !u ? port[l] : f == '6' ? 1 : deadport());
			if (!u && kind[0] == 'p') strcpy(pb, "nosuchport");
			bool srcok = true;
			if (!u && src[0] != '-') {
				sh = src[0] == '2' ? (f == '6' ? "::1" : "127.0.0.2") : src[0] == 'n' ? (f == '6' ? "2001:db8::1" : "192.0.2.1") : f == '6' ? "127.0.0.1" : "::1";
				sp = "0";
				srcok = src[0] == '2';
				if (src[0] == 'P' || src[0] == 'Q') {
					sh = src[0] == 'P' ? NULL : f == '6' ? "::1" : "127.0.0.2";
					sprintf(spb, "%d", freeport());
					sp = spb;
					srcok = true;
				}
			}
			start();
			API(rc = sc_sock_connect(&s[i], h, pb, sh, sp));
			err = errno;
			isconn[i] = s[i].fdt.fd >= 0;
			outn[i] = inn[i] = 0;
			if (isconn[i] && !u) fam[i] = s[i].family == AF_INET ? '4' : '6';
			fresh[i] = isconn[i];
			ev_begin("connect");
			ev_int("s", i);
			bool async = strcmp(fault, "connect") == 0 && (ferr == EAGAIN || ferr == EINPROGRESS) && !u && rc < 0;
			/* of several addresses the wrong one */
			if (multi && live && isconn[i] && lastport != port[l]) live = false;
			ev_int("l", live ? l : 0);
			ev_bool("multi", multi || (sp && !sh)); /* a port without an address is one of several, too */
			if (isconn[i] && live && !async) waiting[l]++;
			ev_bool("srcok", srcok);
			ev_bool("async", async);
			ev_bool("nb", isconn[i] && nonblock(i));
			*a = 0;
			if (isconn[i] && sh && srcok) kernaddr(a, i, false, false);
			ev_bool("from", (!*a || strcmp(a, sh) == 0) && (!isconn[i] || !sp || !srcok || sp[0] == '0' || localport(i) == atoi(sp)));
			done(i, rc, err);
		} else if (vf_is("accept")) {
			int t = (int) vf_int(2);
			if (!inited[i] || !inited[t] || t == i || !islisten[i] || s[t].fdt.fd >= 0 || s[i].fdt.fd < 0) { countdown = 0; continue; }
			struct pollfd q = {.fd = s[i].fdt.fd, .events = POLLIN};
			if (waiting[i] > 0) poll(&q, 1, 5000);
			if (!nonblock(i) && !(ready(s[i].fdt.fd, POLLIN))) { countdown = 0; continue; }
			start();
			API(rc = sc_sock_accept(&s[i], &s[t]));
			err = errno;
			isconn[t] = rc == 0;
			if (taken) waiting[i]--;
			if (rc == 0) fam[t] = fam[i], islisten[t] = false;
			outn[t] = inn[t] = 0;
			ev_begin("accept");
			ev_int("l", i);
			ev_int("s", t);
			ev_bool("taken", taken);
			ev_bool("nb", rc == 0 && nonblock(t));
			ev_bool("blocked", strcmp(fault, "accept") == 0 && ferr == EAGAIN);
			done(i, rc, err);
		} else if (vf_is("finish")) {
			if (!isconn[i] || s[i].fdt.fd < 0) { countdown = 0; continue; }
			struct pollfd q = {.fd = s[i].fdt.fd, .events = POLLOUT};
			if (fresh[i]) poll(&q, 1, 5000);
			fresh[i] = false;
			start();
			API(rc = sc_sock_finish_connect(&s[i]));
			err = errno;
			ev_begin("finish");
			ev_int("s", i);
			done(i, rc, err);
		} else if (vf_is("send") || vf_is("recv")) {
			int n = (int) vf_int(2);
			bool snd = vf_is("send");
			if (s[i].fdt.fd < 0 || !isconn[i]) { xk = 0; continue; }
			if (!nonblock(i) && n > 0 && !(ready(s[i].fdt.fd, snd ? POLLOUT : POLLIN))) { xk = 0; continue; }
			if (!nonblock(i) && n > 2000) n = 2000; /* there is room */
			if (xk == 2 && xa < 1) xa = 1;
			fresh[i] = false;
			start();
			if (snd) {
				for (int k = 0; k < n; k++) buf[k] = (char) pat(i, outn[i] + k);
				API(rc = sc_sock_send(&s[i], buf, n, MSG_NOSIGNAL));
			} else {
				memset(buf, 0x77, n > 0 ? (size_t) n : 0);
				API(rc = sc_sock_recv(&s[i], buf, n, 0));
			}
			err = errno;
			ev_begin(op);
			ev_int("s", i);
			ev_int("n", n < 0 ? -1 : n); /* rc is cut off at -1, too */
			ev_int("moved", moved);
			ev_int("calls", kcalls);
			ev_str("kern", kcalls == 0 ? "none" : klast > 0 ? "data" : klast == 0 ? "eof" : kerr == EAGAIN ? "EAGAIN" : kerr == EINTR ? "EINTR" : "other");
			if (!snd) {
				/* whose bytes these could be */
				vf_raw(",\"ids\":[");
				int c = 0;
				for (int id = 1; id < N; id++) {
					bool eq = true;
					for (int k = 0; k < rc && eq; k++) eq = (unsigned char) buf[k] == pat(id, inn[i] + k);
					if (eq) vf_raw(c++ ? ",%d" : "%d", id);
				}
				vf_raw("]");
				bool clean = true;
				for (int k = rc > 0 ? rc : 0; k < n; k++) clean = clean && buf[k] == 0x77;
				ev_bool("clean", clean);
				if (rc > 0) inn[i] += rc;
			} else if (rc > 0) outn[i] += rc;
			done(i, rc, err);
		} else if (vf_is("term")) {
			start();
			API(rc = sc_sock_term(&s[i]));
			err = errno;
			islisten[i] = isconn[i] = false;
			ev_begin("term");
			ev_int("s", i);
			done(i, rc, err);
		} else if (vf_is("setblk")) {
			int v = (int) vf_int(2);
			if (s[i].fdt.fd < 0) { countdown = 0; continue; }
			start();
			s[i].err[0] = 0;
			API(rc = sc_sock_set_blocking(&s[i], v));
			err = errno;
			ev_begin("setblk");
			ev_int("s", i);
			ev_bool("v", v);
			ev_bool("nb", nonblock(i));
			done(i, rc, err);
		} else if (vf_is("timeo")) {
			int ms = (int) vf_int(3);
			bool r = vf_tok[2][0] == 'r';
			struct timeval tv = {0};
			socklen_t n = sizeof tv;
			if (s[i].fdt.fd < 0) { countdown = 0; continue; }
			start();
			API(rc = r ? sc_sock_set_rcvtimeo(&s[i], ms) : sc_sock_set_sndtimeo(&s[i], ms));
			err = errno;
			__real_getsockopt(s[i].fdt.fd, SOL_SOCKET, r ? SO_RCVTIMEO : SO_SNDTIMEO, &tv, &n);
			ev_begin("timeo");
			ev_int("s", i);
			ev_int("ms", ms);
			ev_int("got", tv.tv_sec * 1000 + (tv.tv_usec + 999) / 1000);
			done(i, rc, err);
		} else if (vf_is("addr")) {
			size_t n = (size_t) vf_int(2);
			char *q = malloc(n); /* exactly, for ASan */
			const char *e;
			for (int k = 0; k < 3; k++) {
				memset(q, 0x66, n);
				start();
				int cd = countdown;
				s[i].err[0] = 0;
				if (k == 0) API(e = sc_sock_local_str(&s[i], q, n));
				else if (k == 1) API(e = sc_sock_remote_str(&s[i], q, n));
				else API(sc_sock_print(&s[i], q, n); e = q);
				countdown = cd;
				kernaddr(a, i, k == 1, true);
				if (k == 2) { kernaddr(b, i, true, true); char *w = strdup(a); snprintf(a, sizeof a, "Local(%s), Remote(%s)", w, b); free(w); }
				ev_begin("addr");
				ev_int("s", i);
				ev_int("len", (long) n);
				ev_int("k", k);
				ev_bool("known", k == 2 || hasname(i, k == 1));
				ev_bool("null", e == NULL);
				ev_bool("term", memchr(q, 0, n));
				q[n - 1] = 0;
				ev_bytes("got", q, strlen(q));
				ev_bytes("want", a, strlen(a));
				result(e == NULL ? -1 : 0, 0, sc_sock_error(&s[i]));
			}
			countdown = 0;
			free(q);
		} else if (vf_is("pipe")) {
			if (ppup[i]) { countdown = 0; continue; }
			start();
			memset(&pp[i], 0x44, sizeof pp[i]);
			API(rc = sc_sock_pipe_init(&pp[i], 3));
			err = errno;
			ppup[i] = rc == 0;
			pout[i] = pin[i] = 0;
			ev_begin("pipe");
			ev_int("p", i);
			result(rc, err, sc_sock_pipe_err(&pp[i]));
			countdown = 0;
			if (rc) { /* term after a failed init */
				API(rc = sc_sock_pipe_term(&pp[i]));
				ev_begin("pipeterm");
				ev_int("p", i);
				fault = "";
				result(rc, errno, sc_sock_pipe_err(&pp[i]));
			}
		} else if (vf_is("pwrite") || vf_is("pread")) {
			bool w = vf_is("pwrite");
			unsigned n = (unsigned) vf_int(2);
			if (!ppup[i]) { xk = 0; continue; }
			if (w && pout[i] - pin[i] + (long) n > 60000) { xk = 0; continue; }
			if (!w && pout[i] == pin[i]) { xk = 0; continue; }
			start();
			if (w) {
				for (unsigned k = 0; k < n; k++) buf[k] = (char) pat(i, pout[i] + k);
				API(rc = sc_sock_pipe_write(&pp[i], buf, n));
				if (rc > 0) pout[i] += rc;
			} else {
				memset(buf, 0x77, n);
				API(rc = sc_sock_pipe_read(&pp[i], buf, n));
			}
			err = errno;
			bool ok = true;
			if (!w) {
				for (int k = 0; k < rc; k++) ok = ok && (unsigned char) buf[k] == pat(i, pin[i] + k);
				if (rc > 0) pin[i] += rc;
			}
			ev_begin(op);
			ev_int("p", i);
			ev_int("n", n);
			ev_int("moved", moved);
			ev_str("kern", kcalls == 0 ? "none" : klast > 0 ? "data" : klast == 0 ? "eof" : kerr == EAGAIN ? "EAGAIN" : kerr == EINTR ? "EINTR" : "other");
			ev_bool("ok", ok);
			result(rc, err, "");
			xk = 0;
		} else if (vf_is("pipeterm")) {
			if (!ppup[i]) { countdown = 0; continue; }
			start();
			API(rc = sc_sock_pipe_term(&pp[i]));
			err = errno;
			ppup[i] = false;
			ev_begin("pipeterm");
			ev_int("p", i);
			result(rc, err, sc_sock_pipe_err(&pp[i]));
			countdown = 0;
			API(rc = sc_sock_pipe_term(&pp[i]));
			fault = "";
			ev_begin("pipeterm");
			ev_int("p", i);
			result(rc, errno, sc_sock_pipe_err(&pp[i]));
		} else if (vf_is("poll")) {
			if (poup[i]) { countdown = 0; continue; }
			start();
			if (vf_ntok > 2) vf_arm(1);
			memset(&po[i], 0x44, sizeof po[i]);
			API(rc = sc_sock_poll_init(&po[i]));
			err = errno;
			if (vf_failed) fault = "malloc";
			vf_arm(0);
			poup[i] = rc == 0;
			ev_begin("poll");
			ev_int("p", i);
			result(rc, err, sc_sock_poll_err(&po[i]));
			countdown = 0;
			if (rc) {
				fault = "";
				API(rc = sc_sock_poll_term(&po[i]));
				ev_begin("pollterm");
				ev_int("p", i);
				result(rc, errno, sc_sock_poll_err(&po[i]));
			}
		} else if (vf_is("pollterm")) {
			if (!poup[i]) { countdown = 0; continue; }
			start();
			API(rc = sc_sock_poll_term(&po[i]));
			err = errno;
			poup[i] = false;
			ev_begin("pollterm");
			ev_int("p", i);
			result(rc, err, sc_sock_poll_err(&po[i]));
			countdown = 0;
			fault = "";
			API(rc = sc_sock_poll_term(&po[i]));
			ev_begin("pollterm");
			ev_int("p", i);
			result(rc, errno, sc_sock_poll_err(&po[i]));
		} else if (vf_is("notify")) {
			/* NOTIFY_SOCKET: absolute, abstract, nobody, unset, relative, too long by N */
			const char *kind = vf_tok[1];
			int n = (int) vf_int(2), f = __real_socket(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0);
			struct sockaddr_un un = {.sun_family = AF_UNIX};
			char name[512], *cwd = getcwd(NULL, 0);
			socklen_t ul;
			if (kind[0] == 'a' || kind[0] == 'L') snprintf(name, sizeof name, "@vf%d.%s", (int) getpid(), kind[0] == 'L' ? "" : "x");
			else snprintf(name, sizeof name, "%s/n", cwd);
			size_t l = strlen(name);
			if (kind[0] == 'L') { /* N bytes long */
				while (l < (size_t) n) name[l++] = 'z';
				name[l] = 0;
			}
			bool able = true;
			if (kind[0] == 'a' || kind[0] == 'p' || kind[0] == 'L') {
				size_t use = l > 107 ? 107 : l; /* what a truncated name would reach */
				if (kind[0] != 'p' || l < 108) {
					memcpy(un.sun_path, name, use);
					if (name[0] == '@') un.sun_path[0] = 0;
					ul = (socklen_t) (offsetof(struct sockaddr_un, sun_path) + (l > 108 ? 108 : l > 107 ? 108 : l));
					if (name[0] != '@') unlink(name), ul = sizeof un;
					if (__real_bind(f, (struct sockaddr *) &un, ul)) able = false;
				} else able = false;
			}
			if (kind[0] == 'u') unsetenv("NOTIFY_SOCKET");
			else if (kind[0] == 'r') setenv("NOTIFY_SOCKET", "rel", 1);
			else if (kind[0] == 's') setenv("NOTIFY_SOCKET", n ? "/" : "@", 1);
			else setenv("NOTIFY_SOCKET", name, 1);
			for (int k = 0; k < 100; k++) a[k] = (char) ('A' + k % 50);
			a[n % 90 + 1] = 0;
			int fdb = fds();
			start();
			API(rc = sc_sock_notify_systemd(a));
			err = errno;
			ssize_t g = recv(f, b, sizeof b, 0);
			ev_begin("notify");
			ev_str("kind", kind);
			ev_bool("possible", able && (kind[0] == 'a' || kind[0] == 'p' || (kind[0] == 'L' && l < 108)));
			ev_bool("got", g >= 0);
			ev_bool("same", g == (ssize_t) strlen(a) && memcmp(a, b, (size_t) g) == 0);
			ev_bool("eset", rc >= 0 || err != 0);
			fdb = fds() - fdb;
			__real_close(f);
			unlink("n");
			free(cwd);
			ev_int("leak", fdb);
			result(rc, err, "");
			countdown = 0;
		} else { /* end */
			ev_begin("end");
			ev_end();
		}
	}
	for (int j = 0; j < N; j++) if (upath[j][0]) __real_unlink(upath[j]);
	return 0;
}
