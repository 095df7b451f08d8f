/* Signal handling in real processes.
 * init <n>: sc_signal_init() with its n-th underlying call failing
 * scen <sfd> <lfd> <trigger> <stride> <limit> <sig>...: a child raises the signals one after
 *   another; with a trigger signal, the child is run again and again with that signal arriving
 *   at the 1st, 2nd, ... access to shared memory or system call inside the handlers.
 *   sfd: 0 none 1 pipe 2 closed 3 full 4 no reader; lfd: 0 none 1 pipe 2 closed
 *   tens: the descriptor's number, 0 an ordinary one, 1 number 0, 2 a high one (300)
 *   a signal of 100+s is a real fault, 200+s a kill() */
#include "vf.h"
#include "sc_signal.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

static struct shared {
	int n, points, atexit, depth;
	struct { char k; int sig, depth, err, bytes; } ev[64];
} volatile *sh;
static char *stack_top;
static volatile int trig_at, trig_sig, in_child;
static int pipes[4][2];
static int fail_n, nfall;
static bool failed;

static void rec(char k, int sig, int err)
{
	if (sh->n < 64) {
		sh->ev[sh->n].k = k;
		sh->ev[sh->n].sig = sig;
		sh->ev[sh->n].depth = sh->depth;
		sh->ev[sh->n].err = err;
		sh->n++;
	}
}
static void raise_(int sig)
{
	rec('r', sig % 100, 0);
	sh->depth++;
	errno = 77;
	if (sig / 100 == 1) {
		if (sig == 100 + SIGSEGV) *(volatile int *) 8 = 1;
		else if (sig == 100 + SIGFPE) { volatile int z = 0; z = 12345 / z; }
		else if (sig == 100 + SIGILL) __builtin_trap();
		else abort();
	} else if (sig / 100 == 2) kill(getpid(), sig % 100);
	else raise(sig);
	int e = errno;
	sh->depth--;
	rec('b', sig % 100, e == 77);
}
static void point(void)
{
	if (!in_child) return;
	int n = ++sh->points;
	if (trig_sig && n == trig_at) {
		int e = errno;
		raise_(trig_sig);
		errno = e;
	}
}
static inline void acc(const volatile void *p)
{
	if ((char *) p >= (char *) __builtin_frame_address(0) && (char *) p < stack_top) return;
	point();
}
#include "tsanstub.h"
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	extern ssize_t __real_write(int, const void *, size_t);
	point();
	ssize_t r = __real_write(fd, b, n);
	int e = errno;
	point();
	errno = e;
	return r;
}
static bool fails(void)
{
	if (!fail_n || ++nfall != fail_n) return false;
	failed = true;
	errno = EINVAL;
	return true;
}
int __wrap_close(int fd) { extern int __real_close(int); point(); return __real_close(fd); }
int __wrap_kill(pid_t p, int s) { extern int __real_kill(pid_t, int); point(); return __real_kill(p, s); }
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
	extern int __real_sigaction(int, const struct sigaction *, struct sigaction *);
	if (fails()) return -1;
	point();
	return __real_sigaction(s, a, o);
}
void (*__wrap_signal(int s, void (*f)(int)))(int)
{
	extern void (*__real_signal(int s, void (*f)(int)))(int);
	return fails() ? SIG_ERR : __real_signal(s, f);
}
int __wrap_sigemptyset(sigset_t *s) { extern int __real_sigemptyset(sigset_t *); return fails() ? -1 : __real_sigemptyset(s); }
int __wrap_sigaddset(sigset_t *s, int n) { extern int __real_sigaddset(sigset_t *, int); return fails() ? -1 : __real_sigaddset(s, n); }

static void at_exit(void) { sh->atexit = 1; }
static const struct { int s; const char *n; } names[] = {{SIGINT, "SIGINT"}, {SIGTERM, "SIGTERM"}, {SIGABRT, "SIGABRT"}, {SIGSEGV, "SIGSEGV"}, {SIGBUS, "SIGBUS"}, {SIGFPE, "SIGFPE"}, {SIGILL, "SIGILL"}};
static char *slurp(int fd)
{
	static char b[1 << 17];
	ssize_t n, k = 0;
	while (k < (ssize_t) sizeof(b) - 1 && (n = read(fd, b + k, sizeof(b) - 1 - (size_t) k)) > 0) k += n;
	b[k] = 0;
	for (ssize_t i = 0; i < k; i++) if (!b[i]) b[i] = '?';
	return b;
}
static void chan(const char *k, int fd)
{
	char *b = slurp(fd);
	vf_raw(",\"%s\":{\"any\":%s,\"sigs\":[", k, *b ? "true" : "false");
	bool c = false;
	for (int i = 0; i < 7; i++)
		if (strstr(b, names[i].n)) {
			vf_raw(c ? ",%d" : "%d", names[i].s);
			c = true;
		}
	vf_raw("]}");
}

static int one(int sfd, int lfd, char **sigs, int nsig)
{
	int snum = (const int[]){51, 0, 300}[sfd / 10], lnum = (const int[]){50, 0, 301}[lfd / 10];
	sfd %= 10;
	lfd %= 10;
	memset((void *) sh, 0, sizeof(*sh));
	for (int i = 0; i < 4; i++) {
		if (pipe(pipes[i])) _exit(97);
		if (i == 3) fcntl(pipes[i][1], F_SETFL, O_NONBLOCK);
	}
	if (sfd == 3) {
		static char z[65536];
		while (write(pipes[3][1], z, sizeof(z)) > 0) ;
	}
	if (sfd == 4) close(pipes[3][0]);
	pid_t pid = fork();
	if (pid < 0) _exit(97);
	if (pid == 0) {
		struct rlimit r = {0, 0};
		setrlimit(RLIMIT_CORE, &r);
		dup2(pipes[0][1], 1);
		dup2(pipes[1][1], 2);
		int l = dup2(pipes[2][1], lnum), s = dup2(pipes[3][1], snum);
		for (int i = 0; i < 4; i++) { if (i != 3 || sfd != 4) close(pipes[i][0]); close(pipes[i][1]); }
		if (sfd == 4) close(pipes[3][0]);
		atexit(at_exit);
		alarm(20);
		int rc = sc_signal_init();
		if (rc) _exit(34);
		if (sfd) sc_signal_shutdown_fd = sfd == 2 ? 900 : s;
		if (lfd) sc_signal_log_fd = lfd == 2 ? 901 : l;
		if (sfd != 1 && sfd != 3 && sfd != 4) close(s);
		in_child = 1;
		for (int i = 0; i < nsig; i++) raise_(atoi(sigs[i]));
		in_child = 0;
		_exit(33);
	}
	for (int i = 0; i < 4; i++) close(pipes[i][1]);
	int st = 0;
	/* the amount written is small, so the child is waited for first */
	while (waitpid(pid, &st, 0) < 0) ;
	vf_raw("{\"op\":\"begin\",\"sfd\":%d,\"lfd\":%d}\n", sfd, lfd);
	for (int i = 0; i < sh->n; i++) {
		if (sh->ev[i].k == 'r') vf_raw("{\"op\":\"raise\",\"s\":%d,\"d\":%d}\n", sh->ev[i].sig, sh->ev[i].depth);
		else vf_raw("{\"op\":\"back\",\"s\":%d,\"d\":%d,\"errno\":%s}\n", sh->ev[i].sig, sh->ev[i].depth, sh->ev[i].err ? "true" : "false");
	}
	vf_raw("{\"op\":\"ended\",\"how\":\"%s\",\"code\":%d,\"atexit\":%d", WIFSIGNALED(st) ? "signal" : WEXITSTATUS(st) == 33 ? "done" : "exit",
	       WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), sh->atexit);
	int bytes = 0;
	if (sfd != 4) {
		char b[4096];
		ssize_t n;
		while ((n = read(pipes[3][0], b, sizeof(b))) > 0) bytes += (int) n;
		if (sfd == 3) bytes -= 65536;
		close(pipes[3][0]);
	}
	vf_raw(",\"bytes\":%d", bytes);
	chan("out", pipes[0][0]);
	chan("err", pipes[1][0]);
	chan("log", pipes[2][0]);
	for (int i = 0; i < 3; i++) close(pipes[i][0]);
	vf_raw("}\n{\"op\":\"end\"}\n");
	return sh->points;
}

int main(int argc, char **argv)
{
	(void) argc; (void) argv;
	char top;
	vf_init();
	stack_top = &top + 65536;
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (vf_next()) {
		long runs = 1;
		if (vf_is("init")) {
			int p = 0;
			memset((void *) sh, 0, sizeof(*sh));
			pid_t pid = fork();
			if (!pid) {
				fail_n = (int) vf_int(1);
				sc_signal_log_fd = sc_signal_shutdown_fd = 5;
				int rc = sc_signal_init();
				fail_n = 0;
				sh->n = rc;
				sh->points = failed;
				sh->depth = sc_signal_log_fd == -1 && sc_signal_shutdown_fd == -1;
				_exit(0);
			}
			waitpid(pid, &p, 0);
			vf_raw("{\"op\":\"begin\",\"sfd\":0,\"lfd\":0}\n{\"op\":\"init\",\"rc\":%d,\"failed\":%s,\"clear\":%s,\"st\":%d}\n{\"op\":\"end\"}\n", sh->n, sh->points ? "true" : "false", sh->depth ? "true" : "false", p);
		} else {
			int sfd = (int) vf_int(1), lfd = (int) vf_int(2);
			trig_sig = (int) vf_int(3);
			int stride = (int) vf_int(4), limit = (int) vf_int(5);
			trig_at = 0;
			int pts = one(sfd, lfd, vf_tok + 6, vf_ntok - 6);
			if (trig_sig)
				for (trig_at = 1; trig_at <= pts && runs < limit; trig_at += 1 + (stride > 1 ? (trig_at * 7 + 3) % stride : 0), runs++)
					one(sfd, lfd, vf_tok + 6, vf_ntok - 6);
		}
		vf_raw("{\"op\":\"stat\",\"runs\":%ld,\"histories\":%ld,\"complete\":true}\n", runs, runs);
	}
	return 0;
}
