/* Threads and mutexes under the deterministic scheduler.
 * run <bound> <maxruns> <seed> <script> ...   each script is run by one thread:
 *   s<o> start object o, a<o>/c<o> start with a failing attr_init/create,
 *   j<o> join, J<o> join failing underneath, t<o>/T<o> the same by term, l<m> lock, u<m> unlock
 * mutex <n>: init/term with the n-th underlying call failing */
#include "vsched.h"
#include "sc_mutex.h"
#include "sc_thread.h"

static struct sc_thread TH[4];
static struct sc_mutex MX[4];
static char *script[VS_MAX];
static int nthr, nrun;
static long ids[64];

static void setup(void)
{
	vs_fail_arm(0);
	nrun = 0;
	memset(TH, 0x5a, sizeof(TH));
	memset(MX, 0x5a, sizeof(MX));
	for (int i = 0; i < 4; i++) {
		sc_thread_init(&TH[i]);
		if (sc_mutex_init(&MX[i])) abort();
	}
}
static void begin(void) { vs_log("{\"op\":\"begin\",\"n\":%d}\n", nthr); }
static void *fn(void *arg)
{
	long k = (long *) arg - ids;
	vs_log("{\"op\":\"run\",\"k\":%ld,\"arg\":%ld}\n", k, ids[k]);
	vs_point();
	if (k & 1) {
		sc_mutex_lock(&MX[3]);
		vs_log("{\"op\":\"lock\",\"t\":%d,\"m\":3}\n", vs_self());
		vs_point();
		vs_log("{\"op\":\"unlock\",\"t\":%d,\"m\":3}\n", vs_self());
		sc_mutex_unlock(&MX[3]);
	}
	vs_point();
	vs_log("{\"op\":\"fin\",\"k\":%ld,\"v\":%ld}\n", k, k + 100);
	return (void *) (k + 100);
}
static bool errtext(struct sc_thread *t)
{
	const char *e = sc_thread_err(t);
	return e && *e && *e != 0x5a && memchr(e, 0, 128) != NULL;
}
static void body(int t)
{
	for (char *s = script[t]; s[0]; s += 2) {
		int o = s[1] - '0', rc, k;
		void *v = NULL;
		vs_fail_arm(0);
		switch (*s) {
		case 's': case 'a': case 'c':
			k = ++nrun;
			ids[k] = k;
			vs_log("{\"op\":\"scall\",\"o\":%d,\"k\":%d}\n", o, k);
			if (*s != 's') vs_fail_arm(*s == 'a' ? 1 : 2);
			rc = sc_thread_start(&TH[o], fn, &ids[k]);
			vs_log("{\"op\":\"sret\",\"o\":%d,\"k\":%d,\"rc\":%d,\"err\":%s,\"failed\":%s}\n", o, k, rc, errtext(&TH[o]) ? "true" : "false", vs_failed ? "true" : "false");
			break;
		case 'j': case 'J': case 't': case 'T':
			if (*s == 'J' || *s == 'T') vs_fail_arm(1);
			v = (void *) 0x77;
			rc = (*s | 32) == 'j' ? sc_thread_join(&TH[o], &v) : sc_thread_term(&TH[o]);
			if ((*s | 32) == 't') {
				/* term does not hand the value out */
				vs_log("{\"op\":\"join\",\"o\":%d,\"rc\":%d,\"v\":-77,\"err\":%s,\"failed\":%s}\n", o, rc, errtext(&TH[o]) ? "true" : "false", vs_failed ? "true" : "false");
			} else
				vs_log("{\"op\":\"join\",\"o\":%d,\"rc\":%d,\"v\":%ld,\"err\":%s,\"failed\":%s}\n", o, rc, (long) v, errtext(&TH[o]) ? "true" : "false", vs_failed ? "true" : "false");
			break;
		case 'l':
			sc_mutex_lock(&MX[o]);
			vs_log("{\"op\":\"lock\",\"t\":%d,\"m\":%d}\n", t, o);
			vs_point();
			break;
		case 'u':
			vs_log("{\"op\":\"unlock\",\"t\":%d,\"m\":%d}\n", t, o);
			sc_mutex_unlock(&MX[o]);
			break;
		}
	}
}
static void finish(int stuck)
{
	vs_fail_arm(0);
	int rc = 0;
	if (!stuck)
		for (int i = 0; i < 4; i++) {
			rc |= sc_thread_term(&TH[i]);
			rc |= sc_mutex_term(&MX[i]);
		}
	vs_log("{\"op\":\"%s\",\"bad\":%d,\"live\":%d}\n", stuck == 2 ? "spin" : stuck ? "stuck" : "quiet", vs_bad | rc, vs_live_obj);
	vs_log("{\"op\":\"end\"}\n");
}

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("run")) {
			struct vs_opt o = {.body = body, .setup = setup, .begin = begin, .finish = finish};
			o.bound = (int) vf_int(1);
			o.maxruns = vf_int(2);
			o.seed = vf_u64(3);
			o.nthreads = nthr = vf_ntok - 4;
			for (int i = 0; i < nthr; i++) script[i] = strdup(vf_tok[4 + i]);
			vs_explore(&o);
			vf_raw("{\"op\":\"stat\",\"runs\":%ld,\"histories\":%ld,\"complete\":%s}\n", vs_runs, vs_new, vs_complete ? "true" : "false");
			continue;
		}
		int n = (int) vf_int(1);
		vf_raw("{\"op\":\"begin\",\"n\":0}\n");
		vs_live_obj = 0;
		vs_bad = 0;
		vs_fail_arm(n);
		memset(&MX[0], 0x5a, sizeof(MX[0]));
		int rc = sc_mutex_init(&MX[0]);
		vf_raw("{\"op\":\"minit\",\"rc\":%d,\"failed\":%s,\"live\":%d,\"bad\":%d}\n", rc, vs_failed ? "true" : "false", vs_live_obj, vs_bad);
		if (rc == 0) {
			vs_failed = false;
			rc = sc_mutex_term(&MX[0]);
			vf_raw("{\"op\":\"mterm\",\"rc\":%d,\"failed\":%s,\"live\":%d,\"bad\":%d}\n", rc, vs_failed ? "true" : "false", vs_live_obj, vs_bad);
		}
		vf_raw("{\"op\":\"end\"}\n");
		vf_raw("{\"op\":\"stat\",\"runs\":1,\"histories\":1,\"complete\":true}\n");
	}
	return 0;
}
