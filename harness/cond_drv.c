/* Condition object under the deterministic scheduler.
 * run <mode> <bound> <spurious> <maxruns> <seed> <script> <script> ...
 * a script is a word of operations: w wait, a..v signal with that datum, z signal NULL */
#include "vsched.h"
#include "sc_cond.h"
#include <pthread.h>

static struct sc_cond C;
static char *script[VS_MAX];
static char cell[26];

static void setup(void)
{
	vs_fail_arm(0);
	memset(&C, 0x5a, sizeof(C));
	if (sc_cond_init(&C) != 0) abort();
}
static int nthr;
static void begin(void)
{
	vs_log("{\"op\":\"begin\",\"n\":%d}\n", nthr);
}
static int datum(void *p)
{
	if (!p) return 0;
	for (int i = 0; i < 26; i++)
		if (p == &cell[i]) return i + 1;
	return -1;
}
static void body(int t)
{
	for (char *s = script[t]; *s; s++) {
		if (*s == 'w') {
			vs_log("{\"op\":\"call\",\"t\":%d,\"k\":\"wait\",\"v\":0}\n", t);
			void *p = sc_cond_wait(&C);
			vs_log("{\"op\":\"ret\",\"t\":%d,\"k\":\"wait\",\"v\":%d}\n", t, datum(p));
		} else {
			void *p = *s == 'z' ? NULL : &cell[*s - 'a'];
			vs_log("{\"op\":\"call\",\"t\":%d,\"k\":\"signal\",\"v\":%d}\n", t, datum(p));
			sc_cond_signal(&C, p);
			vs_log("{\"op\":\"ret\",\"t\":%d,\"k\":\"signal\",\"v\":0}\n", t);
		}
	}
}
static void finish(int stuck)
{
	vs_log("{\"op\":\"%s\",\"bad\":%d}\n", stuck == 2 ? "spin" : stuck ? "stuck" : "quiet", vs_bad);
	int rc = 0, live = vs_live_obj;
	if (!stuck) {
		rc = sc_cond_term(&C);
		live = vs_live_obj;
		rc |= sc_cond_term(&C);
	} else live = 2;
	vs_log("{\"op\":\"term\",\"rc\":%d,\"live\":%d,\"bad\":%d,\"stuck\":%d}\n", rc, live, vs_bad, !!stuck);
	vs_log("{\"op\":\"end\"}\n");
}

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("run")) {
			struct vs_opt o = {.body = body, .setup = setup, .begin = begin, .finish = finish};
			o.bound = (int) vf_int(1);
			o.spurious = (int) vf_int(2);
			o.maxruns = vf_int(3);
			o.seed = vf_u64(4);
			o.nthreads = nthr = vf_ntok - 5;
			for (int i = 0; i < nthr; i++) script[i] = strdup(vf_tok[5 + i]);
			vs_explore(&o);
			vf_raw("{\"op\":\"stat\",\"runs\":%ld,\"histories\":%ld,\"complete\":%s}\n", vs_runs, vs_new, vs_complete ? "true" : "false");
			continue;
		}
		/* init <n>: n-th underlying call fails, then term, then again without failure */
		int n = (int) vf_int(1);
		vf_raw("{\"op\":\"begin\",\"n\":0}\n");
		vs_live_obj = 0;
		vs_bad = 0;
		vs_fail_arm(n);
		errno = 0;
		memset(&C, 0x5a, sizeof(C));
		int rc = sc_cond_init(&C);
		int e = errno;
		vf_raw("{\"op\":\"init\",\"rc\":%d,\"err\":%d,\"failed\":%s,\"live\":%d,\"bad\":%d}\n", rc, e, vs_failed ? "true" : "false", vs_live_obj, vs_bad);
		for (int k = 0; k < 2; k++) {
			vs_failed = false;
			errno = 0;
			rc = sc_cond_term(&C);
			e = errno;
			vf_raw("{\"op\":\"term1\",\"rc\":%d,\"err\":%d,\"failed\":%s,\"live\":%d,\"bad\":%d}\n", rc, e, vs_failed ? "true" : "false", vs_live_obj, vs_bad);
		}
		vf_raw("{\"op\":\"end\"}\n");
		vf_raw("{\"op\":\"stat\",\"runs\":1,\"histories\":1,\"complete\":true}\n");
	}
	return 0;
}
