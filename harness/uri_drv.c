/* Drives the URI parser. The input is overwritten and freed before the parts are
 * read, so that they must be copies. */
#include "vf.h"
#include "sc_uri.h"

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) {
			vf_reset_live();
			vf_arm(0);
			ev_begin("begin");
			ev_end();
			continue;
		}
		if (vf_is("end")) {
			ev_begin("end");
			ev_int("live", vf_live);
			ev_int("bad", vf_badfree);
			ev_end();
			continue;
		}
		if (vf_is("fail")) {
			vf_arm(vf_u64(1));
			continue;
		}
		size_t n = 0;
		char *t = vf_hex(1, &n);
		char *copy = t ? malloc(n + 1) : NULL;
		if (t) memcpy(copy, t, n + 1);
		struct sc_uri *u;
		API(u = sc_uri_create(copy));
		ev_begin("parse");
		ev_cstr("t", t);
		ev_bool("input", !t || memcmp(copy, t, n + 1) == 0);
		if (copy) memset(copy, 'Z', n + 1);
		free(copy);
		ev_bool("ok", u != NULL);
		ev_bool("failed", vf_failed);
		vf_arm(0);
		if (u) {
			const char *p[] = {u->scheme, u->userinfo, u->host, u->port, u->path, u->query, u->fragment};
			ev_cstr("str", u->str);
			vf_raw(",\"parts\":[");
			for (int i = 0; i < 7; i++) {
				if (i) vf_raw(",");
				vf_raw("[");
				for (size_t k = 0; p[i][k]; k++) vf_raw(k ? ",%d" : "%d", (unsigned char) p[i][k]);
				vf_raw("]");
			}
			vf_raw("]");
		}
		ev_end();
		API(sc_uri_destroy(u));
		free(t);
	}
	return 0;
}
