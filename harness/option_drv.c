/* Drives the option parser. Names and arguments are separate heap blocks of exactly
 * their size, so that reading outside one is seen by the sanitizer. */
#include "vf.h"
#include "sc_option.h"

static struct sc_option_item *tab;
static int ntab;

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("begin") || vf_is("end")) {
			ev_begin(vf_tok[0]);
			ev_end();
			continue;
		}
		if (vf_is("table")) { /* letter name ... */
			ntab = (vf_ntok - 1) / 2;
			tab = malloc(sizeof(*tab) * (ntab ? ntab : 1));
			for (int i = 0; i < ntab; i++) {
				size_t n;
				struct sc_option_item it = {(char) vf_int(1 + 2 * i), vf_hex(2 + 2 * i, &n)};
				memcpy(&tab[i], &it, sizeof(it));
			}
			continue;
		}
		/* args ... : asks for every one of them */
		int n = vf_ntok - 1;
		char **argv = malloc(sizeof(char *) * n), **keep = malloc(sizeof(char *) * n);
		for (int i = 0; i < n; i++) {
			size_t l;
			argv[i] = vf_hex(1 + i, &l);
			argv[i] = realloc(argv[i], l + 1);
			keep[i] = strdup(argv[i]);
		}
		for (int k = 0; k < n; k++) {
			struct sc_option o = {.options = tab, .count = ntab, .argv = argv};
			char *val = "stale";
			char id = sc_option_at(&o, k, &val);
			bool same = true;
			for (int i = 0; i < n; i++) same = same && strcmp(argv[i], keep[i]) == 0;
			ev_begin("at");
			vf_raw(",\"tab\":[");
			for (int i = 0; i < ntab; i++) {
				vf_raw(i ? ",{\"l\":%d" : "{\"l\":%d", (unsigned char) tab[i].letter);
				ev_cstr("n", tab[i].name);
				vf_raw("}");
			}
			vf_raw("],\"args\":[");
			for (int i = 0; i < n; i++) {
				vf_raw(i ? ",[" : "[");
				for (int j = 0; argv[i][j]; j++) vf_raw(j ? ",%d" : "%d", (unsigned char) argv[i][j]);
				vf_raw("]");
			}
			vf_raw("]");
			ev_int("idx", k);
			ev_int("id", (unsigned char) id);
			ev_cstr("val", val);
			ev_bool("same", same);
			ev_end();
		}
	}
	return 0;
}
