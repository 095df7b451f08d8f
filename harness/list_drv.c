/* Drives several sc_lists over shared entries. */
#include "vf.h"
#include "sc_list.h"

#define MAXL 8
#define MAXE 66000
struct item {
	char pad[5];
	int id;
	struct sc_list node;
	int guard;
};
static struct sc_list lists[MAXL];
static struct item items[MAXE];
static int owner[MAXE]; /* which list the commands put the entry in (only to name it in calls) */
static int nl, ne;

static int idof(struct sc_list *n)
{
	if (n == NULL) return 0;
	uintptr_t off = (uintptr_t) n - (uintptr_t) items, k = off / sizeof(items[0]);
	if (k < 1 || k > (uintptr_t) ne || &items[k].node != n) return -1;
	return sc_list_entry(n, struct item, node)->id;
}
static bool inset(int e)
{
	for (int i = 0; i < vf_ntok; i++) {
		if (strcmp(vf_tok[i], "--") == 0) {
			for (int j = i + 1; j < vf_ntok; j++) if (vf_int(j) == e) return true;
		}
	}
	return false;
}
static void put_set(void)
{
	ev_arr_begin("set");
	for (int e = 1; e <= ne; e++) if (inset(e)) ev_item_int(e);
	ev_arr_end();
}

int main(void)
{
	vf_init();
	while (vf_next()) {
		if (vf_is("begin")) {
			nl = (int) vf_int(1);
			ne = (int) vf_int(2);
			memset(lists, 0xa5, sizeof(lists));
			memset(items, 0xa5, sizeof(items));
			for (int i = 1; i <= nl; i++) sc_list_init(&lists[i]);
			for (int i = 1; i <= ne; i++) {
				sc_list_init(&items[i].node);
				items[i].id = i;
				owner[i] = 0;
			}
			ev_begin("begin");
			ev_int("nl", nl);
			ev_end();
			continue;
		}
		if (vf_is("end")) {
			ev_begin("end");
			ev_end();
			continue;
		}
		if (vf_is("dumps")) {
			for (int i = 1; i <= nl; i++) {
				struct sc_list *it;
				int lim = ne + 10;
				ev_begin("dump");
				ev_int("i", i);
				ev_arr_begin("fwd");
				sc_list_foreach (&lists[i], it) {
					if (--lim < 0) break;
					ev_item_int(idof(it));
				}
				ev_arr_end();
				lim = ne + 10;
				ev_arr_begin("bwd");
				sc_list_foreach_r (&lists[i], it) {
					if (--lim < 0) break;
					ev_item_int(idof(it));
				}
				ev_arr_end();
				ev_int("head", idof(sc_list_head(&lists[i])));
				ev_int("tail", idof(sc_list_tail(&lists[i])));
				ev_int("count", lim < 0 ? -1 : (long) sc_list_count(&lists[i]));
				ev_bool("empty", sc_list_is_empty(&lists[i]));
				ev_end();
			}
			continue;
		}
		ev_begin(vf_tok[0]);
		if (vf_is("addh") || vf_is("addt")) {
			int i = (int) vf_int(1), e = (int) vf_int(2);
			if (vf_is("addh")) sc_list_add_head(&lists[i], &items[e].node);
			else sc_list_add_tail(&lists[i], &items[e].node);
			owner[e] = i;
			ev_int("i", i);
			ev_int("e", e);
		} else if (vf_is("fill")) {
			int i = (int) vf_int(1), a = (int) vf_int(2), b = (int) vf_int(3);
			for (int e = a; e <= b; e++) {
				sc_list_add_tail(&lists[i], &items[e].node);
				owner[e] = i;
			}
			ev_int("i", i);
			ev_int("a", a);
			ev_int("b", b);
		} else if (vf_is("adda") || vf_is("addb")) {
			int i = (int) vf_int(1), p = (int) vf_int(2), e = (int) vf_int(3);
			if (vf_is("adda")) sc_list_add_after(&lists[i], &items[p].node, &items[e].node);
			else sc_list_add_before(&lists[i], &items[p].node, &items[e].node);
			owner[e] = i;
			ev_int("i", i);
			ev_int("p", p);
			ev_int("e", e);
		} else if (vf_is("del")) {
			int e = (int) vf_int(1);
			sc_list_del(&lists[owner[e] ? owner[e] : 1], &items[e].node);
			owner[e] = 0;
			ev_int("e", e);
		} else if (vf_is("poph") || vf_is("popt")) {
			int i = (int) vf_int(1);
			struct sc_list *n = vf_is("poph") ? sc_list_pop_head(&lists[i]) : sc_list_pop_tail(&lists[i]);
			int r = idof(n);
			if (r > 0) owner[r] = 0;
			ev_int("i", i);
			ev_int("ret", r);
		} else if (vf_is("clear")) {
			int i = (int) vf_int(1);
			sc_list_clear(&lists[i]);
			for (int e = 1; e <= ne; e++) if (owner[e] == i) owner[e] = 0;
			ev_int("i", i);
		} else if (vf_is("itdel") || vf_is("itmove")) {
			/* itdel i rev -- set ; itmove i rev j -- set */
			bool mv = vf_is("itmove");
			int i = (int) vf_int(1), rev = (int) vf_int(2), j = mv ? (int) vf_int(3) : 0, lim = ne + 10;
			struct sc_list *it, *tmp;
			ev_int("i", i);
			if (mv) ev_int("j", j);
			ev_bool("rev", rev != 0);
			put_set();
			ev_arr_begin("visited");
#define BODY                                                                   \
	if (--lim < 0) break;                                                  \
	int e = idof(it);                                                      \
	ev_item_int(e);                                                        \
	if (e > 0 && inset(e)) {                                               \
		if (mv) {                                                      \
			sc_list_add_tail(&lists[j], it);                       \
			owner[e] = j;                                          \
		} else {                                                       \
			sc_list_del(&lists[i], it);                            \
			owner[e] = 0;                                          \
		}                                                              \
	}
			if (rev) {
				sc_list_foreach_safe_r (&lists[i], tmp, it) { BODY }
			} else {
				sc_list_foreach_safe (&lists[i], tmp, it) { BODY }
			}
			ev_arr_end();
		} else {
			_exit(96);
		}
		ev_end();
	}
	return 0;
}
