#include "vf.h"

char *vf_out;
size_t vf_pos;
static size_t vf_cap;
static bool first_item, in_arr;

void vf_init(void)
{
	const char *p = getenv("VF_OUT");
	const char *c = getenv("VF_OUT_CAP");
	vf_cap = c ? strtoull(c, NULL, 10) : (size_t) 1 << 30;
	int fd = open(p, O_RDWR | O_CREAT, 0600);
	if (fd < 0 || ftruncate(fd, (off_t) vf_cap) != 0) {
		_exit(97);
	}
	vf_out = mmap(NULL, vf_cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (vf_out == MAP_FAILED) {
		_exit(97);
	}
	close(fd);
	vf_pos = 0;
}

static void put(const char *s, size_t n)
{
	if (vf_pos + n + 1 >= vf_cap) {
		_exit(98);
	}
	memcpy(vf_out + vf_pos, s, n);
	vf_pos += n;
}

void vf_raw(const char *fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	put(b, (size_t) n);
}

void ev_begin(const char *op)
{
	vf_raw("{\"op\":\"%s\"", op);
}

void ev_end(void)
{
	put("}\n", 2);
}

void ev_int(const char *k, long v)
{
	/* TLC integers are 32 bit */
	if (v > 2000000000L) {
		v = 2000000000L;
	} else if (v < -2000000000L) {
		v = -2000000000L;
	}
	vf_raw(",\"%s\":%ld", k, v);
}

void ev_bool(const char *k, bool v)
{
	vf_raw(",\"%s\":%s", k, v ? "true" : "false");
}

static void put_escaped(const char *s)
{
	for (; *s; s++) {
		unsigned char c = (unsigned char) *s;
		if (c == '"' || c == '\\') {
			char b[2] = {'\\', (char) c};
			put(b, 2);
		} else if (c < 32 || c > 126) {
			char b[8];
			int n = snprintf(b, sizeof(b), "\\\\x%02x", c);
			put(b, (size_t) n);
		} else {
			put(s, 1);
		}
	}
}

void ev_str(const char *k, const char *s)
{
	vf_raw(",\"%s\":\"", k);
	put_escaped(s ? s : "NULL");
	put("\"", 1);
}

void ev_i64(const char *k, int64_t v)
{
	vf_raw(",\"%s\":\"%" PRId64 "\"", k, v);
}

void ev_u64(const char *k, uint64_t v)
{
	vf_raw(",\"%s\":\"%" PRIu64 "\"", k, v);
}

void ev_bytes(const char *k, const void *p, size_t n)
{
	const unsigned char *b = p;
	vf_raw(",\"%s\":[", k);
	for (size_t i = 0; i < n; i++) {
		vf_raw(i ? ",%u" : "%u", b[i]);
	}
	put("]", 1);
}

void ev_cstr(const char *k, const char *s)
{
	if (s == NULL) {
		vf_raw(",\"%s\":[-1]", k);
	} else {
		ev_bytes(k, s, strlen(s));
	}
}

void ev_arr_begin(const char *k)
{
	vf_raw(",\"%s\":[", k);
	first_item = true;
}

void ev_arr_end(void)
{
	put("]", 1);
}

void ev_item_raw_begin(void)
{
	if (!first_item) {
		put(",", 1);
	}
	first_item = false;
}

void ev_item_int(long v)
{
	ev_item_raw_begin();
	if (v > 2000000000L) {
		v = 2000000000L;
	} else if (v < -2000000000L) {
		v = -2000000000L;
	}
	vf_raw("%ld", v);
}

void ev_item_str(const char *s)
{
	ev_item_raw_begin();
	put("\"", 1);
	put_escaped(s ? s : "NULL");
	put("\"", 1);
}

void ev_item_i64(int64_t v)
{
	ev_item_raw_begin();
	vf_raw("\"%" PRId64 "\"", v);
}

/* ------------------------------------------------------------ commands */
char *vf_tok[VF_MAXTOK];
int vf_ntok;
static char *line;
static size_t linecap;
static FILE *vf_in;

bool vf_next(void)
{
	if (vf_in == NULL) {
		/* the whole file in memory: forked children read on for themselves */
		int fd = open(getenv("VF_IN"), O_RDONLY);
		off_t n = fd < 0 ? -1 : lseek(fd, 0, SEEK_END);
		void *p = n > 0 ? mmap(NULL, (size_t) n, PROT_READ, MAP_PRIVATE, fd, 0) : MAP_FAILED;
		vf_in = p == MAP_FAILED ? NULL : fmemopen(p, (size_t) n, "r");
		if (vf_in == NULL) {
			_exit(97);
		}
		close(fd);
	}
	for (;;) {
		ssize_t n = getline(&line, &linecap, vf_in);
		if (n < 0) {
			return false;
		}
		char *sv = NULL;
		vf_ntok = 0;
		for (char *t = strtok_r(line, " \n", &sv); t;
		     t = strtok_r(NULL, " \n", &sv)) {
			vf_tok[vf_ntok++] = t;
		}
		if (vf_ntok > 0) {
			return true;
		}
	}
}

bool vf_is(const char *op)
{
	return strcmp(vf_tok[0], op) == 0;
}

long vf_int(int i)
{
	if (i >= vf_ntok) {
		_exit(96);
	}
	return strtol(vf_tok[i], NULL, 0);
}

int64_t vf_i64(int i)
{
	if (i >= vf_ntok) {
		_exit(96);
	}
	return strtoll(vf_tok[i], NULL, 0);
}

uint64_t vf_u64(int i)
{
	if (i >= vf_ntok) {
		_exit(96);
	}
	return strtoull(vf_tok[i], NULL, 0);
}

char *vf_hex(int i, size_t *len)
{
	if (i >= vf_ntok) {
		_exit(96);
	}
	const char *t = vf_tok[i];
	if (strcmp(t, "N") == 0) {
		if (len) {
			*len = 0;
		}
		return NULL;
	}
	size_t rep = 1;
	if (t[0] == '*') { /* "*N:hex" is hex repeated N times */
		rep = strtoull(t + 1, NULL, 10);
		t = strchr(t, ':') + 1;
	}
	size_t n = strcmp(t, "-") == 0 ? 0 : strlen(t) / 2;
	char *b = malloc(n * rep + 1);
	for (size_t k = 0; k < n; k++) {
		unsigned v = 0;
		char h[3] = {t[2 * k], t[2 * k + 1], 0};
		v = (unsigned) strtoul(h, NULL, 16);
		b[k] = (char) v;
	}
	for (size_t k = 1; k < rep; k++) {
		memcpy(b + k * n, b, n);
	}
	n *= rep;
	b[n] = 0;
	if (len) {
		*len = n;
	}
	return b;
}

/* ------------------------------------------------------------ allocation */
volatile int vf_track;
long vf_live, vf_nalloc, vf_badfree;
uint64_t vf_failmask;
bool vf_failall, vf_failed;
size_t vf_bigalloc;

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
int __real_vasprintf(char **, const char *, va_list);

#define TAB (1u << 16)
static void *tab[TAB];

static unsigned slot(void *p)
{
	uintptr_t x = (uintptr_t) p;
	x = (x >> 4) * 0x9E3779B1u;
	return (unsigned) (x & (TAB - 1));
}

static void tab_add(void *p)
{
	unsigned s = slot(p);
	while (tab[s] != NULL && tab[s] != (void *) -1) {
		s = (s + 1) & (TAB - 1);
	}
	tab[s] = p;
	vf_live++;
}

static bool tab_del(void *p)
{
	unsigned s = slot(p);
	while (tab[s] != NULL) {
		if (tab[s] == p) {
			unsigned n = (s + 1) & (TAB - 1);
			tab[s] = tab[n] ? (void *) -1 : NULL;
			vf_live--;
			return true;
		}
		s = (s + 1) & (TAB - 1);
	}
	return false;
}

void vf_reset_live(void)
{
	memset(tab, 0, sizeof(tab));
	vf_live = 0;
	vf_badfree = 0;
}

void vf_arm(uint64_t mask)
{
	vf_failmask = mask;
	vf_nalloc = 0;
	vf_failed = false;
}

static bool deny(size_t n)
{
	bool f;
	if (vf_bigalloc && n > vf_bigalloc) {
		vf_nalloc++;
		vf_failed = true;
		return true;
	}
	f = vf_failall || (vf_nalloc < 64 && ((vf_failmask >> vf_nalloc) & 1));
	vf_nalloc++;
	if (f) {
		vf_failed = true;
	}
	return f;
}

#define GUARD(n)                                                               \
	if (vf_track && deny(n)) {                                             \
		errno = ENOMEM;                                                \
		return NULL;                                                   \
	}

void *__wrap_malloc(size_t n)
{
	GUARD(n)
	void *p = __real_malloc(n);
	if (p && vf_track) {
		tab_add(p);
	}
	return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
	size_t tot;
	if (__builtin_mul_overflow(a, b, &tot)) {
		tot = SIZE_MAX;
	}
	if (vf_track && tot == SIZE_MAX) {
		vf_nalloc++;
		vf_failed = true;
		errno = ENOMEM;
		return NULL;
	}
	GUARD(tot)
	void *p = __real_calloc(a, b);
	if (p && vf_track) {
		tab_add(p);
	}
	return p;
}

void *__wrap_realloc(void *o, size_t n)
{
	GUARD(n)
	bool had = o && tab_del(o);
	void *p = __real_realloc(o, n);
	if (p == NULL && n != 0) {
		if (had) {
			tab_add(o);
		}
		return NULL;
	}
	if (p && (had || vf_track)) {
		tab_add(p);
	}
	return p;
}

void __wrap_free(void *p)
{
	if (p) {
		tab_del(p);
	}
	__real_free(p);
}

char *__wrap_strdup(const char *s)
{
	GUARD(strlen(s) + 1)
	char *p = __real_strdup(s);
	if (p && vf_track) {
		tab_add(p);
	}
	return p;
}

char *__wrap_strndup(const char *s, size_t n)
{
	GUARD(n + 1)
	char *p = __real_strndup(s, n);
	if (p && vf_track) {
		tab_add(p);
	}
	return p;
}

int __wrap_vasprintf(char **out, const char *fmt, va_list ap)
{
	if (vf_track && deny(1)) {
		errno = ENOMEM;
		return -1;
	}
	int rc = __real_vasprintf(out, fmt, ap);
	if (rc >= 0 && vf_track) {
		tab_add(*out);
	}
	return rc;
}

void vf_write(const char *p, size_t n)
{
	put(p, n);
}
