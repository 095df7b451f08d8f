/* Shared driver support: event output into a shared file mapping (survives any
 * crash), command tokenizer, allocation tracking and fault injection through
 * the linker's --wrap (see vlib/core.py for the flags). */
#ifndef VF_H
#define VF_H
#define _GNU_SOURCE 1
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

/* ------------------------------------------------------------ event output */
extern char *vf_out;
extern size_t vf_pos;
void vf_init(void);            /* maps $VF_OUT */
void vf_raw(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_write(const char *p, size_t n);
void ev_begin(const char *op); /* {"op":"..." */
void ev_end(void);             /* }\n */
void ev_int(const char *k, long v);
void ev_bool(const char *k, bool v);
void ev_str(const char *k, const char *s);               /* plain ASCII text */
void ev_i64(const char *k, int64_t v);                   /* as decimal string */
void ev_u64(const char *k, uint64_t v);
void ev_bytes(const char *k, const void *p, size_t n);   /* [1,2,3] */
void ev_cstr(const char *k, const char *s);              /* bytes; NULL -> [-1] */
void ev_arr_begin(const char *k);
void ev_arr_end(void);
void ev_item_int(long v);
void ev_item_str(const char *s);
void ev_item_i64(int64_t v);
void ev_item_raw_begin(void);

/* ------------------------------------------------------------ commands */
#define VF_MAXTOK 4096
extern char *vf_tok[VF_MAXTOK];
extern int vf_ntok;
bool vf_next(void);               /* reads a line, splits it on blanks */
bool vf_is(const char *op);       /* vf_tok[0] == op */
long vf_int(int i);
int64_t vf_i64(int i);
uint64_t vf_u64(int i);
/* hex token -> malloc'd, NUL-terminated bytes; "-" is empty, "N" is NULL */
char *vf_hex(int i, size_t *len);

/* ------------------------------------------------------------ allocation */
extern volatile int vf_track;    /* inside library code */
extern long vf_live;    /* live blocks allocated inside library code */
extern long vf_nalloc;  /* allocation requests since vf_arm */
extern long vf_badfree; /* frees of blocks that are not live (double frees) */
extern uint64_t vf_failmask; /* bit n: fail the n-th request since vf_arm */
extern bool vf_failall;
extern bool vf_failed;  /* some request failed since vf_arm */
extern size_t vf_bigalloc; /* requests larger than this fail (0: off) */
void vf_arm(uint64_t mask);
#define API(...)                                                               \
	do {                                                                   \
		vf_track = 1;                                                  \
		__VA_ARGS__;                                                   \
		vf_track = 0;                                                  \
	} while (0)
void vf_reset_live(void);
#endif
