/* Stand-ins for the runtime of -fsanitize=thread: every access is reported to acc(). */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
#define A(n)                                                                   \
	void __tsan_read##n(void *p) { acc(p); }                               \
	void __tsan_write##n(void *p) { acc(p); }                              \
	void __tsan_unaligned_read##n(void *p) { acc(p); }                     \
	void __tsan_unaligned_write##n(void *p) { acc(p); }                    \
	void __tsan_volatile_read##n(void *p) { acc(p); }                      \
	void __tsan_volatile_write##n(void *p) { acc(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, unsigned long n) { (void) n; acc(p); }
void __tsan_write_range(void *p, unsigned long n) { (void) n; acc(p); }
void __tsan_atomic_thread_fence(int o) { (void) o; }
void __tsan_atomic_signal_fence(int o) { (void) o; }
#define AT(b, T_)                                                              \
	T_ __tsan_atomic##b##_load(const volatile T_ *p, int o) { (void) o; acc(p); return *p; } \
	void __tsan_atomic##b##_store(volatile T_ *p, T_ v, int o) { (void) o; acc(p); *p = v; } \
	T_ __tsan_atomic##b##_exchange(volatile T_ *p, T_ v, int o) { (void) o; acc(p); T_ r = *p; *p = v; return r; } \
	T_ __tsan_atomic##b##_fetch_add(volatile T_ *p, T_ v, int o) { (void) o; acc(p); T_ r = *p; *p = (T_) (r + v); return r; } \
	T_ __tsan_atomic##b##_fetch_sub(volatile T_ *p, T_ v, int o) { (void) o; acc(p); T_ r = *p; *p = (T_) (r - v); return r; } \
	T_ __tsan_atomic##b##_fetch_and(volatile T_ *p, T_ v, int o) { (void) o; acc(p); T_ r = *p; *p = r & v; return r; } \
	T_ __tsan_atomic##b##_fetch_or(volatile T_ *p, T_ v, int o) { (void) o; acc(p); T_ r = *p; *p = r | v; return r; } \
	T_ __tsan_atomic##b##_fetch_xor(volatile T_ *p, T_ v, int o) { (void) o; acc(p); T_ r = *p; *p = r ^ v; return r; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T_ *p, T_ *c, T_ v, int o, int f) { (void) o; (void) f; acc(p); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T_ *p, T_ *c, T_ v, int o, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, o, f); } \
	T_ __tsan_atomic##b##_compare_exchange_val(volatile T_ *p, T_ c, T_ v, int o, int f) { (void) o; (void) f; acc(p); T_ r = *p; if (r == c) *p = v; return r; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
