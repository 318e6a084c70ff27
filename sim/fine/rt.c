/* Compiled into the "fine" build only.  rustc's thread-sanitizer instrumentation
 * calls these at every load and store the compiled code makes; each becomes a
 * point at which the simulator's scheduler may run another simulated thread. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>

static int on;
static __thread int quiet = 1;
void rc_on(int v) { on = v; }
void rc_quiet(int by) { quiet += by; }
extern void rc_access(int shared);
/* writable static memory of the program: what all threads can reach without being handed it */
extern char __data_start[], _end[];
/* less what is the simulator's own */
extern char __start_rcown[], __stop_rcown[];
static inline int is_static(const volatile void *p) { return (const char *)p >= __data_start && (const char *)p < _end && !((const char *)p >= __start_rcown && (const char *)p < __stop_rcown); }
static inline void at(const volatile void *p) {
    if (!on || quiet) return;
    quiet++;
    rc_access(is_static(p));
    quiet--;
}
/* an atomic: looking at the same one over and over is waiting for another thread */
extern void rc_spin(void);
static __thread const volatile void *seen;
static __thread int again;
static inline void atomic(const volatile void *p) {
    at(p);
    if (!on) return;
    /* also when the caller's own element code uses the library */
    again = p == seen ? again + 1 : 0;
    seen = p;
    if (again >= 200) { again = 0; quiet++; rc_spin(); quiet--; }
}

#define H(n) void n(void *p) { at(p); }
H(__tsan_read1) H(__tsan_read2) H(__tsan_read4) H(__tsan_read8) H(__tsan_read16)
H(__tsan_write1) H(__tsan_write2) H(__tsan_write4) H(__tsan_write8) H(__tsan_write16)
H(__tsan_unaligned_read1) H(__tsan_unaligned_read2) H(__tsan_unaligned_read4) H(__tsan_unaligned_read8) H(__tsan_unaligned_read16)
H(__tsan_unaligned_write1) H(__tsan_unaligned_write2) H(__tsan_unaligned_write4) H(__tsan_unaligned_write8) H(__tsan_unaligned_write16)
H(__tsan_volatile_read1) H(__tsan_volatile_read2) H(__tsan_volatile_read4) H(__tsan_volatile_read8) H(__tsan_volatile_read16)
H(__tsan_volatile_write1) H(__tsan_volatile_write2) H(__tsan_volatile_write4) H(__tsan_volatile_write8) H(__tsan_volatile_write16)
H(__tsan_vptr_read)
void __tsan_vptr_update(void *p, void *q) { (void)q; at(p); }
void __tsan_read_range(void *p, unsigned long n) { (void)n; at(p); }
void __tsan_write_range(void *p, unsigned long n) { (void)n; at(p); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
/* a copy is not one step: another thread may run between its halves */
void *__tsan_memcpy(void *d, const void *s, size_t n) { at(s); size_t h = n / 16 * 8; memcpy(d, s, h); at(d); memcpy((char *)d + h, (const char *)s + h, n - h); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { at(d); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { at(d); size_t h = n / 2; memset(d, c, h); if (h) at(d); memset((char *)d + h, c, n - h); return d; }
void __tsan_atomic_thread_fence(int o) { (void)o; at(0); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

#define A(b, t) \
    t __tsan_atomic##b##_load(const volatile t *p, int o) { (void)o; atomic(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile t *p, t v, int o) { (void)o; atomic(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_exchange(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_add(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_sub(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_and(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_or(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_xor(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_nand(volatile t *p, t v, int o) { (void)o; atomic(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t c, t v, int o, int f) { (void)o; (void)f; atomic(p); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
