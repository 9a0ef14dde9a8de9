// Simulator runtime shim. Everything that the Rust scheduler must intercept below the level of
// Rust code lives here:
//  * the __tsan_* entry points that rustc's ThreadSanitizer pass (atomics only) calls: each
//    atomic operation of the program is a scheduling point of the simulator;
//  * syscall(), through which the Rust standard library issues futex operations: blocking and
//    waking become simulator events;
//  * getrandom(), through which hash seeds and OS randomness are drawn: seeded.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <linux/futex.h>

extern void sim_atomic_point(const void *addr, int kind);
extern int sim_futex_wait(const void *addr, uint32_t val, int timed);
extern int sim_futex_wake(const void *addr, uint32_t n);
extern void sim_fill_random(unsigned char *buf, size_t len);

// 1 while the thread runs simulated program code (not the scheduler itself).
static __thread int sim_on;
// 1 when randomness is owned by the simulator in this process.
static int sim_rand_on;

void sim_rt_set_on(int v) { sim_on = v; }
int sim_rt_get_on(void) { return sim_on; }
void sim_rt_set_rand(int v) { sim_rand_on = v; }

static inline void pt(const volatile void *a, int kind) {
  if (__builtin_expect(sim_on, 0)) sim_atomic_point((const void *)a, kind);
}

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
#define NOP1(n) void n(void *a) { (void)a; }
NOP1(__tsan_read1) NOP1(__tsan_read2) NOP1(__tsan_read4) NOP1(__tsan_read8) NOP1(__tsan_read16)
NOP1(__tsan_write1) NOP1(__tsan_write2) NOP1(__tsan_write4) NOP1(__tsan_write8) NOP1(__tsan_write16)
NOP1(__tsan_unaligned_read2) NOP1(__tsan_unaligned_read4) NOP1(__tsan_unaligned_read8) NOP1(__tsan_unaligned_read16)
NOP1(__tsan_unaligned_write2) NOP1(__tsan_unaligned_write4) NOP1(__tsan_unaligned_write8) NOP1(__tsan_unaligned_write16)
NOP1(__tsan_vptr_read)
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_read_range(void *a, long n) { (void)a; (void)n; }
void __tsan_write_range(void *a, long n) { (void)a; (void)n; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return __builtin_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return __builtin_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return __builtin_memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { (void)mo; pt(0, 3); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; __atomic_signal_fence(__ATOMIC_SEQ_CST); }

#define OPS(BITS, T)                                                                              \
  T __tsan_atomic##BITS##_load(const volatile T *a, int mo) { (void)mo; pt(a, 0);                 \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                                                \
  void __tsan_atomic##BITS##_store(volatile T *a, T v, int mo) { (void)mo; pt(a, 1);              \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                                                   \
  T __tsan_atomic##BITS##_exchange(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);              \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                                         \
  T __tsan_atomic##BITS##_fetch_add(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);             \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                                          \
  T __tsan_atomic##BITS##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);             \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                                          \
  T __tsan_atomic##BITS##_fetch_and(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);             \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                                          \
  T __tsan_atomic##BITS##_fetch_or(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);              \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                                           \
  T __tsan_atomic##BITS##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);             \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                                          \
  T __tsan_atomic##BITS##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; pt(a, 2);            \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                                         \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {  \
    (void)mo; (void)fmo; pt(a, 2);                                                                \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }         \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {    \
    (void)mo; (void)fmo; pt(a, 2);                                                                \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }         \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {        \
    (void)mo; (void)fmo; pt(a, 2);                                                                \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }

OPS(8, uint8_t)
OPS(16, uint16_t)
OPS(32, uint32_t)
OPS(64, uint64_t)

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}

long syscall(long n, long a, long b, long c, long d, long e, long f) {
  if (n == SYS_futex && sim_on) {
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      int r = sim_futex_wait((const void *)a, (uint32_t)c, d != 0);
      if (r < 0) { errno = -r; return -1; }
      return r;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return sim_futex_wake((const void *)a, (uint32_t)c);
  }
  if (n == SYS_getrandom && sim_rand_on) { sim_fill_random((unsigned char *)a, (size_t)b); return b; }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (sim_rand_on) { sim_fill_random((unsigned char *)buf, len); return (ssize_t)len; }
  long r = raw_syscall(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
