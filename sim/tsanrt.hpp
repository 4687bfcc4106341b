// The runtime behind the instrumentation of the node: the compiler's -fsanitize=thread pass calls one of these
// functions before every memory access, function entry and atomic operation of the real code, and the simulator
// decides there which thread runs next.  No part of the sanitizer's own runtime is linked.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
namespace hooks {
void access(const void *a, size_t n, bool write);
void entry();
void atomic(const void *a, size_t n, bool write);
}  // namespace hooks
#define X extern "C" __attribute__((visibility("default"), used))
#define RW(N)                                                                                  \
    X void __tsan_read##N(void *a) { hooks::access(a, N, false); }                             \
    X void __tsan_write##N(void *a) { hooks::access(a, N, true); }                             \
    X void __tsan_unaligned_read##N(void *a) { hooks::access(a, N, false); }                   \
    X void __tsan_unaligned_write##N(void *a) { hooks::access(a, N, true); }                   \
    X void __tsan_volatile_read##N(void *a) { hooks::atomic(a, N, false); }                    \
    X void __tsan_volatile_write##N(void *a) { hooks::atomic(a, N, true); }                    \
    X void __tsan_unaligned_volatile_read##N(void *a) { hooks::atomic(a, N, false); }          \
    X void __tsan_unaligned_volatile_write##N(void *a) { hooks::atomic(a, N, true); }          \
    X void __tsan_read_write##N(void *a) { hooks::access(a, N, false); hooks::access(a, N, true); } \
    X void __tsan_unaligned_read_write##N(void *a) { hooks::access(a, N, false); hooks::access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_init() {}
X void __tsan_func_entry(void *) { hooks::entry(); }
X void __tsan_func_exit() { hooks::entry(); }
X void __tsan_vptr_update(void **a, void *) { hooks::access(a, 8, true); }
X void __tsan_vptr_read(void **a) { hooks::access(a, 8, false); }
X void __tsan_read_range(void *a, size_t n) { hooks::access(a, n, false); }
X void __tsan_write_range(void *a, size_t n) { hooks::access(a, n, true); }
#define MEMS(P)                                                                                                                                  \
    X void *P##memcpy(void *d, const void *s, size_t n) { if (n) { hooks::access(s, n, false); hooks::access(d, n, true); } return memcpy(d, s, n); }   \
    X void *P##memmove(void *d, const void *s, size_t n) { if (n) { hooks::access(s, n, false); hooks::access(d, n, true); } return memmove(d, s, n); } \
    X void *P##memset(void *d, int c, size_t n) { if (n) hooks::access(d, n, true); return memset(d, c, n); }
MEMS(__tsan_) MEMS(__wrap_)
X int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { hooks::access(a, n, false); hooks::access(b, n, false); } return memcmp(a, b, n); }
#define AT(N, T)                                                                                                       \
    X T __tsan_atomic##N##_load(const volatile T *a, int) { hooks::atomic((void *)a, sizeof(T), false); return __atomic_load_n(a, 5); }                  \
    X void __tsan_atomic##N##_store(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); __atomic_store_n(a, v, 5); }                   \
    X T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_exchange_n(a, v, 5); }         \
    X T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_fetch_add(a, v, 5); }         \
    X T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_fetch_sub(a, v, 5); }         \
    X T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_fetch_and(a, v, 5); }         \
    X T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_fetch_or(a, v, 5); }           \
    X T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_fetch_xor(a, v, 5); }         \
    X T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_fetch_nand(a, v, 5); }       \
    X int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T d, int, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_compare_exchange_n(a, e, d, false, 5, 5); } \
    X int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T d, int, int) { hooks::atomic((void *)a, sizeof(T), true); return __atomic_compare_exchange_n(a, e, d, false, 5, 5); }   \
    X T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T d, int, int) { hooks::atomic((void *)a, sizeof(T), true); __atomic_compare_exchange_n(a, &e, d, false, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
X void __tsan_atomic_thread_fence(int) { hooks::entry(); __atomic_thread_fence(5); }
X void __tsan_atomic_signal_fence(int) {}
#undef X
#undef RW
#undef MEMS
#undef AT
