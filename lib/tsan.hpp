// Access instrumentation: the compiler's -fsanitize=thread pass calls these
// functions before every load and store of the instrumented code; the real
// runtime library is not linked.  vf_access(address, size, write) decides what
// to do with an access.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#define VF_NOTSAN __attribute__((no_sanitize("thread")))
static inline void vf_access(const void* p, std::size_t n, bool write);
#define VF_H(name, n, w) extern "C" VF_NOTSAN void name(void* p) { vf_access(p, n, w); }
#define VF_HS(n) VF_H(__tsan_read##n, n, false) VF_H(__tsan_write##n, n, true) VF_H(__tsan_unaligned_read##n, n, false) VF_H(__tsan_unaligned_write##n, n, true) \
    VF_H(__tsan_volatile_read##n, n, false) VF_H(__tsan_volatile_write##n, n, true) VF_H(__tsan_unaligned_volatile_read##n, n, false) VF_H(__tsan_unaligned_volatile_write##n, n, true) \
    VF_H(__tsan_read##n##_pc, n, false) VF_H(__tsan_write##n##_pc, n, true) \
    extern "C" VF_NOTSAN void __tsan_read_write##n(void* p) { vf_access(p, n, false); vf_access(p, n, true); } \
    extern "C" VF_NOTSAN void __tsan_unaligned_read_write##n(void* p) { vf_access(p, n, false); vf_access(p, n, true); }
VF_HS(1) VF_HS(2) VF_HS(4) VF_HS(8) VF_HS(16)
extern "C" {
VF_NOTSAN void __tsan_read_range(void* p, std::size_t n) { vf_access(p, n, false); }
VF_NOTSAN void __tsan_write_range(void* p, std::size_t n) { vf_access(p, n, true); }
VF_NOTSAN void __tsan_init() {}
VF_NOTSAN void __tsan_func_entry(void*) {}
VF_NOTSAN void __tsan_func_exit() {}
VF_NOTSAN void __tsan_vptr_update(void** p, void*) { vf_access(p, 8, true); }
VF_NOTSAN void __tsan_vptr_read(void** p) { vf_access(p, 8, false); }
VF_NOTSAN void __tsan_ignore_thread_begin() {}
VF_NOTSAN void __tsan_ignore_thread_end() {}
VF_NOTSAN void* __tsan_memcpy(void* d, const void* s, std::size_t n) { if (n) { vf_access(s, n, false); vf_access(d, n, true); } return __builtin_memcpy(d, s, n); }
VF_NOTSAN void* __tsan_memmove(void* d, const void* s, std::size_t n) { if (n) { vf_access(s, n, false); vf_access(d, n, true); } return __builtin_memmove(d, s, n); }
VF_NOTSAN void* __tsan_memset(void* d, int c, std::size_t n) { if (n) vf_access(d, n, true); return __builtin_memset(d, c, n); }
// library functions, redirected by the linker (-Wl,--wrap=...)
void* __real_memcpy(void*, const void*, std::size_t); void* __real_memmove(void*, const void*, std::size_t); void* __real_memset(void*, int, std::size_t); int __real_memcmp(const void*, const void*, std::size_t);
VF_NOTSAN void* __wrap_memcpy(void* d, const void* s, std::size_t n) { if (n) { vf_access(s, n, false); vf_access(d, n, true); } return __real_memcpy(d, s, n); }
VF_NOTSAN void* __wrap_memmove(void* d, const void* s, std::size_t n) { if (n) { vf_access(s, n, false); vf_access(d, n, true); } return __real_memmove(d, s, n); }
VF_NOTSAN void* __wrap_memset(void* d, int c, std::size_t n) { if (n) vf_access(d, n, true); return __real_memset(d, c, n); }
VF_NOTSAN int __wrap_memcmp(const void* a, const void* b, std::size_t n) { if (n) { vf_access(a, n, false); vf_access(b, n, false); } return __real_memcmp(a, b, n); }
// atomics: plain operations here (one thread runs at a time)
#define VF_AT(bits, T) \
    VF_NOTSAN T __tsan_atomic##bits##_load(const volatile T* a, int) { vf_access((const void*)a, sizeof(T), false); return *a; } \
    VF_NOTSAN void __tsan_atomic##bits##_store(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); *a = v; } \
    VF_NOTSAN T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = v; return o; } \
    VF_NOTSAN T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = (T)(o + v); return o; } \
    VF_NOTSAN T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = (T)(o - v); return o; } \
    VF_NOTSAN T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = (T)(o & v); return o; } \
    VF_NOTSAN T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = (T)(o | v); return o; } \
    VF_NOTSAN T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = (T)(o ^ v); return o; } \
    VF_NOTSAN T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; *a = (T)~(o & v); return o; } \
    VF_NOTSAN int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    VF_NOTSAN int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    VF_NOTSAN T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { vf_access((const void*)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
VF_AT(8, std::uint8_t) VF_AT(16, std::uint16_t) VF_AT(32, std::uint32_t) VF_AT(64, std::uint64_t)
VF_NOTSAN void __tsan_atomic_thread_fence(int) {}
VF_NOTSAN void __tsan_atomic_signal_fence(int) {}
}
#define VF_WRAP "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"
