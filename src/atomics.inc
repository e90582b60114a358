// Generates the __tsan_atomic* entry points.  ATOMIC_PRE(addr,size,mo,kind) / ATOMIC_POST are provided by
// the including file.  kind: 0 load, 1 store, 2 read-modify-write
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
typedef unsigned __int128 a128;
#define DEF_ATOMIC(N, T)                                                                            \
  extern "C" T __tsan_atomic##N##_load(const volatile T* a, int mo) {                               \
    ATOMIC_PRE(a, sizeof(T), mo, 0);                                                                \
    T v = *a;                                                                                       \
    ATOMIC_POST(a, sizeof(T), mo, 0);                                                               \
    return v;                                                                                       \
  }                                                                                                 \
  extern "C" void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                            \
    ATOMIC_PRE(a, sizeof(T), mo, 1);                                                                \
    *a = v;                                                                                         \
    ATOMIC_POST(a, sizeof(T), mo, 1);                                                               \
  }                                                                                                 \
  extern "C" T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                            \
    ATOMIC_PRE(a, sizeof(T), mo, 2);                                                                \
    T o = *a; *a = v;                                                                               \
    ATOMIC_POST(a, sizeof(T), mo, 2);                                                               \
    return o;                                                                                       \
  }                                                                                                 \
  extern "C" T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) {                           \
    ATOMIC_PRE(a, sizeof(T), mo, 2); T o = *a; *a = (T)(o + v); ATOMIC_POST(a, sizeof(T), mo, 2); return o; } \
  extern "C" T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) {                           \
    ATOMIC_PRE(a, sizeof(T), mo, 2); T o = *a; *a = (T)(o - v); ATOMIC_POST(a, sizeof(T), mo, 2); return o; } \
  extern "C" T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) {                           \
    ATOMIC_PRE(a, sizeof(T), mo, 2); T o = *a; *a = (T)(o & v); ATOMIC_POST(a, sizeof(T), mo, 2); return o; } \
  extern "C" T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) {                            \
    ATOMIC_PRE(a, sizeof(T), mo, 2); T o = *a; *a = (T)(o | v); ATOMIC_POST(a, sizeof(T), mo, 2); return o; } \
  extern "C" T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) {                           \
    ATOMIC_PRE(a, sizeof(T), mo, 2); T o = *a; *a = (T)(o ^ v); ATOMIC_POST(a, sizeof(T), mo, 2); return o; } \
  extern "C" T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) {                          \
    ATOMIC_PRE(a, sizeof(T), mo, 2); T o = *a; *a = (T)~(o & v); ATOMIC_POST(a, sizeof(T), mo, 2); return o; } \
  extern "C" bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    ATOMIC_PRE(a, sizeof(T), mo, 2);                                                                \
    T o = *a; bool ok = o == *c;                                                                    \
    if (ok) *a = v; else *c = o;                                                                    \
    ATOMIC_POST(a, sizeof(T), ok ? mo : fmo, ok ? 2 : 0);                                           \
    return ok;                                                                                      \
  }                                                                                                 \
  extern "C" bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo);                            \
  }                                                                                                 \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {  \
    __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c;                        \
  }
DEF_ATOMIC(8, a8)
DEF_ATOMIC(16, a16)
DEF_ATOMIC(32, a32)
DEF_ATOMIC(64, a64)
DEF_ATOMIC(128, a128)
