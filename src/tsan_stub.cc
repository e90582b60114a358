// No-op instrumentation runtime for the build-time code generator.
#include <cstddef>
#define ATOMIC_PRE(a, n, mo, k)
#define ATOMIC_POST(a, n, mo, k)
#include "atomics.inc"
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void*) {} void __tsan_write##n(void*) {} \
  void __tsan_unaligned_read##n(void*) {} void __tsan_unaligned_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) {}
void __tsan_write_range(void*, size_t) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}
#include <cstddef>
namespace jumanpp { namespace util { namespace memory {
size_t simulatedPageSize(size_t requested) { return requested; }
}}}
