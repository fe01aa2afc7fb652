// Live heap of this process: every allocation of the process (library, BLAS, harness) is counted.
#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <atomic>
#include "count.hpp"
#ifdef __SANITIZE_ADDRESS__
namespace cnt { long blocks() { return 0; } long bytes() { return 0; } }
#else
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace cnt {
static std::atomic<long> blocks_{0}, bytes_{0};
long blocks() { return blocks_; }
long bytes() { return bytes_; }
static void* in(void* p) { if (p) { blocks_.fetch_add(1, std::memory_order_relaxed); bytes_.fetch_add(malloc_usable_size(p), std::memory_order_relaxed); } return p; }
static void out(void* p) { if (p) { blocks_.fetch_sub(1, std::memory_order_relaxed); bytes_.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed); } }
}
extern "C" {
void* malloc(size_t n) { return cnt::in(__libc_malloc(n)); }
void free(void* p) { cnt::out(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return cnt::in(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) { cnt::out(p); void* q = __libc_realloc(p, n); if (!q && p && n) { cnt::in(p); return q; } return cnt::in(q); }
void* memalign(size_t a, size_t n) { return cnt::in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return cnt::in(__libc_memalign(a, n)); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = __libc_memalign(a, n); if (!p) return ENOMEM; *r = cnt::in(p); return 0; }
}
#endif
