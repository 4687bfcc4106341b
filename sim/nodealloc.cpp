// Linked into every node with --wrap: what the library asks of the C allocator goes through the simulator like operator new.
#include <stddef.h>
#include <errno.h>
extern "C" {
void *sim_malloc(size_t n, size_t align, int zero);
void *sim_realloc(void *p, size_t n);
void sim_free(void *p);
void *__wrap_malloc(size_t n) { return sim_malloc(n, 0, 0); }
void *__wrap_calloc(size_t k, size_t n) { return n && k > (size_t)-1 / n ? nullptr : sim_malloc(k * n, 0, 1); }
void *__wrap_realloc(void *p, size_t n) { return sim_realloc(p, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return sim_malloc(n, a, 0); }
void *__wrap_memalign(size_t a, size_t n) { return sim_malloc(n, a, 0); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
    void *r = sim_malloc(n, a, 0);
    if (!r) return ENOMEM;
    *p = r;
    return 0;
}
void __wrap_free(void *p) { sim_free(p); }
}
