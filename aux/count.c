/* Counts live heap blocks of the process (preloaded). */
#include <stddef.h>
#include <errno.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static long live;
long heap_live(void) { return __atomic_load_n(&live, __ATOMIC_RELAXED); }
static void *got(void *p) { if (p) __atomic_fetch_add(&live, 1, __ATOMIC_RELAXED); return p; }
void *malloc(size_t n) { return got(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return got(__libc_calloc(n, m)); }
void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = got(__libc_memalign(a, n)); if (!p) return ENOMEM; *r = p; return 0; }
void free(void *p) { if (p) { __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED); __libc_free(p); } }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    void *q = __libc_realloc(p, n);
    if (!q && n == 0) __atomic_fetch_sub(&live, 1, __ATOMIC_RELAXED);
    return q;
}
