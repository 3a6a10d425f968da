// malloc and friends that leave a chosen pattern in every block they hand out
// (and in every block given back), for the checks that compare whole runs.
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_realloc(void *, size_t); void *__libc_calloc(size_t, size_t); void *__libc_memalign(size_t, size_t);
int vf_fill = -1;            // byte, -1: leave alone, 256+k: a stream of odd doubles
static void fill(void *p, size_t n) {
    if (vf_fill < 0 || !p) return;
    if (vf_fill < 256) { memset(p, vf_fill, n); return; }
    uint64_t x = 0x9E3779B97F4A7C15ull * (vf_fill + 1); unsigned char *b = (unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; } b[i] = i % 8 == 7 ? 0x3f : i % 8 == 6 ? 0xe0 | (x >> 60) : (unsigned char)(x >> (i % 8 * 8)); }
}
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) fill(p, malloc_usable_size(p)); return p; }
void free(void *p) { if (p) fill(p, malloc_usable_size(p)); __libc_free(p); }
void *calloc(size_t a, size_t b) { return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) {
    size_t old = p ? malloc_usable_size(p) : 0; void *q = __libc_realloc(p, n);
    if (q) { size_t now = malloc_usable_size(q); if (now > old) fill((unsigned char *)q + old, now - old); }
    return q;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) fill(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
