// LD_PRELOAD: counts the live heap (bytes and blocks) into a shared file, HEAP_FILE. No symbol of it is called by the program.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stddef.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
struct counts { long bytes, blocks, total; };
static struct counts first, *c = &first;
__attribute__((constructor)) static void init(void) {
    const char *p = getenv("HEAP_FILE");
    if (!p) return;
    int fd = open(p, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0 || ftruncate(fd, 4096)) return;
    struct counts *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED) return;
    *m = first; c = m;    // still one thread
}
static inline void *got(void *p) {
    if (p) { long n = (long)malloc_usable_size(p); __atomic_add_fetch(&c->bytes, n, __ATOMIC_RELAXED); __atomic_add_fetch(&c->blocks, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&c->total, 1, __ATOMIC_RELAXED); }
    return p;
}
static inline void gone(void *p) {
    if (p) { __atomic_sub_fetch(&c->bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED); __atomic_sub_fetch(&c->blocks, 1, __ATOMIC_RELAXED); }
}
void *malloc(size_t n) { return got(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return got(__libc_calloc(a, b)); }
void free(void *p) { gone(p); __libc_free(p); }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { free(p); return NULL; }
    long old = (long)malloc_usable_size(p);
    void *q = __libc_realloc(p, n);
    if (q) { __atomic_add_fetch(&c->bytes, (long)malloc_usable_size(q) - old, __ATOMIC_RELAXED); __atomic_add_fetch(&c->total, 1, __ATOMIC_RELAXED); }
    return q;
}
void *memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
    void *p = got(__libc_memalign(a, n));
    if (!p && n) return ENOMEM;
    *r = p; return 0;
}
