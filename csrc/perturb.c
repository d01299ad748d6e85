/* LD_PRELOAD: small heap blocks are filled with a known byte on allocation and on free, so that reads of
   uninitialised or released memory change results instead of depending on chance. */
#include <stddef.h>
#include <string.h>
#include <malloc.h>
#include <errno.h>
extern void *__libc_malloc(size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static volatile int pat = -1;
#define LIM 131072
void pbt_set_pattern(int p) { pat = p; }
static inline void fill(void *p, size_t n) { if (pat >= 0 && p && n <= LIM) memset(p, pat, n); }
void *malloc(size_t n) { void *p = __libc_malloc(n); fill(p, n); return p; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); fill(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); fill(p, n); return p; }
int posix_memalign(void **r, size_t a, size_t n) { void *p = __libc_memalign(a, n); if (!p) return ENOMEM; fill(p, n); *r = p; return 0; }
void free(void *p) { if (p && pat >= 0) { size_t n = malloc_usable_size(p); if (n <= LIM) memset(p, pat ^ 0x55, n); } __libc_free(p); }
