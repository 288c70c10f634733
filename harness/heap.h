/* Count the heap blocks that linked code holds (malloc and friends are wrapped by the linker), and
 * optionally make an allocation fail.  Allocations made inside libc are not seen. */
#ifndef HEAP_H
#define HEAP_H
#include <stdlib.h>
#include <string.h>
#define HEAP_WRAPS_LIST malloc, calloc, realloc, free, strdup, strndup
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static long heap_live, heap_count; static long heap_fail_from = -1, heap_fail_to = -1;   /* numbers of the allocations that fail */
static int heap_on;
static int heap_no(void) { if (!heap_on) return 0; long c = heap_count++; return c >= heap_fail_from && c < heap_fail_to; }
void *__wrap_malloc(size_t n) { if (heap_no()) { errno = ENOMEM; return NULL; } void *p = __real_malloc(n); if (p) heap_live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (heap_no()) { errno = ENOMEM; return NULL; } void *p = __real_calloc(a, b); if (p) heap_live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (heap_no()) { errno = ENOMEM; return NULL; } void *p = __real_realloc(q, n); if (p && !q) heap_live++; return p; }
void __wrap_free(void *p) { if (p) heap_live--; __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
#endif
