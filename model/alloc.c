/* Allocation models for symbolic sizes (see sym.h). */
#include <stdlib.h>
#include <string.h>
#ifdef SYM_ALLOC_END
/* One object of SYM_ALLOC_END bytes per allocation; the block handed out is its
 * last n bytes, so every overrun leaves the object and is reported.  */
void *model_malloc(size_t n)
{
    __CPROVER_assert(n <= SYM_ALLOC_END, "CHECK allocation within the modelled size");
    __CPROVER_assume(n <= SYM_ALLOC_END);
    char *b = malloc(SYM_ALLOC_END);
    return b + (SYM_ALLOC_END - n);
}
void *model_calloc(size_t n, size_t m)
{
    size_t t = n * m;
    __CPROVER_assert(t <= SYM_ALLOC_END, "CHECK allocation within the modelled size");
    __CPROVER_assume(t <= SYM_ALLOC_END);
    char *b = calloc(SYM_ALLOC_END, 1);
    return b + (SYM_ALLOC_END - t);
}
void *model_realloc(void *p, size_t n)
{
    char *q = model_malloc(n);
    if (p) {
        size_t o = SYM_ALLOC_END - __CPROVER_POINTER_OFFSET(p);
        for (size_t i = 0; i < SYM_ALLOC_END; i++) if (i < o && i < n) q[i] = ((char *)p)[i];
    }
    return q;
}
void model_free(void *p) { }
#elif defined(SYM_ALLOC)
/* one exactly-sized object per size up to SYM_ALLOC */
#define A(k) case k: if (k <= SYM_ALLOC) return malloc(k); break;
#define Z(k) case k: if (k <= SYM_ALLOC) return calloc(k, 1); break;
#define X8(M,b) M(b) M(b+1) M(b+2) M(b+3) M(b+4) M(b+5) M(b+6) M(b+7)
#define ALL(M) X8(M,0) X8(M,8) X8(M,16) X8(M,24) X8(M,32) X8(M,40) X8(M,48) X8(M,56)
void *model_malloc(size_t n)
{
    switch (n) { ALL(A) }
#ifdef SYM_ALLOC_MAX   /* no symbolic size beyond SYM_ALLOC is possible */
    __CPROVER_assert(n <= SYM_ALLOC_MAX, "CHECK allocation within the modelled size");
    return malloc(SYM_ALLOC_MAX);
#else
    return malloc(n);
#endif
}
void *model_calloc(size_t n, size_t m)
{
    size_t t = n * m;
    switch (t) { ALL(Z) }
#ifdef SYM_ALLOC_MAX
    __CPROVER_assert(t <= SYM_ALLOC_MAX, "CHECK allocation within the modelled size");
    return calloc(SYM_ALLOC_MAX, 1);
#else
    return calloc(n, m);
#endif
}
void *model_realloc(void *p, size_t n)
{
    char *q = model_malloc(n);
    if (p) {
        size_t o = __CPROVER_OBJECT_SIZE(p);
        memcpy(q, p, o < n ? o : n);
        free(p);
    }
    return q;
}
void model_free(void *p) { free(p); }
#endif
