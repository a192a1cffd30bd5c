/* Symbolic-input layer shared by every harness.
 *
 * Under CBMC (__CPROVER__) every sym_*() returns an unconstrained value and
 * records it in the trace; compiled natively (REPLAY) the same calls return,
 * in order, the values of the solver's assignment, so a counterexample runs
 * against the real code with the real allocator, glib and ASan.  */
#ifndef SYM_H
#define SYM_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#ifdef MSYM
uint64_t msym_var(unsigned w);
void msym_assume(long c);
void msym_check(long c, const char *msg);
void msym_witness(const char *msg);
void msym_end(void) __attribute__((noreturn));
void msym_print(const char *s, long v);
void msym_incomplete(const char *why);
int msym_is_symbolic(uint64_t v);
uint64_t msym_concretize(uint64_t v);
uint64_t msym_objsize(const void *p);
static inline uint8_t  sym_u8 (void) { return msym_var(8); }
static inline uint16_t sym_u16(void) { return msym_var(16); }
static inline uint32_t sym_u32(void) { return msym_var(32); }
static inline uint64_t sym_u64(void) { return msym_var(64); }
#define ASSUME(c)        msym_assume(!!(c))
#define CHECK(c, msg)    msym_check(!!(c), msg)
#define WITNESS(msg)     msym_witness(msg)
#define WITNESS_IF(c,msg) do { if (c) msym_witness(msg); } while (0)
#define KNOWN_LIMIT(c)   msym_assume(!!(c))
#define sym_end()        msym_end()
#define sym_concrete(v)  msym_concretize(v)
#elif defined(__CPROVER__)
uint8_t  nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);
static inline uint8_t  sym_u8 (void) { uint8_t  symv = nondet_u8(); __CPROVER_input("symv", symv); return symv; }
static inline uint16_t sym_u16(void) { uint16_t symv = nondet_u16(); __CPROVER_input("symv", symv); return symv; }
static inline uint32_t sym_u32(void) { uint32_t symv = nondet_u32(); __CPROVER_input("symv", symv); return symv; }
static inline uint64_t sym_u64(void) { uint64_t symv = nondet_u64(); __CPROVER_input("symv", symv); return symv; }
#define ASSUME(c)        __CPROVER_assume(c)
#define CHECK(c, msg)    __CPROVER_assert((c), "CHECK " msg)
/* must be reachable: the runner demands that this assertion FAILS */
#define WITNESS(msg)     __CPROVER_assert(0, "WITNESS " msg)
#define WITNESS_IF(c,msg) __CPROVER_assert(!(c), "WITNESS " msg)
#define KNOWN_LIMIT(c)   __CPROVER_assume(c)
#define sym_end()        __CPROVER_assume(0)
#define sym_concrete(v)  (v)
#else
#include <unistd.h>
static FILE *sym_fp;
static int sym_count;
static inline uint64_t sym_next(void)
{
    unsigned long long v = 0;
    if (!sym_fp) {
        const char *f = getenv("SYM_REPLAY");
        sym_fp = f ? fopen(f, "r") : NULL;
        if (!sym_fp) { fprintf(stderr, "REPLAY-ERROR no SYM_REPLAY\n"); _exit(78); }
    }
    if (fscanf(sym_fp, "%llu", &v) != 1) v = 0;  /* past the failing step: unconstrained */
    sym_count++;
    return v;
}
static inline uint8_t  sym_u8 (void) { return sym_next(); }
static inline uint16_t sym_u16(void) { return sym_next(); }
static inline uint32_t sym_u32(void) { return sym_next(); }
static inline uint64_t sym_u64(void) { return sym_next(); }
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "REPLAY-ASSUME-FALSE %s:%d %s\n", __FILE__, __LINE__, #c); fflush(stderr); _exit(77); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { fprintf(stderr, "REPLAY-VIOLATION %s (%s:%d)\n", msg, __FILE__, __LINE__); fflush(stderr); _exit(42); } } while (0)
#define WITNESS(msg)      ((void)0)
#define WITNESS_IF(c,msg) ((void)(c))
#define KNOWN_LIMIT(c)    ASSUME(c)
#define sym_end()         do { fprintf(stderr, "REPLAY-END\n"); fflush(stderr); _exit(0); } while (0)
#define sym_concrete(v)   (v)
#endif

/* Allocation with a symbolic size makes CBMC fall back to unbounded arrays.
 * Harnesses that define SYM_ALLOC get every allocation of up to SYM_ALLOC
 * bytes split into one exactly-sized object per size (model/alloc.c).  */
#if defined(__CPROVER__) && (defined(SYM_ALLOC) || defined(SYM_ALLOC_END))
void *model_malloc(size_t n);
void *model_calloc(size_t n, size_t m);
void *model_realloc(void *p, size_t n);
void model_free(void *p);
#define malloc(n)     model_malloc(n)
#define calloc(n, m)  model_calloc(n, m)
#define realloc(p, n) model_realloc(p, n)
#define free(p)       model_free(p)
#endif

/* memmove/memcpy of symbolic length: element-wise loops (unit = SYM_MOVE_UNIT)
 * instead of CBMC's copy through an array of symbolic size.  */
#if defined(__CPROVER__) && defined(SYM_MOVE_UNIT)
typedef SYM_MOVE_UNIT sym_unit;
static void *sym_memmove(void *d, const void *s, size_t n)
{
    __CPROVER_assert(n % sizeof(sym_unit) == 0, "CHECK copy length is a multiple of the copied element");
    sym_unit *a = d; const sym_unit *b = s; size_t m = n / sizeof(sym_unit);
    if (__CPROVER_same_object(d, s) && a > b) { for (size_t i = m; i-- > 0;) a[i] = b[i]; }
    else for (size_t i = 0; i < m; i++) a[i] = b[i];
    return d;
}
#define memmove(d, s, n) sym_memmove((d), (s), (n))
#ifdef SYM_MOVE_CPY
#define memcpy(d, s, n) sym_memmove((d), (s), (n))
#endif
#endif

static inline unsigned sym_range(unsigned lo, unsigned hi)
{ unsigned r = sym_u32(); ASSUME(r >= lo && r <= hi); return r; }
/* a choice: explored value by value */
static inline bool sym_bool(void) { uint8_t b = sym_u8() & 1; return sym_concrete(b); }
static inline unsigned sym_choose(unsigned n) { uint8_t b = sym_u8(); ASSUME(b < n); return sym_concrete(b); }
/* heap string of exactly LEN (symbolic content, no NUL inside) */
static inline void sym_fill(void *p, size_t n)
{ uint8_t *q = p; for (size_t i = 0; i < n; i++) q[i] = sym_u8(); }
#endif
