/* Interface between harnesses and the symbolic executor / replay runtime. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>

uint64_t sym_val (const char *name, int bits);
void sym_assume (int cond);
void sym_assert (int cond, const char *msg);
void sym_fail (const char *msg) __attribute__ ((noreturn));
void sym_end (void) __attribute__ ((noreturn));
uint64_t sym_pick (uint64_t v);
void sym_cover (const char *label);
void sym_note (const char *name, uint64_t v);
void *sym_malloc (size_t size);
void sym_free (void *p);
size_t sym_objsize (const void *p);
int sym_is_live (const void *p);
void sym_access (void *p, size_t n);       /* the whole range is accessible */
void *sym_mmap (size_t len);
void sym_munmap (void *p, size_t len);
void sym_protect (void *p, size_t len);
int sym_coro_new (void *(*fn) (void *), void *arg);
void sym_coro_switch (int id);
int sym_coro_current (void);
int sym_native (void);

#define ASSERT(c, m) sym_assert (!!(c), m)
#define ASSUME(c) sym_assume (!!(c))
#define COVER_IF(c, l) do { if (c) sym_cover (l); } while (0)

static inline uint64_t sym_u64 (const char *n) { return sym_val (n, 64); }
static inline uint32_t sym_u32 (const char *n) { return (uint32_t)sym_val (n, 32); }
static inline uint8_t sym_u8 (const char *n) { return (uint8_t)sym_val (n, 8); }
static inline int sym_bool (const char *n) { return (int)sym_val (n, 1); }
/* a symbolic value in [lo, hi] */
static inline int sym_range (const char *n, int lo, int hi)
{
    int v = (int)sym_val (n, 32);
    ASSUME (v >= lo && v <= hi);
    return v;
}
/* one of 0 .. n-1, every value followed separately */
static inline int sym_choice (const char *n, int k)
{
    unsigned v;
    if (k <= 1) return 0;
    v = (unsigned)sym_val (n, 8);
    ASSUME (v < (unsigned)k);
    return (int)sym_pick (v);
}
static inline int sym_decide (const char *n) { return (int)sym_pick (sym_val (n, 1)); }
/* a value in [lo, hi], every value followed separately */
static inline int sym_pickr (const char *n, int lo, int hi)
{
    return lo >= hi ? lo : (int)sym_pick ((uint64_t)sym_range (n, lo, hi));
}

void harness (void);
#endif
