/* The machine state the lifted stack switch routine works on. */
#ifndef MACHINE_H
#define MACHINE_H
#include "sym.h"

extern uint64_t reg[16];
extern int ZF, SF, CF, OF;
uint64_t ld (uint64_t a, int n);
void st (uint64_t a, uint64_t v, int n);
void do_call (uint64_t target);
void do_ret (unsigned extra);
void lifted (void);

#define MASK(n) ((n) == 8 ? ~0ull : (1ull << ((n) * 8 & 63)) - 1)
#define SX(v, n) ((uint64_t)((n) == 8 ? (int64_t)(v) : (int64_t)((v) << (64 - 8 * (n))) >> (64 - 8 * (n))))
#define R(i, n) (reg[i] & MASK (n))
static inline void W (int i, int n, uint64_t v)
{
    if (n >= 4) reg[i] = v & MASK (n);
    else reg[i] = (reg[i] & ~MASK (n)) | (v & MASK (n));
}
static inline uint64_t flags_ (uint64_t z, int n)
{
    z &= MASK (n);
    ZF = z == 0;
    SF = (int)(z >> (n * 8 - 1)) & 1;
    return z;
}
static inline uint64_t F_add (uint64_t x, uint64_t y, int n)
{
    uint64_t z = flags_ (x + y, n);
    CF = z < (x & MASK (n));
    OF = (int)((~(x ^ y) & (x ^ z)) >> (n * 8 - 1)) & 1;
    return z;
}
static inline uint64_t F_sub (uint64_t x, uint64_t y, int n)
{
    uint64_t z = flags_ (x - y, n);
    CF = (x & MASK (n)) < (y & MASK (n));
    OF = (int)(((x ^ y) & (x ^ z)) >> (n * 8 - 1)) & 1;
    return z;
}
static inline uint64_t F_and (uint64_t x, uint64_t y, int n) { CF = OF = 0; return flags_ (x & y, n); }
static inline uint64_t F_or (uint64_t x, uint64_t y, int n) { CF = OF = 0; return flags_ (x | y, n); }
static inline uint64_t F_xor (uint64_t x, uint64_t y, int n) { CF = OF = 0; return flags_ (x ^ y, n); }
#endif
