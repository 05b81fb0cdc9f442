/* C31: the stack switch routine, lifted from its machine code, for every
 * machine state it may be called in and every function obeying the calling
 * convention.  Natively the real routine runs. */
#include "env.h"
#include "machine.h"
#include <string.h>

#if WORD == 8
enum { NSAVED = 6, NLOST = 9 };
static const int saved[] = { 3, 5, 12, 13, 14, 15 }, lost[] = { 0, 1, 2, 6, 7, 8, 9, 10, 11 };
#else
enum { NSAVED = 4, NLOST = 3 };
static const int saved[] = { 3, 5, 6, 7 }, lost[] = { 0, 1, 2 };
#endif
#define SP 4
#define NPOOL 6
#define NEAR 4096              /* how far below a stack pointer we look */

uint64_t reg[16];
int ZF, SF, CF, OF;
static uint64_t first[16], after[16], pool[NPOOL], obj, top, sp0, entry, back;
static int npool, calls, returned;

/* memory: the latest stores; what is not among them is as it was */
#define NMEM 64
static struct { uint64_t a, v; int n, live; } mem[NMEM];
static int nmem;

static void put (uint64_t a, uint64_t v, int n)
{
    if (nmem >= NMEM) sym_fail ("model: memory");
    mem[nmem].a = a;
    mem[nmem].v = v & MASK (n);
    mem[nmem].n = n;
    mem[nmem++].live = 1;
}
static int on_new (uint64_t a, int n) { return a >= top - NEAR && a + n <= top && a < a + n; }
static int on_old (uint64_t a, int n) { return a >= sp0 - NEAR && a + n <= sp0 && a < a + n; }

uint64_t ld (uint64_t a, int n)
{
    a &= MASK (WORD);
    for (int i = nmem; i-- > 0;) {
        if (!mem[i].live) continue;
        if (a >= mem[i].a && a - mem[i].a + n <= (uint64_t)mem[i].n) return (mem[i].v >> (8 * (a - mem[i].a))) & MASK (n);
        if (!(a + n <= mem[i].a || mem[i].a + mem[i].n <= a)) sym_fail ("model: overlapping access");
    }
    if (npool >= NPOOL) sym_fail ("model: unknown memory");
    put (a, pool[npool], n);
    return pool[npool++] & MASK (n);
}
void st (uint64_t a, uint64_t v, int n)
{
    a &= MASK (WORD);
    /* on the new stack below its top, or below the caller's frame */
    ASSERT (on_new (a, n) || on_old (a, n), "memory outside the new stack is written");
    put (a, v, n);
}
static void called (uint64_t sp, uint64_t arg)
{
    calls++;
    ASSERT ((sp & 15) == 0, "the stack is not aligned at the call");
    ASSERT (sp <= top && sp > top - NEAR, "the function does not run on the new stack");
    ASSERT (arg == obj, "the function does not get the object");
}
void do_call (uint64_t target)
{
    uint64_t sp = reg[SP];
    uint64_t keep = WORD == 8 ? sp : sp + 4; /* an argument on the stack is the function's */
    ASSERT (target == entry, "another function is called");
    called (sp, WORD == 8 ? reg[7] : ld (sp, 4));
    st (sp - WORD, 0, WORD);
    /* what the function may change */
    for (int i = 0; i < nmem; i++) {
        if (!mem[i].live) continue;
        if (mem[i].a >= keep && mem[i].a + mem[i].n <= top && on_new (mem[i].a, mem[i].n)) continue;
        if (mem[i].a >= sp0 - NEAR && mem[i].a < sp0 + 4 * WORD) continue;
        mem[i].live = 0;
    }
    for (int i = 0; i < NLOST; i++) reg[lost[i]] = after[lost[i]];
    ZF = SF = CF = OF = 0;
}
static void ended (uint64_t sp, const uint64_t *r)
{
    returned = 1;
    ASSERT (calls == 1, "the function is not called exactly once");
    ASSERT (sp == ((sp0 + WORD) & MASK (WORD)), "the caller's stack pointer is not restored");
    for (int i = 0; i < NSAVED; i++) ASSERT ((r[saved[i]] & MASK (WORD)) == first[saved[i]], "a preserved register is changed");
}
void do_ret (unsigned extra)
{
    uint64_t to = ld (reg[SP], WORD);
    W (SP, WORD, reg[SP] + WORD + extra);
    ended (reg[SP], reg);
    ASSERT (to == back, "returns to another place");
}

#ifdef NATIVE
/* native/call64.c or the program built from native/call32.c */
int real_switch (const uint64_t *in, const uint64_t *after, uint64_t fill, uint64_t *out);
#endif

void harness (void)
{
    for (int i = 0; i < 16; i++) first[i] = i < (WORD == 8 ? 16 : 8) ? sym_u64 ("reg") & MASK (WORD) : 0;
    for (int i = 0; i < 16; i++) after[i] = i < (WORD == 8 ? 16 : 8) ? sym_u64 ("left") & MASK (WORD) : 0;
    for (int i = 0; i < NPOOL; i++) pool[i] = sym_u64 ("memory");
    obj = sym_u64 ("object") & MASK (WORD);
    top = sym_u64 ("top") & MASK (WORD);
    sp0 = sym_u64 ("sp") & MASK (WORD);
    entry = sym_u64 ("entry") & MASK (WORD);
    back = sym_u64 ("back") & MASK (WORD);
#ifdef NATIVE
    {
        uint64_t out[24], in[16];
        memcpy (in, first, sizeof (in));
        memset (out, 0, sizeof (out));
        if (real_switch (in, after, pool[0], out) != 0) sym_fail ("the caller is not resumed");
        obj = out[20];
        top = out[21];
        sp0 = out[22];
        for (uint64_t i = 0; i < out[16]; i++) called (out[17], out[18]);
        ended (out[SP], out);
        ASSERT (!out[19], "memory outside the new stack is written");
    }
#else
    /* the calling convention, and three separate regions below 2^(8 * WORD - 1) */
    ASSUME (sp0 > 2 * NEAR && top > 2 * NEAR && obj > 2 * NEAR);
    ASSUME (sp0 < (1ull << (8 * WORD - 1)) && top < (1ull << (8 * WORD - 1)) && obj < (1ull << (8 * WORD - 1)));
    ASSUME ((top & 15) == 0 && (obj & (WORD - 1)) == 0);
    ASSUME ((sp0 & 15) == (WORD == 8 ? 8 : 12));
    ASSUME (sp0 + 64 <= top - NEAR || top <= sp0 - NEAR);
    ASSUME (obj + 64 <= top - NEAR || top <= obj);
    ASSUME (obj + 64 <= sp0 - NEAR || sp0 + 64 <= obj);
    for (int i = 0; i < 16; i++) reg[i] = first[i];
    reg[SP] = sp0;
    ZF = SF = CF = OF = 0;
    put (obj, top, WORD);
    put (sp0, back, WORD);
    if (WORD == 8) { reg[7] = obj; reg[6] = entry; }
    else { put (sp0 + 4, obj, 4); put (sp0 + 8, entry, 4); }
    lifted ();
    ASSERT (returned, "the caller is not resumed");
#endif
    sym_cover ("returned");
}
