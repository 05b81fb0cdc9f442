/* C30: the stack of a created task. */
#include "tasks.h"
#include <limits.h>

#ifndef FAULTS
#define FAULTS 0
#endif
#define LIMIT 0xc0000000ull

static int64_t want;
static int expect_abort;

static HevTask *make (void)
{
    int size = (int)sym_u32 ("size");
    int b = env_nblocks, m = env_nmaps, f = env_failed;
    HevTask *t;
    want = size < 0 ? 65536 : size;
    t = hev_task_new (size);
    if (!t) {
        ASSERT (env_failed > f || want > INT_MAX - 65536, "no task though nothing failed");
        ASSERT (env_nblocks == b && env_nmaps == m, "a failed creation left something behind");
        sym_cover ("creation failed");
    }
    return t;
}
void env_hook_abort (void)
{
    if (!expect_abort) sym_fail ("abort");
    sym_cover ("overflow detected");
}

#ifndef HEAP
void harness (void)
{
    HevTask *t;
    char *top;
    uint64_t room;
    env_mmap_limit = LIMIT;
    env_fail_malloc = env_fail_mmap = 0;
    sys_init ();
    env_fail_malloc = env_fail_mmap = FAULTS;
    t = make ();
    env_fail_malloc = env_fail_mmap = 0;
    if (!t) sym_end ();
    /* the stack switch reads the top of the stack from the start of the object */
    top = *(char **)t;
    ASSERT (((uintptr_t)top & 15) == 0, "the top of the stack is not aligned");
    ASSERT (top >= env_map.base && (uint64_t)(top - env_map.base) <= env_map.len && (uint64_t)(top - env_map.base) <= env_map.end, "the stack lies outside its mapping");
    ASSERT (env_map.guard >= 4096, "no guard area");
    room = (uint64_t)(top - env_map.base) - env_map.guard;
    ASSERT ((uint64_t)(top - env_map.base) >= env_map.guard && room >= (uint64_t)want, "the stack is smaller than requested");
    sym_access (top - want, want);
    sym_cover ("written");
    hev_task_unref (t);
    ASSERT (env_nmaps == 0, "the stack was not released");
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0, "memory left");
    sym_cover ("released");
}
#else
void harness (void)
{
    HevTask *t;
    char *top, *base = NULL, *block = NULL;
    uint64_t len = 0;
    env_malloc_limit = LIMIT;
    sys_init ();
    env_fail_malloc = FAULTS;
    t = make ();
    env_fail_malloc = 0;
    if (!t) sym_end ();
    top = *(char **)t;
    for (int i = 0; i < ENV_NBLOCK; i++)
        if (env_block[i].base && env_block[i].base != (char *)t && top > (char *)env_block[i].base && top <= (char *)env_block[i].base + env_block[i].len) { block = env_block[i].base; len = env_block[i].len; }
    ASSERT (block, "the stack is not a block of memory");
    /* the guard words follow the allocator's or the stack's own data */
    for (int i = 0; i < 64 && (uint64_t)i + 4 <= len && !base; i += 4)
        if (*(uint32_t *)(block + i) == 0xdeadbeefu) base = block + i;
    ASSERT (base, "guard word not marked");
    ASSERT (((uintptr_t)top & 15) == 0, "the top of the stack is not aligned");
    ASSERT (top <= block + len, "the stack ends outside its block");
    for (int i = 0; i < GUARD / 4; i += GUARD > 4 ? GUARD / 8 : 1) ASSERT (((uint32_t *)base)[i] == 0xdeadbeefu, "guard word not marked");
    ASSERT (((uint32_t *)base)[GUARD / 4 - 1] == 0xdeadbeefu, "guard word not marked");
    ASSERT (top - base >= want + GUARD, "the stack is smaller than requested");
    sym_access (top - want, want);
    sym_cover ("written");
    if (sym_decide ("overflow")) {
        int at = sym_choice ("overflow_at", GUARD > 4 ? 5 : 1) * (GUARD / 4 - 1) / 4;
        ((uint32_t *)base)[at] = 7;
        expect_abort = 1;
    }
    hev_task_unref (t);
    ASSERT (!expect_abort, "an overflow went unnoticed");
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0, "memory left");
    sym_cover ("released");
}
#endif
