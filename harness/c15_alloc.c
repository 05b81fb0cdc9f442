/* C15 / C16: histories of allocate, resize and free on the caching allocator. */
#include "env.h"
#include <string.h>
#include "mem/api/hev-memory-allocator-api.h"
#include "mem/base/hev-memory-allocator.h"
#ifndef SIMPLE
#include "mem/slice/hev-memory-allocator-slice.h"
#endif

#ifndef OPS
#define OPS 5
#endif
#ifndef NB
#define NB 3
#endif
#ifndef FAULTS
#define FAULTS 0
#endif

#define ALIGN CONFIG_MEMALLOC_SLICE_ALIGN
#define TOP CONFIG_MEMALLOC_SLICE_MAX_SIZE
#define CACHE CONFIG_MEMALLOC_SLICE_MAX_COUNT
#define CLASS(n) (((n) + ALIGN - 1) / ALIGN)

static unsigned char *blk[NB];
static size_t len[NB];
static unsigned char tag[NB];
static int base, live, refills;
#define NFREED 16
static struct { unsigned char *p; size_t cls; } freed[NFREED];
static int nfreed;

static size_t some_size (void)
{
#ifdef WIDE
    static const size_t s[] = { 1, ALIGN, ALIGN + 1, 2 * ALIGN - 1, 4 * ALIGN, TOP - 1, TOP, TOP + 1 };
    return s[sym_choice ("size", 8)];
#else
    static const size_t s[] = { 24, ALIGN + 1, TOP + 1, 2 * ALIGN + 1 };
#ifdef NORESIZE
    int k = sym_choice ("size", 3);
    return s[k == 2 ? 3 : k];
#else
    return s[sym_choice ("size", 3)];
#endif
#endif
}
static int some_block (void)
{
    int k = sym_choice ("which", live), i;
    for (i = 0; i < NB; i++) if (blk[i] && k-- == 0) break;
    return i;
}
static void check (int i)
{
    for (size_t k = 0; k < len[i]; k += (k < 8 || k + 8 >= len[i] || len[i] <= 2 * ALIGN) ? 1 : len[i] - 8 - k)
        ASSERT (blk[i][k] == tag[i], "a block's contents changed");
}
static void check_all (void)
{
    for (int i = 0; i < NB; i++) if (blk[i]) check (i);
#ifndef SIMPLE
    /* underlying blocks beyond those in use are cached ones */
    ASSERT (env_nblocks - base - live <= CACHE, "more blocks cached than configured");
#else
    ASSERT (env_nblocks - base == live, "blocks are kept");
#endif
    ASSERT (env_nblocks - base >= live, "a block in use was returned to the system");
}
static void own (int i, unsigned char *p, size_t n)
{
    static unsigned char next = 1;
    blk[i] = p;
    len[i] = n;
    tag[i] = next++;
    sym_access (p, n);
    memset (p, tag[i], n);
}
static void forget (unsigned char *p)
{
    for (int k = 0; k < nfreed; k++) if (freed[k].p == p) { freed[k] = freed[--nfreed]; return; }
}
static void got (unsigned char *p, size_t n, int before)
{
    /* the library asked the system for nothing: it is a cached block */
    if (env_malloc_calls == before) {
        int ok = 0;
        for (int k = 0; k < nfreed; k++) if (freed[k].p == p && freed[k].cls == CLASS (n)) ok = 1;
        ASSERT (ok, "a cached block was used for another size class");
        refills++;
        sym_cover ("cached block used");
    }
    forget (p);
}
static void note_freed (unsigned char *p, size_t n)
{
    forget (p);
    if (nfreed < NFREED) {
        freed[nfreed].p = p;
        freed[nfreed].cls = CLASS (n);
        nfreed++;
    }
}
static void zero (unsigned char *p, size_t n)
{
    for (size_t k = 0; k < n; k += (k < 8 || k + 8 >= n || n <= 2 * ALIGN) ? 1 : n - 8 - k)
        ASSERT (p[k] == 0, "a zeroing allocation returned other bytes");
}

void harness (void)
{
    HevMemoryAllocator *a, *old;
    int failed, calls;
#ifdef SIMPLE
    a = hev_memory_allocator_default ();
    ASSERT (a != NULL, "no default allocator");
    old = NULL;
#else
    a = hev_memory_allocator_slice_new ();
    ASSERT (a != NULL, "the allocator was not created without a fault");
    old = hev_memory_allocator_set_default (a);
    ASSERT (old == NULL, "another default allocator");
#endif
    base = env_nblocks;
    env_fail_malloc = FAULTS;
    for (int k = 0; k < OPS; k++) {
        int i, op;
        size_t n;
        unsigned char *p;
        if (live == 0) op = 0;
        else {
            op = sym_choice ("op", live < NB ? 3 : 2);
            op = op == 2 ? 0 : op + 1;
#ifdef NORESIZE
            if (op == 1) sym_end ();
#endif
        }
        if (op == 0) {
            /* the first free place */
            int kind = 0;
            for (i = 0; blk[i]; i++);
            n = some_size ();
#ifdef ZERO
            kind = sym_choice ("kind", 3);
#endif
            failed = env_failed;
            calls = env_malloc_calls;
            p = kind == 0 ? hev_malloc (n) : kind == 1 ? hev_malloc0 (n) : n % 2 ? hev_calloc (1, n) : hev_calloc (n / 2, 2);
            if (!p) {
                ASSERT (env_failed > failed, "allocation failed without a fault");
                sym_cover ("allocation failed");
            } else {
                got (p, n, calls);
                if (kind) zero (p, n);
                live++;
                own (i, p, n);
            }
        } else if (op == 1) {
            i = some_block ();
            n = some_size ();
            failed = env_failed;
            p = hev_realloc (blk[i], n);
            if (!p) {
                ASSERT (env_failed > failed, "resizing failed without a fault");
                sym_cover ("resizing failed");
            } else {
                size_t m = n < len[i] ? n : len[i];
                sym_access (p, n);
                for (size_t j = 0; j < m; j += (j < 8 || j + 8 >= m || m <= 2 * ALIGN) ? 1 : m - 8 - j)
                    ASSERT (p[j] == tag[i], "resizing lost contents");
                sym_cover ("resized");
                own (i, p, n);
                forget (p);
            }
        } else {
            i = some_block ();
            check (i);
            memset (blk[i], 0xee, len[i]);
#ifdef ZERO
            if (sym_decide ("by_resize")) {
                p = hev_realloc (blk[i], 0);
#ifndef SIMPLE
                ASSERT (!p, "resizing to zero returned a block");
#else
                if (p) hev_free (p);
#endif
            } else
#endif
                hev_free (blk[i]);
            live--;
            note_freed (blk[i], len[i]);
            blk[i] = NULL;
            sym_cover ("freed");
        }
        check_all ();
    }
#ifndef SIMPLE
    if (env_nblocks - base - live == CACHE) sym_cover ("cache full");
#endif
    /* release the rest, then the allocator */
    env_fail_malloc = 0;
    for (int i = 0; i < NB; i++)
        if (blk[i]) {
            check (i);
            hev_free (blk[i]);
            live--;
            blk[i] = NULL;
            check_all ();
        }
#ifndef SIMPLE
    hev_memory_allocator_set_default (NULL);
#endif
    hev_memory_allocator_unref (a);
    ASSERT (env_nblocks == 0, "memory was not returned to the system");
    sym_cover ("released");
}
