/* C17: no requested size gives a smaller object. */
#include "tasks.h"
#include <sys/uio.h>
#include "mem/api/hev-memory-allocator-api.h"
#include "mem/base/hev-memory-allocator.h"
#include "mem/slice/hev-memory-allocator-slice.h"
#include "hev-task-channel.h"
#include "hev-circular-buffer.h"

static void slice_init (void)
{
    HevMemoryAllocator *a = hev_memory_allocator_slice_new ();
    ASSERT (a != NULL, "the allocator was not created without a fault");
    hev_memory_allocator_set_default (a);
}
static void warm (void)
{
    /* some blocks in the cache */
    void *a, *b, *c;
    a = hev_malloc (10);
    b = hev_malloc (100);
    c = hev_malloc (CONFIG_MEMALLOC_SLICE_MAX_SIZE);
    ASSERT (a && b && c, "allocation failed without a fault");
    hev_free (a);
    hev_free (b);
    hev_free (c);
}
/* every size, with an empty and with a filled cache; the system grants up to 2^30 bytes */
void harness_alloc (void)
{
    uint64_t n;
    void *p;
    if (sym_decide ("slice")) {
        slice_init ();
        if (sym_decide ("warm")) warm ();
    }
    n = sym_u64 ("size");
    p = hev_malloc (n);
    if (p) {
        sym_cover ("allocated");
        sym_access (p, n);
    } else
        sym_cover ("refused");
}
void harness_realloc (void)
{
    uint64_t n;
    char *p, *q;
    if (sym_decide ("slice")) {
        slice_init ();
        if (sym_decide ("warm")) warm ();
    }
    p = hev_malloc (20);
    ASSERT (p != NULL, "allocation failed without a fault");
    for (int i = 0; i < 20; i++) p[i] = (char)(i + 1);
    n = sym_u64 ("size");
    ASSUME (n > 20);
    q = hev_realloc (p, n);
    if (q) {
        sym_cover ("resized");
        sym_access (q, n);
        for (int i = 0; i < 20; i++) ASSERT (q[i] == i + 1, "resizing lost contents");
    } else {
        sym_cover ("refused");
        for (int i = 0; i < 20; i++) ASSERT (p[i] == i + 1, "a refused resizing changed the block");
        hev_free (p);
    }
}
/* every element count, element sizes around powers of two */
void harness_calloc (void)
{
    static const uint64_t k[] = { 1, 2, 3, 7, 8, 64, 65, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 33, 1ull << 58, 0x5555555555555556, 1ull << 63, ~0ull };
    uint64_t n, s, t;
    void *p;
    if (sym_decide ("slice")) {
        slice_init ();
        if (sym_decide ("warm")) warm ();
    }
    env_malloc_limit = 400;
    s = k[sym_choice ("elem", 15)];
    n = sym_u64 ("count");
    p = sym_decide ("swap") ? hev_calloc (s, n) : hev_calloc (n, s);
    if (p) {
        sym_cover ("allocated");
        ASSERT (n <= (uint64_t)-1 / s, "an array larger than any object was granted");
        t = n * s;
        sym_access (p, t);
    } else
        sym_cover ("refused");
}
/* every message size, buffer counts around zero and the places where 32-bit sums wrap */
void harness_channel (void)
{
    static const uint32_t at[] = { 0, 0x0ffffffe, 0x10000000, 0x1ffffffe, 0x3ffffffe, 0x7ffffffe, 0xfffffffc };
    HevTaskChannel *c1 = NULL, *c2 = NULL;
    uint32_t size, n;
    uint64_t have = 0;
    int r;
    env_malloc_limit = 1ull << 12;
    n = at[sym_choice ("count", 7)];
    n += (uint32_t)sym_choice ("more", 4);
    size = sym_u32 ("size");
    r = hev_task_channel_new_with_buffers (&c1, &c2, size, n);
    if (r == 0) {
        sym_cover ("created");
        for (int i = 0; i < ENV_NBLOCK; i++) have += env_block[i].len;
        ASSERT (have >= 2ull * size * n, "the channel has less room than asked for");
        hev_task_channel_destroy (c1);
        hev_task_channel_destroy (c2);
    } else
        sym_cover ("refused");
}
/* capacities from 4 GiB on: only what the buffer says about itself, the room itself is not touched */
void harness_circular_huge (void)
{
    HevCircularBuffer *b;
    struct iovec v[2];
    uint64_t n, have = 0, tot = 0;
    int k;
    env_malloc_limit = 4096;
    env_malloc_huge = 1ull << 32;
    n = sym_u64 ("capacity");
    ASSUME (n >= 1ull << 32);
    b = hev_circular_buffer_new (n);
    if (!b) {
        sym_cover ("refused");
        return;
    }
    sym_cover ("created");
    for (int i = 0; i < ENV_NBLOCK; i++) if (env_block[i].len > have) have = env_block[i].len;
    ASSERT (have >= n, "the buffer has less room than asked for");
    ASSERT (hev_circular_buffer_get_max_size (b) == n, "wrong capacity reported");
    ASSERT (hev_circular_buffer_get_use_size (b) == 0, "something in an empty buffer");
    ASSERT (hev_circular_buffer_reading (b, v) == 0, "something to read in an empty buffer");
    k = hev_circular_buffer_writing (b, v);
    ASSERT (k >= 0 && k <= 2, "number of regions");
    for (int i = 0; i < k; i++) tot += v[i].iov_len;
    ASSERT (tot == n, "the free space is not the capacity");
    hev_circular_buffer_write_finish (b, n);
    ASSERT (hev_circular_buffer_get_use_size (b) == n, "the buffer does not count what was written");
    k = hev_circular_buffer_reading (b, v);
    tot = 0;
    for (int i = 0; i < k; i++) tot += v[i].iov_len;
    ASSERT (k >= 1 && k <= 2 && tot == n, "what was written cannot be read");
    ASSERT (hev_circular_buffer_writing (b, v) == 0, "room in a full buffer");
}
/* every capacity */
void harness_circular (void)
{
    HevCircularBuffer *b;
    struct iovec v[2];
    uint64_t n, tot = 0;
    int k;
    if (sym_decide ("slice")) slice_init ();
    n = sym_u64 ("capacity");
    b = hev_circular_buffer_new (n);
    if (!b) {
        sym_cover ("refused");
        return;
    }
    sym_cover ("created");
    ASSERT (hev_circular_buffer_get_max_size (b) == n, "wrong capacity reported");
    ASSERT (hev_circular_buffer_reading (b, v) == 0, "something to read in an empty buffer");
    k = hev_circular_buffer_writing (b, v);
    ASSERT (k >= 0 && k <= 2, "number of regions");
    for (int i = 0; i < k; i++) {
        sym_access (v[i].iov_base, v[i].iov_len);
        tot += v[i].iov_len;
    }
    ASSERT (tot == n, "the free space is not the capacity");
}
