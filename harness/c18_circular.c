/* C18: the circular buffer against a byte-queue reference. */
#include <string.h>
#include "env.h"
#include "hev-circular-buffer.h"

#ifndef MAXSZ
#define MAXSZ 4
#endif
#ifndef OPS
#define OPS 6
#endif

static uint8_t q[MAXSZ * (OPS + 1)];
static size_t qr, qw;
static uint8_t *base; /* start of the data area, learnt from the first offer */

static size_t check_iov (const struct iovec *v, int n, size_t want, size_t max)
{
    size_t t = 0;
    ASSERT (n >= 0 && n <= 2, "number of regions");
    ASSERT ((n == 0) == (want == 0), "no region offered exactly if there is nothing");
    for (int i = 0; i < n; i++) {
        uint8_t *p = v[i].iov_base;
        ASSERT (v[i].iov_len > 0, "offered region is empty");
        ASSERT (p >= base && p + v[i].iov_len <= base + max, "offered region leaves the buffer");
        t += v[i].iov_len;
    }
    ASSERT (t == want, "offered regions are not the free or used space");
    return t;
}

void harness (void)
{
    size_t max = sym_pickr ("max_size", 1, MAXSZ);
    HevCircularBuffer *b = hev_circular_buffer_new (max);
    struct iovec w[2], r[2];
    int blocks;
    ASSERT (b != NULL, "no buffer although there is memory");
    hev_circular_buffer_unref (b);
    blocks = env_nblocks;
    b = hev_circular_buffer_new (max);
    ASSERT (b != NULL, "no buffer although there is memory");
    ASSERT (hev_circular_buffer_get_max_size (b) == max, "maximum size reported");
    hev_circular_buffer_writing (b, w);
    base = w[0].iov_base;
    ASSERT (sym_objsize (base) >= max, "block smaller than the buffer");
    for (int op = 0; op < OPS; op++) {
        size_t used = qw - qr;
        int n, k = 0;
        ASSERT (hev_circular_buffer_get_use_size (b) == used, "used size reported");
        n = hev_circular_buffer_writing (b, w);
        check_iov (w, n, max - used, max);
        k = hev_circular_buffer_reading (b, r);
        check_iov (r, k, used, max);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < k; j++)
                ASSERT ((uint8_t *)w[i].iov_base + w[i].iov_len <= (uint8_t *)r[j].iov_base ||
                            (uint8_t *)r[j].iov_base + r[j].iov_len <= (uint8_t *)w[i].iov_base,
                        "free and used regions overlap");
        if (n == 2)
            ASSERT ((uint8_t *)w[0].iov_base + w[0].iov_len <= (uint8_t *)w[1].iov_base ||
                        (uint8_t *)w[1].iov_base + w[1].iov_len <= (uint8_t *)w[0].iov_base, "write regions overlap");
        if (k == 2) sym_cover ("read wraps");
        if (n == 2) sym_cover ("write wraps");
        if (sym_decide ("is_write")) {
            int c = sym_pickr ("write", 0, (int)(max - used)), left = c;
            for (int i = 0; i < n && left; i++)
                for (size_t j = 0; j < w[i].iov_len && left; j++, left--) {
                    q[qw] = sym_u8 ("byte");
                    ((uint8_t *)w[i].iov_base)[j] = q[qw++];
                }
            hev_circular_buffer_write_finish (b, c);
            if (qw - qr == max) sym_cover ("full");
        } else {
            int c = sym_pickr ("read", 0, (int)used), left = c;
            for (int i = 0; i < k && left; i++)
                for (size_t j = 0; j < r[i].iov_len && left; j++, left--)
                    ASSERT (((uint8_t *)r[i].iov_base)[j] == q[qr++], "byte read differs from byte written");
            hev_circular_buffer_read_finish (b, c);
        }
    }
    /* everything still in there is in order */
    {
        int k = hev_circular_buffer_reading (b, r);
        for (int i = 0; i < k; i++)
            for (size_t j = 0; j < r[i].iov_len; j++)
                ASSERT (((uint8_t *)r[i].iov_base)[j] == q[qr++], "byte left differs from byte written");
        ASSERT (qr == qw, "bytes left");
    }
    hev_circular_buffer_ref (b);
    hev_circular_buffer_unref (b);
    ASSERT (sym_is_live (base), "released with a reference left");
    hev_circular_buffer_unref (b);
    ASSERT (env_nblocks == blocks, "not released at the last reference");
}

/* Sizes of any magnitude (no bytes moved): offered lengths stay exact. */
void harness_sizes (void)
{
    static const size_t sizes[] = { 1, 3, 8, 13, 64, 1000, 4096, 1 << 20, 0x3fffff00 };
    size_t max = sizes[sym_choice ("max_size", sizeof (sizes) / sizeof (sizes[0]))], used = 0;
    HevCircularBuffer *b;
    struct iovec w[2], r[2];
    b = hev_circular_buffer_new (max);
    ASSERT (b != NULL, "no buffer although there is memory");
    hev_circular_buffer_writing (b, w);
    base = w[0].iov_base;
    for (int op = 0; op < 4; op++) {
        size_t c;
        int n = hev_circular_buffer_writing (b, w), k;
        size_t t = 0;
        for (int i = 0; i < n; i++) {
            size_t off = (uint8_t *)w[i].iov_base - base;
            ASSERT (off <= max && w[i].iov_len <= max - off, "offered region leaves the buffer");
            t += w[i].iov_len;
        }
        ASSERT (t == max - used, "offered regions are not the free space");
        k = hev_circular_buffer_reading (b, r);
        t = 0;
        for (int i = 0; i < k; i++) {
            size_t off = (uint8_t *)r[i].iov_base - base;
            ASSERT (off <= max && r[i].iov_len <= max - off, "offered region leaves the buffer");
            t += r[i].iov_len;
        }
        ASSERT (t == used, "offered regions are not the used space");
        if (k == 2) sym_cover ("wrapped");
        c = sym_val ("count", 31);
        if (op & 1) {
            ASSUME (c <= used);
            hev_circular_buffer_read_finish (b, c);
            used -= c;
        } else {
            ASSUME (c <= max - used);
            hev_circular_buffer_write_finish (b, c);
            used += c;
        }
        ASSERT (hev_circular_buffer_get_use_size (b) == used, "used size reported");
    }
}
