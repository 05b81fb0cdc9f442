/* C26: a buffering layer over a descriptor layer against two byte streams. */
#include "tasks.h"
#include <errno.h>
#include <string.h>
#include <sys/uio.h>
#include "hev-task.h"
#include "hev-task-io.h"
#include "hev-task-cio.h"
#include "hev-task-cio-fd.h"
#include "hev-task-cio-buffer.h"

#ifndef OPS
#define OPS 3
#endif
#ifndef LEN
#define LEN 4                  /* bytes the descriptor can give */
#endif
#ifndef RS
#define RS0 0                  /* buffer sizes RS0 .. RS for reading, WS0 .. WS for writing */
#define RS 2
#define WS0 0
#define WS 2
#endif
#ifndef CNT
#define CNT 3                  /* size of a request */
#endif
#ifndef VEC
#define VEC 2                  /* size of a part of a vectored request */
#endif
#ifndef AGAIN
#define AGAIN 1                /* would-block answers */
#endif
#ifndef ERRS
#define ERRS 1                 /* failures of the descriptor */
#endif
#ifndef ZERO
#define ZERO 0                 /* writes of the descriptor that take nothing */
#endif
#ifndef KIND0
#define KIND0 0
#define KINDS 7
#endif
#define FI 77
#define FO 78

static uint8_t in[LEN], acc[OPS * CNT + OPS * 2 * VEC + 1];
static int fetched, taken, eof;      /* read side */
static int accepted, sent;           /* write side */
static int again, errs, zero = ZERO, stale;
static struct iovec cur[2];
static int ncur, in_read, in_write;
static int saw_again, saw_err, saw_eof, stopped;
static char ydata;

/* the next bytes for the descriptor: what was accepted, then the running call's */
static uint8_t outbyte (int k)
{
    if (k < accepted) return acc[k];
    k -= accepted;
    for (int i = 0; i < ncur; i++) {
        if (k < (int)cur[i].iov_len) return ((uint8_t *)cur[i].iov_base)[k];
        k -= (int)cur[i].iov_len;
    }
    sym_fail ("more bytes reach the layer below than were written");
}
static int trouble (void)
{
    int e = sym_choice ("trouble", 1 + (again > 0) + (errs > 0));
    saw_again = 0;
    if (!e) return 0;
    if (e == 1 && again > 0) { again--; saw_again = 1; errno = EAGAIN; return 1; }
    errs--;
    saw_err = errno = sym_decide ("which_error") ? EIO : ECONNRESET;
    return 1;
}
static ssize_t down_read (int fd, const struct iovec *v, int n)
{
    size_t sum = 0, k;
    int p = 0;
    ASSERT (fd == FI, "another descriptor than the layer's");
    ASSERT (in_read, "the descriptor is read although nobody reads");
    for (int i = 0; i < n; i++) {
        if (v[i].iov_len) sym_access (v[i].iov_base, v[i].iov_len);
        sum += v[i].iov_len;
    }
    if (trouble ()) return -1;
    errno = stale;
    if (sum == 0) return 0;
    if (eof || fetched == LEN) { saw_eof = eof = 1; return 0; }
    k = (size_t)sym_pickr ("got", 0, (int)sum < LEN - fetched ? (int)sum : LEN - fetched);
    if (!k) { saw_eof = eof = 1; return 0; }
    for (size_t j = 0; j < k; j++) {
        while (j - p >= v->iov_len) { p += v->iov_len; v++; }
        ((uint8_t *)v->iov_base)[j - p] = in[fetched++];
    }
    return (ssize_t)k;
}
static ssize_t down_write (int fd, const struct iovec *v, int n)
{
    size_t sum = 0, k;
    int p = sent;
    ASSERT (fd == FO, "another descriptor than the layer's");
    ASSERT (in_write, "the descriptor is written although nobody writes");
    for (int i = 0; i < n; i++)
        for (size_t j = 0; j < v[i].iov_len; j++) {
            ASSERT (((uint8_t *)v[i].iov_base)[j] == outbyte (p), "another byte than the next one reaches the layer below");
            p++;
            sum++;
        }
    if (trouble ()) return -1;
    errno = stale;
    if (sum == 0) return 0;
    k = (size_t)sym_pickr ("put", zero > 0 ? 0 : 1, (int)sum);
    if (!k) { zero--; saw_again = 1; sym_cover ("nothing taken"); }
    sent += (int)k;
    return (ssize_t)k;
}
ssize_t env_read (int f, void *b, size_t n) { struct iovec v = { b, n }; return down_read (f, &v, 1); }
ssize_t env_readv (int f, const struct iovec *v, int n) { return down_read (f, v, n); }
ssize_t env_write (int f, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return down_write (f, &v, 1); }
ssize_t env_writev (int f, const struct iovec *v, int n) { return down_write (f, v, n); }
int env_close (int f) { (void)f; return 0; }

#ifdef NOYIELDER
/* in a task, waiting for the scheduler to run it again */
static int wake_fd;
#define YIELDER NULL, NULL
void env_hook_idle (void)
{
    ASSERT (saw_again, "waits although nothing would block");
    saw_again = 0;
    sym_cover ("waited");
    env_fire (wake_fd, EPOLLIN);
}
#else
#define YIELDER yielder, &ydata
static int yielder (HevTaskYieldType type, void *p)
{
    ASSERT (p == &ydata && type == HEV_TASK_WAITIO, "the yielder gets the caller's data");
    ASSERT (saw_again, "waits although nothing would block");
    saw_again = 0;
    sym_cover ("waited");
    if (sym_decide ("stop")) { stopped = 1; return 1; }
    return 0;
}
#endif


static void begin (int reads, int writes)
{
    in_read = reads;
    in_write = writes;
    saw_again = saw_err = saw_eof = stopped = 0;
}
static void end (void) { in_read = in_write = ncur = 0; }

static size_t request (struct iovec *v, int n, int fill)
{
    size_t sum = 0;
    for (int i = 0; i < n; i++) {
        v[i].iov_len = (size_t)sym_pickr ("count", 0, n > 1 ? VEC : CNT);
        v[i].iov_base = v[i].iov_len ? sym_malloc (v[i].iov_len) : NULL;
        if (fill) for (size_t j = 0; j < v[i].iov_len; j++) ((uint8_t *)v[i].iov_base)[j] = sym_u8 ("byte");
        sum += v[i].iov_len;
    }
    return sum;
}
static uint8_t *at (struct iovec *v, size_t j) { return (uint8_t *)(j < v[0].iov_len ? v[0].iov_base : v[1].iov_base) + (j < v[0].iov_len ? j : j - v[0].iov_len); }
static void release (struct iovec *v, int n)
{
    for (int i = 0; i < n; i++) if (v[i].iov_len) sym_free (v[i].iov_base);
}
/* the outcomes that are not a number of bytes */
static void other (HevTaskCIO *c, ssize_t r)
{
    if (r == -2) ASSERT (stopped, "-2 although the yielder did not stop");
    else {
        ASSERT (r == -1 && saw_err, "fails although the layer below did not");
        ASSERT (c->err == saw_err, "another error code than the layer's below");
        sym_cover ("failed");
    }
}
static void reading (HevTaskCIO *c, int n)
{
    struct iovec v[2] = { { NULL, 0 }, { NULL, 0 } };
    size_t sum = request (v, n, 0);
    int buffered = fetched - taken;
    ssize_t r;
    begin (1, 0);
    r = n > 1 ? hev_task_cio_readv (c, v, n, YIELDER) : hev_task_cio_read (c, v[0].iov_base, v[0].iov_len, YIELDER);
    end ();
    if (stopped) ASSERT (r == -2, "-2 when the yielder asked to stop");
    if (r > 0) {
        ASSERT (r <= (ssize_t)sum, "more bytes than asked for");
        ASSERT (taken + r <= fetched, "more bytes than the layer below gave");
        for (size_t j = 0; j < (size_t)r; j++) ASSERT (*at (v, j) == in[taken + j], "not the next byte of the stream");
        ASSERT (!saw_err, "an error of the layer below is not reported");
        taken += (int)r;
        sym_cover ("read");
    } else {
        ASSERT (!buffered || !sum, "fails or ends although bytes are buffered");
        ASSERT (taken == fetched || !sum, "bytes are lost");
        if (r == 0) {
            ASSERT (saw_eof || !sum, "reports the end although the layer below did not end");
            ASSERT (!saw_err, "an error of the layer below is not reported");
            COVER_IF (sum, "end");
        } else other (c, r);
    }
    release (v, n);
}
static void writing (HevTaskCIO *c, int n)
{
    struct iovec v[2] = { { NULL, 0 }, { NULL, 0 } };
    size_t sum = request (v, n, 1);
    ssize_t r;
    begin (0, 1);
    cur[0] = v[0];
    cur[1] = v[1];
    ncur = n;
    r = n > 1 ? hev_task_cio_writev (c, v, n, YIELDER) : hev_task_cio_write (c, v[0].iov_base, v[0].iov_len, YIELDER);
    end ();
    if (stopped) ASSERT (r == -2, "-2 when the yielder asked to stop");
    if (r > 0) {
        ASSERT (r <= (ssize_t)sum, "more bytes than given");
        for (size_t j = 0; j < (size_t)r; j++) acc[accepted++] = *at (v, j);
        ASSERT (!saw_err, "an error of the layer below is not reported");
        sym_cover ("written");
    } else if (r == 0) {
        ASSERT (!sum, "nothing taken although bytes were given");
        ASSERT (!saw_err, "an error of the layer below is not reported");
    } else other (c, r);
    ASSERT (sent <= accepted, "bytes reached the layer below that were not accepted");
    release (v, n);
}
static void flushing (HevTaskCIO *c)
{
    int r;
    begin (0, 1);
    r = hev_task_cio_flush (c, YIELDER);
    end ();
    if (stopped) ASSERT (r == -2, "-2 when the yielder asked to stop");
    if (r >= 0) {
        ASSERT (sent == accepted, "flushed, but not all bytes have reached the layer below");
        ASSERT (!saw_err, "an error of the layer below is not reported");
        sym_cover ("flushed");
    } else other (c, r);
}
static void peeking (HevTaskCIOBuffer *b, int vec, int rs)
{
    struct iovec v[2] = { { NULL, 0 }, { NULL, 0 } };
    int total = 0, k;
    size_t n = 0;
    ssize_t r;
    if (!vec) n = request (v, 1, 0);
    begin (1, 0);
    r = vec ? hev_task_cio_buffer_peekv (b, v) : hev_task_cio_buffer_peek (b, v[0].iov_base, n);
    end ();
    if (!rs) {
        ASSERT (r == -1, "peeks without a buffer");
    } else if (vec) {
        ASSERT (r >= 0 && r <= 2, "number of parts");
        for (int i = 0; i < r; i++)
            for (size_t j = 0; j < v[i].iov_len; j++, total++) {
                ASSERT (taken + total < fetched, "more bytes than the layer below gave");
                ASSERT (((uint8_t *)v[i].iov_base)[j] == in[taken + total], "not the next byte of the stream");
            }
        ASSERT (total == fetched - taken, "not all buffered bytes are shown");
        COVER_IF (r == 2, "peeked around the end");
    } else {
        k = fetched - taken < (int)n ? fetched - taken : (int)n;
        ASSERT (r == k, "not the bytes that are buffered");
        for (int j = 0; j < k; j++) ASSERT (*at (v, (size_t)j) == in[taken + j], "not the next byte of the stream");
        COVER_IF (r, "peeked");
    }
    if (!vec) release (v, 1);
}
static void all (void)
{
    HevTaskCIO *c;
    HevTaskCIOBuffer *b;
    int rs = sym_pickr ("rsize", RS0, RS), ws = sym_pickr ("wsize", WS0, WS);
    for (int i = 0; i < LEN; i++) in[i] = sym_u8 ("in");
    again = AGAIN;
    errs = ERRS;
    stale = sym_decide ("stale") ? EAGAIN : 0; /* errno after a success */
    b = hev_task_cio_buffer_new ((size_t)rs, (size_t)ws);
    ASSERT (b != NULL, "no object");
    c = HEV_TASK_CIO (b);
    hev_task_cio_push (c, HEV_TASK_CIO (hev_task_cio_fd_new (FI, FO)));
    for (int k = 0; k < OPS; k++)
        switch (KIND0 + sym_choice ("op", KINDS)) {
        case 0: reading (c, 1); break;
        case 1: reading (c, 2); break;
        case 2: peeking (b, 0, rs); break;
        case 3: peeking (b, 1, rs); break;
        case 4: writing (c, 1); break;
        case 5: writing (c, 2); break;
        case 6: flushing (c); break;
        case 7:                /* asks the layer below, moves nothing */
            ASSERT (hev_task_cio_get_fd (c, 0) == FI && hev_task_cio_get_fd (c, 1) == FO, "other descriptors than the layer below's");
            break;
        }
    ASSERT (taken <= fetched && sent <= accepted, "streams");
    hev_object_unref (HEV_OBJECT (c));
    sym_cover ("done");
}
#ifdef NOYIELDER
static void body (void *p)
{
    (void)p;
    hev_task_add_fd (hev_task_self (), wake_fd, POLLIN);
    all ();
}
void harness (void)
{
    static T t;
    sys_init ();
    wake_fd = env_stream (NULL, 0, 0, 0);
    spawn (&t, 0, -1, body, NULL);
    hev_task_system_run ();
}
#else
void harness (void) { all (); }
#endif
