/* C24: splicing between two descriptor pairs; C27: between two chains. */
#include "tasks.h"
#include "hev-task-io.h"
#ifdef CHAIN
#include "hev-task-cio.h"
#include "hev-task-cio-fd.h"
#include "hev-task-cio-buffer.h"
#endif

#ifndef LEN
#define LEN 2                  /* bytes in each direction at most */
#endif
#ifndef LEN2
#define LEN2 LEN               /* in the other direction */
#endif
#ifndef AGAIN
#define AGAIN 1                /* spurious would-block answers per descriptor and direction */
#endif
#ifndef BUF
#define BUF 2                  /* buffer sizes BUF0 .. BUF */
#endif
#ifndef BUF0
#define BUF0 1
#endif

static int ai, ao, bi, bo, shared_a, shared_b;
static uint8_t data[2][LEN];
static int len[2], closing[2];
static T t;
static int use_yielder, stopped, returned, out_failed[2], stops;
static char ydata;

/* direction 0 is a -> b, 1 is b -> a */
static EnvFd *in (int d) { return &env_fd[d ? bi : ai]; }
static EnvFd *out (int d) { return &env_fd[d ? ao : bo]; }
static int pending (int d) { return in (d)->in_pos - out (d)->out_pos; }

static void streams (void)
{
    for (int d = 0; d < 2; d++) {
        EnvFd *i = in (d), *o = out (d);
        ASSERT (o->out_pos <= i->in_pos, "more bytes written than were read");
        for (int k = 0; k < o->out_pos && k < LEN; k++) ASSERT (o->out[k] == data[d][k], "the bytes written are not the bytes read, in order");
    }
}
static int ended (int d) { return in (d)->reof > 0 || in (d)->err_seen || out (d)->werr_seen; }

static int yielder (HevTaskYieldType type, void *p)
{
    ASSERT (p == &ydata, "the yielder gets the caller's data");
    streams ();
    if (type == HEV_TASK_WAITIO) {
        for (int d = 0; d < 2; d++) {
            if (ended (d) && (!pending (d) || out (d)->werr_seen)) continue;
            if (pending (d)) ASSERT (out (d)->arm_out, "waits although the bytes read can be written");
            else ASSERT (in (d)->arm_in, "waits although bytes can be read");
        }
        sym_cover ("waited");
    }
#ifdef STOPS
    if (stops < STOPS && (stops++, sym_decide ("stop"))) { stopped = 1; return 1; }
#endif
    hev_task_yield (type);
    return 0;
}
#ifdef CHAIN
#ifndef RS
#define RS 1                   /* buffer sizes of the layers at most */
#endif
#ifndef WS
#define WS 2
#endif
static int direct = 1;
static HevTaskCIO passing[2];
static HevTaskCIO *chain (int k, int fi, int fo)
{
    HevTaskCIO *c = HEV_TASK_CIO (hev_task_cio_fd_new (fi, fo)), *b = NULL;
    switch (sym_choice ("layer", LAYERS)) {
    case 0: {
        int r = sym_pickr ("rsize", 0, RS), w = sym_pickr ("wsize", 0, WS);
        b = HEV_TASK_CIO (hev_task_cio_buffer_new ((size_t)r, (size_t)w));
        COVER_IF (w, "buffered output");
#ifdef PEEKED
        /* what was peeked before is part of what the chain gives */
        if (r) {
            uint8_t x[4];
            direct = 0;
            c = hev_task_cio_push (b, c);
            COVER_IF (sym_decide ("peek") && hev_task_cio_buffer_peek ((HevTaskCIOBuffer *)b, x, 1) > 0, "peeked before");
            return c;
        }
#endif
        break;
    }
    case 1: return c;
    case 2:
        b = &passing[k];
        hev_task_cio_construct (b);
        break;
    }
    direct = 0;
    return hev_task_cio_push (b, c);
}
#endif
/* nothing left to happen: then everything was relayed, and an input ends */
void env_hook_idle (void)
{
    int n = 0;
    for (int d = 0; d < 2; d++) {
#ifndef CHAIN
        if (shared_a || shared_b) ASSERT (!ended (d), "goes on although a direction ended on a shared descriptor");
#endif
        if (out (d)->werr_seen) continue;
        ASSERT (in (d)->in_pos == in (d)->in_len && !pending (d), "waits for ever although bytes can be moved");
        if (!in (d)->in_end) {
            in (d)->in_end = 1;
            n = 1;
            break;
        }
    }
    if (!n) sym_fail ("waits for ever although both inputs ended");
}
static void entry (void *p)
{
    int nopen, nblocks;
    size_t size = BUF > BUF0 ? (size_t)sym_pickr ("buf", BUF0, BUF) : BUF;
    (void)p;
    hev_task_add_fd (t.t, ai, POLLIN | (shared_a ? POLLOUT : 0));
    if (!shared_a) hev_task_add_fd (t.t, ao, POLLOUT);
    hev_task_add_fd (t.t, bi, POLLIN | (shared_b ? POLLOUT : 0));
    if (!shared_b) hev_task_add_fd (t.t, bo, POLLOUT);
    use_yielder = sym_decide ("use_yielder");
#ifdef CHAIN
    HevTaskCIO *ca = chain (0, ai, ao), *cb = chain (1, bi, bo);
#endif
    nopen = env_nopen;
    nblocks = env_nblocks;
#ifdef FAULTS
    env_fail_fd = env_fail_malloc = FAULTS;
#endif
#ifdef CHAIN
    hev_task_cio_splice (ca, cb, size, use_yielder ? yielder : NULL, use_yielder ? &ydata : NULL);
#else
    hev_task_io_splice (ai, ao, bi, bo, size, use_yielder ? yielder : NULL, use_yielder ? &ydata : NULL);
#endif
    env_fail_fd = env_fail_malloc = 0;
    returned = 1;
    streams ();
    ASSERT (env_nopen == nopen && env_nblocks == nblocks, "the resources are not released");
    ASSERT (env_is_open (ai) && env_is_open (ao) && env_is_open (bi) && env_is_open (bo), "a descriptor of the caller was closed");
    if (env_failed) {
        ASSERT (!in (0)->in_pos && !in (1)->in_pos, "bytes are lost");
        sym_cover ("could not start");
    } else if (!stopped) {
        int one = shared_a || shared_b;
#ifdef CHAIN
        one |= !direct;
#endif
        ASSERT (one ? ended (0) || ended (1) : ended (0) && ended (1), "the splice ended before its inputs");
        for (int d = 0; d < 2; d++) {
            /* the other direction may end the splice on a shared descriptor */
            if (one && ended (!d)) continue;
            if (ended (d) && !out (d)->werr_seen) ASSERT (!pending (d), "bytes read before the end are not written");
        }
        if (one && ended (0) && ended (1) && !out (0)->werr_seen && !out (1)->werr_seen)
            ASSERT (!pending (0) || !pending (1), "bytes read before the end are not written");
        sym_cover ("ended");
    } else sym_cover ("stopped");
    t.ended = 1;
}
void harness (void)
{
    int shape;
    sys_init ();
#ifdef SHAPE
    shape = SHAPE;
#else
    shape = sym_choice ("shape", 3);
#endif
    shared_a = shape > 0;
    shared_b = shape > 1;
    for (int d = 0; d < 2; d++) {
        len[d] = sym_pickr ("len", 0, d ? LEN2 : LEN);
        for (int k = 0; k < len[d]; k++) data[d][k] = sym_u8 ("byte");
        closing[d] = sym_decide ("closes_early");
    }
    ai = env_stream (data[0], len[0], closing[0], shared_a ? LEN + 1 : 0);
    ao = shared_a ? ai : env_stream (NULL, 0, 0, LEN + 1);
    bi = env_stream (data[1], len[1], closing[1], shared_b ? LEN + 1 : 0);
    bo = shared_b ? bi : env_stream (NULL, 0, 0, LEN + 1);
    for (int d = 0; d < 2; d++) {
        in (d)->again = out (d)->again_out = AGAIN;
#ifdef ERRS
        in (d)->errs = ERRS; in (d)->err = ECONNRESET;
        out (d)->errs_out = ERRS; out (d)->err = EPIPE;
#endif
    }
    spawn (&t, 0, -1, entry, NULL);
    hev_task_system_run ();
    ASSERT (returned && t.ended, "the splice does not end");
}
