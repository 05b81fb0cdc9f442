/* C09 / C10: two tasks on the ends of a channel.
 * DUPLEX: four tasks, both directions at once.  HAND: ends are handed over to other tasks. */
#include "tasks.h"
#include "hev-task-channel.h"

#ifndef K
#define K 3                    /* messages written per direction */
#endif
#ifndef CAPS
#define CAPS 3                 /* capacities 0 .. CAPS-1 */
#endif
#ifdef DUPLEX
#define ND 2
#else
#define ND 1
#endif
#ifndef CLOSER
#define CLOSER 3
#endif
#define LMAX 9
#define ROOM 12

/* one direction */
typedef struct {
    HevTaskChannel **wend, **rend;
    T w, r, w2, r2;
    int wlen[K];                       /* written lengths */
    uint8_t msg[K][LMAX];
    int begun, taken;                  /* messages handed over / taken out */
    int inw, inr, wdone, rdone;
    int reads;
    int wstray, rstray;
} D;

static D dir[ND];
static HevTaskChannel *c[2];
static int users[2], gone[2];          /* tasks still using each end; destroyed */
static int cap, msize, base, ticks, rot, rlen;
static T spin;

static void leave (int end)
{
    if (--users[end]) return;
    gone[end] = 1;
    hev_task_channel_destroy (c[end]);
}
static void put_one (D *d, int i)
{
    int e = d == &dir[0] ? 0 : 1, n, t;
    ssize_t r;
    static const int ls[] = { 8, 3, 1, 9, 0, 4, 2 };
    n = d->wlen[i] = ls[(rot + i) % 7];
    for (int k = 0; k < LMAX; k++) d->msg[i][k] = sym_u8 ("byte");
#ifndef NOYIELD
    if (sym_decide ("w_yield")) hev_task_yield (HEV_TASK_YIELD);
#endif
    t = ticks;
    int dead = gone[!e], wait = d->begun + 1 - d->taken > cap, taken = d->taken;
    d->begun++;
    d->inw = 1;
    r = hev_task_channel_write (*d->wend, d->msg[i], n);
    d->inw = d->wstray = 0;
    if (dead) {
        ASSERT (r == -1, "write to a closed channel");
        ASSERT (t == ticks, "write to a closed channel waited");
        sym_cover ("write to a closed channel");
        return;
    }
    if (!wait) ASSERT (t == ticks, "write waited though there was room");
    if (wait && d->taken > taken) sym_cover ("writer waited");
    if (gone[!e]) {
        /* closed meanwhile: completed only if it had become possible before */
        if (d->begun - d->taken > cap) {
            ASSERT (r == -1, "a write that could not complete reports success");
            sym_cover ("blocked writer released");
        }
        return;
    }
    ASSERT (d->begun - d->taken <= cap, "write returned though too many messages are undelivered");
    if (cap && n > msize) n = msize;
    ASSERT (r == n, "wrong result of a write");
}
static void get_one (D *d)
{
    int e = d == &dir[0] ? 0 : 1, n, t, have, dead;
    uint8_t buf[ROOM];
    ssize_t r;
    memset (buf, 0xee, sizeof (buf));
#ifndef NOYIELD
    if (sym_decide ("r_yield")) hev_task_yield (HEV_TASK_YIELD);
#endif
    t = ticks;
    have = d->begun - d->taken;
    dead = gone[e];
    d->inr = 1;
    r = hev_task_channel_read (*d->rend, buf, rlen);
    d->inr = d->rstray = 0;
    if (have) ASSERT (t == ticks, "read waited though there is a message");
    if (dead) ASSERT (t == ticks, "read waited on a closed channel");
    if (r == -1) {
        ASSERT (gone[e], "read failed on an open channel");
        ASSERT (have == 0, "a buffered message was lost by closing");
        sym_cover ("closed");
        if (!dead) sym_cover ("blocked reader released");
        return;
    }
    ASSERT (d->begun > d->taken, "a message was read that was not written");
    if (!have) sym_cover ("reader waited");
    if (gone[e]) sym_cover ("read after closing");
    n = d->wlen[d->taken];
    if (cap && n > msize) n = msize;
    if (n > rlen) n = rlen;
    ASSERT (r == n, "wrong length read");
    for (int k = 0; k < ROOM; k++)
        ASSERT (buf[k] == (k < n ? d->msg[d->taken][k] : 0xee), k < n ? "wrong byte read" : "wrote outside the message");
    d->taken++;
}
static void writer (void *p)
{
    D *d = p;
    int e = d == &dir[0] ? 0 : 1, k = K;
#ifdef CLOSE
    k = sym_choice ("writes", K + 1);
#endif
    for (int i = d->begun; i < k; i++) {
        put_one (d, i);
#ifdef HAND
        if (d->begun == 1 && K > 1) {
            users[e]++;
            spawn (&d->w2, 10, -1, writer, d);
            break;
        }
#endif
    }
    if (!d->w2.started || sym_native () < 0 || d->begun > 1 || K == 1) d->wdone = 1;
    leave (e);
}
static void reader (void *p)
{
    D *d = p;
    int e = d == &dir[0] ? 1 : 0, k = K;
#ifdef CLOSE
    k = sym_choice ("reads", K + 2);
#endif
    for (; d->reads < k;) {
        d->reads++;
        get_one (d);
#ifdef HAND
        if (d->reads == 1 && k > 1) {
            users[e]++;
            spawn (&d->r2, 11, -1, reader, d);
            break;
        }
#endif
    }
    if (!d->r2.started || d->reads > 1) d->rdone = 1;
    leave (e);
}
static void spinner (void *p)
{
    int n = 0;
    (void)p;
    while (!(gone[0] && gone[1])) {
        ticks++;
        for (int i = 0; i < ND; i++) {
            D *d = &dir[i];
            /* three turns of everybody later nobody waits for what is possible */
            if (d->inr && (d->begun > d->taken || gone[i])) ASSERT (++d->rstray < 4, "a reader waits though it could go on");
            else d->rstray = 0;
            if (d->inw && (d->begun - d->taken <= cap || gone[!i])) ASSERT (++d->wstray < 4, "a writer waits though it could go on");
            else d->wstray = 0;
        }
#ifdef STRAY
        if (n < STRAY && sym_decide ("stray")) {
            if (dir[0].inr) hev_task_wakeup (dir[0].r.t);
            if (dir[0].inw) hev_task_wakeup (dir[0].w.t);
            sym_cover ("stray wake-up");
        }
#endif
        ASSERT (++n < 60, "the tasks do not end");
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness (void)
{
    int r;
    sys_init ();
    base = env_nblocks;
    cap = sym_choice ("cap", CAPS);
    msize = sym_choice ("msize", 2) ? 8 : 3;
    rot = sym_choice ("rot", 7);
    rlen = sym_choice ("rlen", 2) ? 3 : ROOM - 1;
    r = cap || sym_decide ("plain") ? hev_task_channel_new_with_buffers (&c[0], &c[1], msize, cap) : hev_task_channel_new (&c[0], &c[1]);
    ASSERT (r == 0, "channel not created without a fault");
    for (int i = 0; i < ND; i++) {
        dir[i].wend = &c[i];
        dir[i].rend = &c[!i];
        users[i]++;
        users[!i]++;
        if (sym_decide ("reader_first")) {
            spawn (&dir[i].r, 1, -1, reader, &dir[i]);
            spawn (&dir[i].w, 2, -1, writer, &dir[i]);
        } else {
            spawn (&dir[i].w, 2, -1, writer, &dir[i]);
            spawn (&dir[i].r, 1, -1, reader, &dir[i]);
        }
    }
    spawn (&spin, 3, -1, spinner, NULL);
    hev_task_system_run ();
    ASSERT (gone[0] && gone[1], "an end was not closed");
#ifndef CLOSE
    for (int i = 0; i < ND; i++) ASSERT (dir[i].taken == K, "not every message was delivered");
#endif
    ASSERT (env_nblocks == base, "channel memory was not released");
    sym_cover ("ended");
}

#ifdef DUPLEX
/* one task at the first end, a reader and a writer at the other; then the first end is closed */
static void closer (void *p)
{
    (void)p;
    for (int k = 0; k < CLOSER; k++) {
        switch (sym_choice ("closer", 3)) {
        case 0: hev_task_yield (HEV_TASK_YIELD); break;
        case 1: put_one (&dir[0], dir[0].begun); break;
        case 2: if (dir[1].begun > dir[1].taken) get_one (&dir[1]); break;
        }
    }
    leave (0);
}
static void all_reads (void *p)
{
    (void)p;
    while (!gone[0] || dir[0].begun > dir[0].taken) get_one (&dir[0]);
    get_one (&dir[0]);
    sym_cover ("reader ended");
    leave (1);
}
static void all_writes (void *p)
{
    (void)p;
    while (!gone[0] && dir[1].begun < K) put_one (&dir[1], dir[1].begun);
    sym_cover ("writer ended");
    leave (1);
}
void harness_close (void)
{
    int o;
    sys_init ();
    base = env_nblocks;
    cap = sym_choice ("cap", CAPS);
    msize = 8;
    rlen = ROOM - 1;
    ASSERT (hev_task_channel_new_with_buffers (&c[0], &c[1], msize, cap) == 0, "channel not created without a fault");
    for (int i = 0; i < 2; i++) {
        dir[i].wend = &c[i];
        dir[i].rend = &c[!i];
    }
    users[0] = 1;
    users[1] = 2;
    o = sym_choice ("order", 3);
    for (int i = 0; i < 3; i++) {
        switch ((o + i) % 3) {
        case 0: spawn (&dir[0].w, 2, -1, closer, NULL); break;
        case 1: spawn (&dir[0].r, 1, -1, all_reads, NULL); break;
        case 2: spawn (&dir[1].w, 2, -1, all_writes, NULL); break;
        }
    }
    spawn (&spin, 3, -1, spinner, NULL);
    hev_task_system_run ();
    ASSERT (gone[0] && gone[1], "an end was not closed");
    ASSERT (env_nblocks == base, "channel memory was not released");
    sym_cover ("ended");
}
#endif

/* messages beyond what one byte or a half-word counts */
#define BIGMAX 66000
static uint8_t big[2][BIGMAX], room[BIGMAX + 1];
static size_t blen[2], bmsize, brlen;
static void big_writer (void *p)
{
    (void)p;
    for (int i = 0; i < 2; i++) {
        size_t n = blen[i];
        if (cap && n > bmsize) n = bmsize;
        ASSERT (hev_task_channel_write (c[0], big[i], blen[i]) == (ssize_t)n, "wrong result of a write");
    }
    hev_task_channel_destroy (c[0]);
}
static void big_reader (void *p)
{
    (void)p;
    for (int i = 0; i < 2; i++) {
        size_t n = blen[i];
        if (cap && n > bmsize) n = bmsize;
        if (n > brlen) n = brlen;
        memset (room, 0xee, n + 1);
        ASSERT (hev_task_channel_read (c[1], room, brlen) == (ssize_t)n, "wrong length read");
        for (size_t k = 0; k < 4; k++) {
            ASSERT (room[k] == big[i][k], "wrong byte read");
            ASSERT (room[n / 2 + k % 2] == big[i][n / 2 + k % 2], "wrong byte read");
            ASSERT (room[n - 1 - k] == big[i][n - 1 - k], "wrong byte read");
        }
        ASSERT (room[n] == 0xee, "wrote outside the message");
    }
    hev_task_channel_destroy (c[1]);
}
void harness_large (void)
{
    static const size_t ls[] = { 255, 256, 257, 300, 511, 65535, 65536, 65541 };
    sys_init ();
    for (int i = 0; i < BIGMAX; i++) big[0][i] = (uint8_t)(i * 7 + i / 251);
    for (int i = 0; i < 5; i++) big[1][i] = (uint8_t)(200 + i);
    cap = sym_choice ("cap", 3);
    blen[0] = ls[sym_choice ("length", 8)];
    blen[1] = 5;
    bmsize = ls[sym_choice ("msize", 8)];
    brlen = ls[sym_choice ("room", 8)];
    ASSERT (hev_task_channel_new_with_buffers (&c[0], &c[1], bmsize, cap) == 0, "channel not created without a fault");
    spawn (&dir[0].w, 2, -1, big_writer, NULL);
    spawn (&dir[0].r, 1, -1, big_reader, NULL);
    hev_task_system_run ();
    sym_cover ("ended");
}
