/* C11: one task selecting among channels, a task at the other end of each. */
#include "tasks.h"
#include "hev-task-channel.h"
#include "hev-task-channel-select.h"

#ifndef NC
#define NC 2
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef PO
#define PO 2
#endif

typedef struct {
    HevTaskChannel *mine, *other;
    int cap, in, out;          /* undelivered: to the selecting task, from it */
    int in_set, closed;
    int missed;
    T t;
} C;
static C ch[NC];
static T s, sp;
static HevTaskChannelSelect *sel;
static int base, ticks, stray, waiting, forever, s_done, ended;   /* waiting: 1 read-select, 2 write-select */

static int64_t now (void) { return env_sec * 1000000000 + env_nsec; }
static int readable (C *c) { return c->in_set && c->in > 0; }
static int writable (C *c) { return c->in_set && !c->closed && c->out < c->cap; }
static int any (int kind)
{
    for (int i = 0; i < NC; i++) if (kind == 1 ? readable (&ch[i]) : writable (&ch[i])) return 1;
    return 0;
}
static void push (C *c)
{
    char x = 7;
    c->in++;
    if (hev_task_channel_write (c->other, &x, 1) < 0) c->in--;
}
static void peer (void *p)
{
    C *c = p;
    char x = 7;
    for (int k = 0; k < PO && !s_done; k++) {
        int op = sym_choice ("peer", 3);
        if (op == 0) hev_task_yield (HEV_TASK_YIELD);
        else if (op == 1) {
            push (c);
        } else if (c->out) {
            c->out--;
            ASSERT (hev_task_channel_read (c->other, &x, 1) == 1, "the other end could not read");
        }
    }
#ifdef CLOSE
    if (!c->out && !forever && sym_decide ("peer_closes")) {
        c->closed = 1;
        hev_task_channel_destroy (c->other);
        c->other = NULL;
    }
#endif
    while (!s_done) {
        hev_task_yield (HEV_TASK_YIELD);
        /* the selecting task waits without time-out: make the channel ready */
        if (!forever || s_done || c->closed) continue;
        if (waiting == 1 && !c->in) push (c);
    }
    if (c->other) hev_task_channel_destroy (c->other);
    ended++;
}
static void add (C *c)
{
    hev_task_channel_select_add (sel, c->mine);
    c->in_set = 1;
}
static void selector (void *p)
{
    char x = 9;
    (void)p;
    sel = hev_task_channel_select_new ();
    ASSERT (sel != NULL, "selector not created");
    add (&ch[0]);
    for (int k = 0; k < OPS; k++) {
        int kind, tmo, t, had;
        HevTaskChannel *r;
        int64_t t0;
        C *c = NULL;
        if (k == 0 && NC > 1) {
            if (sym_decide ("first_yield")) hev_task_yield (HEV_TASK_YIELD);
            for (int i = 1; i < NC; i++) add (&ch[i]);
        }
        kind = 1 + sym_choice ("kind", 2);
        tmo = sym_choice ("timeout", 3);
        tmo = tmo == 2 ? -1 : tmo * 3;
        had = any (kind);
        if (tmo < 0 && !had) {
            /* something must be going to happen */
            int can = 0;
            for (int i = 0; i < NC; i++) can |= ch[i].in_set && !ch[i].closed && (kind == 1 || ch[i].cap);
            if (!can) tmo = 6;
            else forever = 1;
        }
        t = ticks;
        t0 = now ();
        waiting = kind;
        r = kind == 1 ? hev_task_channel_select_read (sel, tmo) : hev_task_channel_select_write (sel, tmo);
        waiting = forever = 0;
        for (int i = 0; i < NC; i++) ch[i].missed = 0;
        if (had || tmo == 0) ASSERT (t == ticks, "select waited needlessly");
        if (!r) {
            ASSERT (!any (kind), "a ready channel was not reported");
            ASSERT (tmo >= 0, "select without time-out returned nothing");
            ASSERT (now () - t0 >= tmo * 1000000ll, "select returned before the time-out");
            ASSERT (now () - t0 <= tmo * 1000000ll + (tmo ? 1000000 : 0), "select went on waiting after the time-out");
            if (tmo) sym_cover ("timed out");
            continue;
        }
        for (int i = 0; i < NC; i++) if (ch[i].mine == r) c = &ch[i];
        ASSERT (c && c->in_set, "not a channel of the set");
        if (kind == 1) {
            ASSERT (readable (c), "a channel without a message was reported readable");
            if (!had) sym_cover ("became readable");
            if (sym_decide ("take")) {
                c->in--;
                ASSERT (hev_task_channel_read (r, &x, 1) == 1, "a channel reported readable could not be read");
                ASSERT (x == 7, "wrong byte");
            }
        } else {
            ASSERT (writable (c) || c->closed, "a channel without room was reported writable");
            if (!had) sym_cover ("became writable");
            t = ticks;
            if (sym_decide ("put") && !c->closed) {
                c->out++;
                x = 9;
                ASSERT (hev_task_channel_write (r, &x, 1) == 1, "a channel reported writable could not be written");
                ASSERT (t == ticks, "writing to a channel reported writable waited");
            }
        }
    }
    for (int i = 0; i < NC; i++) {
        if (ch[i].in_set) hev_task_channel_select_del (sel, ch[i].mine);
        ch[i].in_set = 0;
    }
    hev_task_channel_select_destroy (sel);
    s_done = 1;
    for (int i = 0; i < NC; i++) hev_task_channel_destroy (ch[i].mine);
    ended++;
}
static void spinner (void *p)
{
    (void)p;
    while (ended < NC + 1) {
        ticks++;
        for (int i = 0; i < NC; i++) {
            int rdy = waiting == 1 ? readable (&ch[i]) : waiting == 2 ? writable (&ch[i]) : 0;
            if (rdy) ASSERT (++ch[i].missed < 4, "select waits though a channel is ready");
            else ch[i].missed = 0;
        }
        for (int i = 0; i < NC; i++)
            if (forever && waiting == 2 && ch[i].out && !ch[i].closed && ticks % 4 == 0) {
                char x;
                ch[i].out--;
                ASSERT (hev_task_channel_read (ch[i].other, &x, 1) == 1, "the other end could not read");
            }
#ifdef STRAY
        /* stray wake-ups of the selecting task */
        if (waiting && (stray & 1)) { hev_task_wakeup (s.t); sym_cover ("stray wake-up"); }
        if (waiting) stray >>= 1;
#endif
        if (ticks % 3 == 0) env_advance (0, 1000000);
        ASSERT (ticks < 200, "the tasks do not end");
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness (void)
{
    int first;
    sys_init ();
    base = env_nblocks;
#ifdef STRAY
    stray = sym_choice ("stray", 1 << STRAY);
#endif
    first = sym_choice ("cap", 3);
    for (int i = 0; i < NC; i++) {
        ch[i].cap = (first + 2 * i) % 3;
        ASSERT (hev_task_channel_new_with_buffers (&ch[i].mine, &ch[i].other, 4, ch[i].cap) == 0, "channel not created");
    }
    if (sym_decide ("selector_first")) spawn (&s, 0, -1, selector, NULL);
    for (int i = 0; i < NC; i++) spawn (&ch[i].t, 1 + i, -1, peer, &ch[i]);
    if (!s.started) spawn (&s, 0, -1, selector, NULL);
    spawn (&sp, 9, -1, spinner, NULL);
    hev_task_system_run ();
    ASSERT (ended == NC + 1, "a task did not end");
    ASSERT (env_nblocks == base, "channel memory was not released");
    sym_cover ("ended");
}
