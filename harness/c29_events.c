/* C29: descriptor registrations and the events the system reports for them. */
#include "tasks.h"

#ifndef NT
#define NT 2                   /* tasks */
#endif
#ifndef NF
#define NF 2                   /* descriptors */
#endif
#ifndef OPS
#define OPS 3                  /* actions per task */
#endif
#ifndef BATCH
#define BATCH 2                /* events in a batch */
#endif
#ifndef POLLS
#define POLLS 4                /* batches with events */
#endif
#ifndef EMPTY
#define EMPTY 1                /* interrupted or empty waits */
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef BIG
#define BIG 0
#endif
#ifndef ACT0
#define ACT0 0
#endif
#ifndef TAIL
#define TAIL 0                 /* only the first task acts freely, the others wait for their descriptor */
#endif
#define FD0 100                /* our descriptors are FD0 .. FD0 + NF - 1 */

static T t[NT];
static int runnable[NT], running = -1;
/* what is subscribed, as the callers asked */
static struct { int on, owner, in, out; } want[NF];
/* what the kernel was told */
static struct { int on; uint32_t ev; uint64_t data; } got[NF];
static int turns; /* turns since the system was last asked */
static int faults = FAULTS, empty = EMPTY, polls = POLLS, told, last_fd, last_err, sys_ep = -1;

int env_epoll_ctl (int ep, int op, int fd, struct epoll_event *ev)
{
    int f = fd - FD0;
    if (f < 0 || f >= NF) { sys_ep = ep; return 0; } /* the timer's */
    told++;
    last_fd = f;
    ASSERT (ep == sys_ep, "registered somewhere else");
    if (faults > 0 && sym_decide ("ctl_fails")) { faults--; errno = last_err = sym_range ("ctl_errno", 1, 200); return -1; }
    last_err = 0;
    if (op == EPOLL_CTL_DEL) {
        if (!got[f].on) { errno = last_err = ENOENT; return -1; }
        got[f].on = 0;
        return 0;
    }
    ASSERT (op == EPOLL_CTL_ADD || op == EPOLL_CTL_MOD, "an unknown operation");
    if (op == EPOLL_CTL_ADD && got[f].on) { errno = last_err = EEXIST; return -1; }
    if (op == EPOLL_CTL_MOD && !got[f].on) { errno = last_err = ENOENT; return -1; }
    got[f].on = 1;
    got[f].ev = ev->events;
    got[f].data = ev->data.u64;
    return 0;
}
static void match (int f)
{
    uint32_t e = got[f].ev;
    ASSERT (got[f].on == want[f].on, "the subscription is not what was asked for");
    if (!want[f].on) return;
    ASSERT (!!(e & EPOLLIN) == want[f].in && !!(e & EPOLLOUT) == want[f].out, "other events than requested are subscribed");
    ASSERT (!(e & (EPOLLONESHOT | EPOLLEXCLUSIVE)), "the subscription does not last");
    ASSERT (!(e & ~(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLET)), "other events than requested are subscribed");
    ASSERT (e & EPOLLET, "an event is reported again and again");
}
static int any_runnable (void) { for (int i = 0; i < NT; i++) if (runnable[i]) return 1; return 0; }

static void event (struct epoll_event *ev, int f)
{
    uint32_t m = 0;
    /* what may be reported: what was asked for, errors and hang-ups */
    if (BIG) m = EPOLLIN;
    else {
        m = (uint32_t)sym_val ("reported", 5) & (EPOLLERR | EPOLLHUP | (want[f].in ? EPOLLIN : 0) | (want[f].out ? EPOLLOUT : 0));
        ASSUME (m != 0);
    }
    ev->events = m;
    ev->data.u64 = got[f].data;
    if (!t[want[f].owner].ended) runnable[want[f].owner] = 1;
}
int env_epoll_wait (int ep, struct epoll_event *ev, int max, int timeout)
{
    int n, live = 0, f[NF];
    ASSERT (ep == sys_ep && max > 0, "waits for something else");
    sym_access (ev, (uint64_t)max * sizeof (*ev));
    turns = 0;
    if (timeout < 0) ASSERT (!any_runnable (), "the system blocks although a task is runnable");
    ASSERT (timeout <= 0, "model: finite timeout");
    if (empty > 0 && (polls > 0 || timeout == 0) && sym_decide ("nothing")) {
        empty--;
        sym_cover ("nothing reported");
        if (sym_decide ("interrupted")) { errno = EINTR; return -1; }
        return 0;
    }
    for (int i = 0; i < NF; i++) if (got[i].on) f[live++] = i;
    if (polls <= 0 || !live) {
        if (timeout == 0) return 0;
        sym_end (); /* nobody will be woken: out of the bound */
    }
    if (timeout == 0 && !sym_decide ("events_already")) return 0;
    polls--;
    if (BIG && live > 1) {
        static const int sizes[] = { 2, 9, 64, 65, 255, 256, 257, 512, 1023, 1024 };
        int s = sizes[sym_choice ("batch_size", 10)];
        if (s > max) s = max;
        for (n = 0; n < s - 1; n++) event (&ev[n], f[0]);
        event (&ev[n++], f[1]);
        sym_cover ("large batch");
        return n;
    }
    n = sym_choice ("batch", BATCH < max ? BATCH : max) + 1;
    for (int i = 0; i < n; i++) event (&ev[i], f[sym_choice ("event_of", live)]);
    if (n > 1) sym_cover ("several events");
    return n;
}

static void waited (int me, int yielded)
{
    running = me;
    ASSERT (runnable[me] || yielded, "a task was resumed without an event of its descriptors");
    runnable[me] = 0;
}
static void act (int me)
{
    int k = ACT0 + sym_choice ("act", 6 - ACT0), f, o, r, e;
    switch (k) {
    case 0: case 1:
        f = sym_choice ("fd", NF);
        o = sym_choice ("for", NT);
        if (t[o].ended) return;
        e = (int)sym_u32 ("events");
        told = 0;
        last_err = -1;
        errno = 0;
        r = k == 0 ? hev_task_add_fd (t[o].t, FD0 + f, e) : hev_task_mod_fd (t[o].t, FD0 + f, e);
        ASSERT (told && last_fd == f, "the system was not told");
        ASSERT (r == 0 || r == -1, "an undocumented return value");
        ASSERT ((r == -1) == (last_err != 0), "the system's failure is not what is reported");
        if (r == -1) { ASSERT (errno == last_err, "the system's error was lost"); sym_cover ("registration failed"); }
        else {
            want[f].on = 1;
            want[f].owner = o;
            want[f].in = !!(e & POLLIN);
            want[f].out = !!(e & POLLOUT);
            sym_cover (k ? "changed" : "added");
        }
        match (f);
        break;
    case 2:
        f = sym_choice ("fd", NF);
        told = 0;
        last_err = -1;
        r = hev_task_del_fd (t[me].t, FD0 + f);
        ASSERT (told && last_fd == f, "the system was not told");
        ASSERT ((r == -1) == (last_err != 0) && r <= 0, "the system's failure is not what is reported");
        if (r == 0) { want[f].on = 0; sym_cover ("removed"); }
        match (f);
        break;
    case 3:
        runnable[me] = 1;
        hev_task_yield (HEV_TASK_YIELD);
        waited (me, 1);
        break;
    case 4:
        hev_task_yield (HEV_TASK_WAITIO);
        waited (me, 0);
        sym_cover ("resumed");
        break;
    case 5:
        o = sym_choice ("wake", NT);
        if (o == me || t[o].ended) return;
        hev_task_wakeup (t[o].t);
        runnable[o] = 1;
        sym_cover ("woken by a task");
        break;
    }
}
static void entry (void *p)
{
    int me = (int)(intptr_t)p;
    waited (me, 0);
    if (TAIL && me) {
        ASSERT (hev_task_add_fd (t[me].t, FD0 + me, POLLIN) == 0 || faults < FAULTS || want[me].on, "not registered");
        if (got[me].on && !want[me].on) { want[me].on = 1; want[me].owner = me; want[me].in = 1; want[me].out = 0; }
        match (me);
        hev_task_yield (HEV_TASK_WAITIO);
        waited (me, 0);
        sym_cover ("resumed");
    } else for (int i = 0; i < OPS; i++) act (me);
    /* an ended task has no subscriptions */
    for (int f = 0; f < NF; f++) {
        if (!want[f].on || want[f].owner != me) continue;
        faults = 0;
        ASSERT (hev_task_del_fd (t[me].t, FD0 + f) == 0, "a subscription could not be removed");
        want[f].on = 0;
        match (f);
    }
    runnable[me] = 0;
    t[me].ended = 1;
}
void harness (void)
{
    sys_init ();
    for (int i = 0; i < NT; i++) { spawn (&t[i], i, -1, entry, (void *)(intptr_t)i); runnable[i] = 1; }
    hev_task_system_run ();
    for (int i = 0; i < NT; i++) ASSERT (t[i].ended, "the system ended before its tasks");
    sym_cover ("ended");
    hev_task_system_fini ();
}

/* two tasks waiting, batches up to what the system asks for */
static void waiter (void *p)
{
    int me = (int)(intptr_t)p;
    waited (me, 0);
    ASSERT (hev_task_add_fd (t[me].t, FD0 + me, POLLIN) == 0, "not registered");
    want[me].on = 1;
    want[me].owner = me;
    want[me].in = 1;
    match (me);
    hev_task_yield (HEV_TASK_WAITIO);
    waited (me, 0);
    ASSERT (hev_task_del_fd (t[me].t, FD0 + me) == 0, "not removed");
    want[me].on = 0;
    t[me].ended = 1;
}
void big (void)
{
    sys_init ();
    for (int i = 0; i < NT; i++) { spawn (&t[i], i, -1, waiter, (void *)(intptr_t)i); runnable[i] = 1; }
    hev_task_system_run ();
    for (int i = 0; i < NT; i++) ASSERT (t[i].ended, "the system ended before its tasks");
    sym_cover ("ended");
}

/* tasks that keep running do not keep the system from asking for events */
static void busy (void *p)
{
    int me = (int)(intptr_t)p, since = 0;
    waited (me, 0);
    for (int n = 0; !t[0].ended; n++) {
        ASSERT (++turns <= 8, "events are not asked for while tasks run");
        since = runnable[0] ? since + 1 : 0;
        ASSERT (since <= 8, "a task whose event was reported is not resumed");
        COVER_IF (n > 2 && since, "busy");
        if (n > 11) sym_end (); /* no event: out of the bound */
        runnable[me] = 1;
        hev_task_yield (HEV_TASK_YIELD);
        waited (me, 1);
    }
    runnable[me] = 0;
    t[me].ended = 1;
}
void harness_busy (void)
{
    sys_init ();
    for (int i = 0; i < NT; i++) {
        spawn (&t[i], i, -1, i ? busy : waiter, (void *)(intptr_t)i);

        runnable[i] = 1;
    }
    hev_task_system_run ();
    for (int i = 0; i < NT; i++) ASSERT (t[i].ended, "the system ended before its tasks");
    sym_cover ("ended");
}
