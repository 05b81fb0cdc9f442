/* C03: waits and wake-ups in every short history. */
#include "tasks.h"

#ifndef NT
#define NT 3
#endif
#ifndef OPS
#define OPS 7
#endif

static T t[NT];
static int waiting[NT], woken[NT], budget = OPS, nlive;
static int q[2 * NT + 2], qn;     /* runnable tasks in the order of their turns */
static int g[2 * NT + 2], batch, polled; /* those woken by one poll have no order among them */
static int fds[NT], evented;

static void qadd (int i) { g[qn] = polled ? polled : --batch; q[qn++] = i; }
static void mark (int i)
{
    if (!waiting[i] || woken[i]) {
        sym_cover (waiting[i] ? "woken twice" : "runnable woken");
        return;
    }
    woken[i] = 1;
    qadd (i);
}
static void turn (int me)
{
    ASSERT (!waiting[me] || woken[me], "a waiting task resumed that nobody woke");
    waiting[me] = woken[me] = 0;
    int at = 0;
    while (at < qn && q[at] != me && g[at] == g[0]) at++;
    ASSERT (at < qn && q[at] == me && g[at] == g[0], "a wake-up changed the order of turns");
    for (int i = at + 1; i < qn; i++) { q[i - 1] = q[i]; g[i - 1] = g[i]; }
    qn--;
}
static void body (void *p)
{
    int me = (int)(intptr_t)p;
    turn (me);
    hev_task_add_fd (t[me].t, fds[me], POLLIN);
    while (budget > 0) {
        int i;
        budget--;
        switch (sym_choice ("op", 4)) {
        case 0:
            waiting[me] = 1;
            hev_task_yield (HEV_TASK_WAITIO);
            turn (me);
            break;
        case 1:
            qadd (me);
            hev_task_yield (HEV_TASK_YIELD);
            turn (me);
            break;
        case 2:
            i = sym_choice ("which", NT);
            if (t[i].ended) break;
            mark (i);
            hev_task_wakeup (t[i].t);
            break;
        case 3:
            /* the outside world makes two tasks' descriptors ready */
            i = sym_choice ("which", NT);
            for (int k = 0; k < 2; k++, i = (i + 1) % NT) {
                if (t[i].ended || !env_registered (fds[i]) || (evented >> i & 1)) continue;
                evented |= 1 << i;
                env_fire (fds[i], EPOLLIN);
            }
            break;
        }
    }
    hev_task_del_fd (t[me].t, fds[me]);
    evented &= ~(1 << me);
    t[me].ended = 1;
    nlive--;
}
/* what an epoll_wait is going to report: those tasks get woken */
void env_hook_poll (int timeout)
{
    static int polls;
#ifdef INTR
    static int interrupted;
    env_eintr_now = 0;
    if (interrupted < INTR && sym_decide ("interrupted")) {
        interrupted++;
        env_eintr_now = 1;
        sym_cover ("interrupted");
        return;
    }
#endif
    if (timeout == 0 && nlive == qn) return;
    polled = ++polls;
    for (int k = 0; k < NT; k++) {
        EnvReg *b = NULL;
        int i;
        for (int j = 0; j < ENV_NREG; j++) {
            EnvReg *r = &env_reg[j];
            if (!r->used || !r->pend) continue;
            for (i = 0; i < NT; i++) if (r->fd == fds[i] && (evented >> i & 1)) if (!b || r->seq < b->seq) b = r;
        }
        if (!b) break;
        for (i = 0; i < NT; i++) if (b->fd == fds[i]) break;
        evented &= ~(1 << i);
        sym_cover ("event");
        mark (i);
    }
    polled = 0;
}
void env_hook_idle (void)
{
    ASSERT (qn == 0, "a woken task was not resumed");
    /* nobody runs and nothing was woken: end the story by an event for each */
    sym_cover ("all wait");
    budget = 0;
    polled = 1 << 20;
    for (int i = 0; i < NT; i++) if (!t[i].ended) { mark (i); env_fire (fds[i], EPOLLIN); }
    polled = 0;
}

void harness (void)
{
    sys_init ();
    for (int i = 0; i < NT; i++) {
        nlive++;
        fds[i] = env_stream (NULL, 0, 0, 0);
        qadd (i);
        spawn (&t[i], i, -1, body, (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    ASSERT (nlive == 0, "run returned with a task left");
    sym_cover ("ended");
}
