/* Threads as coroutines: another one may go on wherever point () is called. */
#ifndef COOP_H
#define COOP_H
#include "env.h"

#define NTH 6
enum { RUN, ON_LOCK, ON_COND, ON_EPOLL, ON_POLL, ON_MORE, ENDED };
static struct { int co, st, arg, ev, signalled; void *obj; void *(*fn) (void *); void *data; } th[NTH];
static int nth = 1, preempts, points_on;

static int self (void)
{
    int c = sym_coro_current ();
    for (int i = 0; i < nth; i++) if (th[i].co == c) return i;
    sym_fail ("model: unknown thread");
}
static int more_can_run (int i);   /* those blocked with ON_MORE, given by the harness */
static int can_run (int i)
{
    switch (th[i].st) {
    case RUN: return 1;
    case ON_LOCK: return *(int *)th[i].obj == 0;
    case ON_COND: return th[i].signalled;
    case ON_EPOLL:
        for (int k = 0; k < ENV_NREG; k++) if (env_reg[k].used && env_reg[k].epfd == th[i].arg && env_reg[k].pend) return 1;
        for (int k = 0; k < ENV_NREG; k++)
            if (env_reg[k].used && env_reg[k].epfd == th[i].arg && env_fd[env_reg[k].fd].arm_out && (env_ready (env_reg[k].fd) & EPOLLOUT)) return 1;
        return 0;
    case ON_POLL: return (env_ready (th[i].arg) & th[i].ev) != 0;
    case ON_MORE: return more_can_run (i);
    }
    return 0;
}
static int ready_others (int me)
{
    int c = 0;
    for (int i = 0; i < nth; i++) if (i != me && can_run (i)) c++;
    return c;
}
static void go_to (int me, int k)
{
    for (int i = 0; i < nth; i++)
        if (i != me && can_run (i) && k-- == 0) { sym_coro_switch (th[i].co); return; }
}
static void point (void)
{
    int me = self (), c, k;
    if (!points_on || preempts <= 0) return;
    c = ready_others (me);
    if (!c) return;
    k = sym_choice ("switch", c + 1);
    if (!k) return;
    preempts--;
    go_to (me, k - 1);
}
static void block (int st, int arg, void *obj)
{
    int me = self ();
    th[me].st = st;
    th[me].arg = arg;
    th[me].obj = obj;
    while (!can_run (me)) {
        int c = ready_others (me);
        if (!c) sym_fail ("every thread waits and nothing can wake one");
        go_to (me, sym_choice ("next", c));
    }
    th[me].st = RUN;
}
static void leave (void)
{
    int me = self (), c;
    th[me].st = ENDED;
    c = ready_others (me);
    if (!c) sym_fail ("every thread waits and nothing can wake one");
    go_to (me, sym_choice ("next", c));
    sym_fail ("model: an ended thread went on");
}
static void *th_entry (void *p)
{
    int me = (int)(intptr_t)p;
    th[me].fn (th[me].data);
    leave ();
    return NULL;
}
static int th_new (void *(*fn) (void *), void *data)
{
    int i = nth++;
    if (i >= NTH) sym_fail ("model: threads");
    th[i].fn = fn;
    th[i].data = data;
    th[i].st = RUN;
    th[i].co = sym_coro_new (th_entry, (void *)(intptr_t)i);
    return i;
}
#endif
