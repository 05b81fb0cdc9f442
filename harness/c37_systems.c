/* C37: systems in two threads.  Threads are coroutines; another may go on at
 * every system call that has a hook and wherever a task does something. */
#include <pthread.h>
#include "tasks.h"
#include "hev-memory-allocator.h"
#include "coop.h"

#define NSYS 2
#ifndef NT
#define NT 2                   /* tasks of each system */
#endif
#ifndef OPS
#define OPS 3                  /* actions of the tasks of each system */
#endif
#ifndef PREEMPT
#define PREEMPT 2
#endif

typedef struct { T t; int s, waits; } X;
static X x[NSYS][NT];
static int budget[NSYS], live[NSYS], running[NSYS], pipe_fd[NSYS], given[NSYS], finished;

static int more_can_run (int i) { (void)i; return 1; }
void env_hook_poll (int timeout) { (void)timeout; point (); }
void env_hook_malloc (size_t n) { (void)n; point (); }
void env_hook_clock (void) { point (); }
void env_hook_idle (void)
{
    int s = self ();
    /* all tasks of this system wait for the byte of the other */
    for (int i = 0; i < NT; i++) ASSERT (x[s][i].t.ended || x[s][i].waits, "a system waits though one of its tasks can go on");
    if (!running[!s] || th[!s].st == ON_EPOLL) {
        /* it is not coming: give it */
        given[s] = 1;
        env_fire (pipe_fd[s], EPOLLIN);
        return;
    }
    sym_cover ("waits for the other system");
    block (ON_EPOLL, env_wait_ep, NULL);
}
static void here (X *p)
{
    ASSERT (self () == p->s, "a task runs in the thread of another system");
    ASSERT (hev_task_self () == p->t.t, "the running task is not the one that runs");
    ASSERT (running[p->s], "a task runs though its system does not");
}
static void task (void *d)
{
    X *p = d;
    here (p);
    while (budget[p->s] > 0) {
        int64_t sec, nsec;
        unsigned char *m;
        budget[p->s]--;
        switch (sym_choice ("op", 4)) {
        case 0:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 1:
            sec = env_sec;
            nsec = env_nsec;
            ASSERT (hev_task_sleep (3) == 0, "a sleep ended early");
            ASSERT ((env_sec - sec) * 1000000000 + (env_nsec - nsec) >= 3000000, "a sleep ended early");
            sym_cover ("slept");
            break;
        case 2:
            m = hev_malloc (24);
            ASSERT (m != NULL, "no memory without a fault");
            memset (m, 0x30 + p->s, 24);
            hev_task_yield (HEV_TASK_YIELD);
            for (int i = 0; i < 24; i++) ASSERT (m[i] == 0x30 + p->s, "memory of a task changed");
            hev_free (m);
            break;
        case 3:
            if (p->t.id == 0 && !given[p->s]) {
                ASSERT (hev_task_add_fd (p->t.t, pipe_fd[p->s], POLLIN) == 0, "descriptor not accepted");
                p->waits = 1;
                while (!given[p->s]) hev_task_yield (HEV_TASK_WAITIO);
                p->waits = 0;
                hev_task_del_fd (p->t.t, pipe_fd[p->s]);
                sym_cover ("waited");
            } else {
                given[!p->s] = 1;
                env_fire (pipe_fd[!p->s], EPOLLIN);
                point ();
            }
            break;
        }
        here (p);
    }
    p->t.ended = 1;
    live[p->s]--;
}
static void *thread (void *d)
{
    int s = (int)(intptr_t)d;
    budget[s] = OPS;
    sys_init ();
    ASSERT (hev_task_self () == NULL, "a task runs before any was started");
    running[s] = 1;
    for (int i = 0; i < NT; i++) {
        x[s][i].s = s;
        live[s]++;
        spawn (&x[s][i].t, i, -1, task, &x[s][i]);
    }
    hev_task_system_run ();
    running[s] = 0;
    for (int i = 0; i < NT; i++) ASSERT (x[s][i].t.ended, "the system ended before its tasks");
    /* who waits for a byte from here gets it */
    given[!s] = 1;
    env_fire (pipe_fd[!s], EPOLLIN);
    point ();
    hev_task_system_fini ();
    if (running[!s]) sym_cover ("finished while the other runs");
    finished++;
    return NULL;
}
void harness (void)
{
    int blocks, open;
    for (int s = 0; s < NSYS; s++) pipe_fd[s] = env_stream (NULL, 0, 0, 0);
    blocks = env_nblocks;
    open = env_nopen;
    preempts = PREEMPT;
    points_on = 1;
    th_new (thread, (void *)(intptr_t)1);
    th[0].st = RUN;
    thread (NULL);
    while (th[1].st != ENDED) {
        ASSERT (can_run (1), "a system waits for good");
        th[0].st = RUN;
        sym_coro_switch (th[1].co);
    }
    ASSERT (finished == NSYS, "a system did not end");
    ASSERT (env_nopen == open, "a descriptor is left");
    ASSERT (env_nblocks == blocks, "memory is left");
    sym_cover ("ended");
}
