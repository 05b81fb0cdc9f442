/* C06: tasks running every short program over one mutex. */
#include "tasks.h"
#include "hev-task-mutex.h"

#ifndef NT
#define NT 3
#endif
#ifndef OPS
#define OPS 8
#endif

static T t[NT];
static HevTaskMutex mx;
static int holder = -1, budget = OPS, waiting[NT];

static void take (int me, const char *msg)
{
    ASSERT (holder == -1, msg);
    holder = me;
}

static void body (void *p)
{
    int me = (int)(intptr_t)p;
    for (int own = 0; budget > 0 && own < 4; own++) {
        int c = sym_choice ("op", 4);
        budget--;
        switch (c) {
        case 0:
            if (holder == me) {
                holder = -1;
                hev_task_mutex_unlock (&mx);
            } else {
                int contended = holder >= 0;
                waiting[me] = 1;
                ASSERT (hev_task_mutex_lock (&mx) == 0, "lock result");
                waiting[me] = 0;
                take (me, "two tasks hold the mutex");
                if (contended) sym_cover ("waited for the mutex");
            }
            break;
        case 1:
            if (holder == me) {
                ASSERT (hev_task_mutex_trylock (&mx) == -1, "try-lock of a held mutex succeeded");
            } else {
                int h = holder, r = hev_task_mutex_trylock (&mx);
                ASSERT ((r == 0) == (h == -1), "try-lock result does not tell whether the mutex was free");
                ASSERT (r == 0 || r == -1, "try-lock result");
                ASSERT (h == holder, "try-lock let another task run");
                if (r == 0) {
                    for (int i = 0; i < NT; i++) if (waiting[i]) sym_cover ("try-lock overtakes a waiter");
                    take (me, "two tasks hold the mutex");
                }
            }
            break;
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3: {
            int w = sym_choice ("target", NT - 1);
            if (w >= me) w++;
            if (waiting[w]) sym_cover ("stray wake of a waiter");
            stray_wake (&t[w]);
            break;
        }
        }
    }
    if (holder == me) {
        holder = -1;
        hev_task_mutex_unlock (&mx);
    }
    t[me].ended = 1;
}

void harness (void)
{
    sys_init ();
    hev_task_mutex_init (&mx);
    for (int i = 0; i < NT; i++) {
#ifdef PRIO
        int p = i ? some_prio ("priority") : 8;
#else
        int p = -1;
#endif
        spawn (&t[i], i, p, body, (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    for (int i = 0; i < NT; i++) ASSERT (t[i].ended, "run returned with a task left");
    ASSERT (holder == -1, "holder at the end");
    ASSERT (hev_task_mutex_trylock (&mx) == 0, "mutex not free at the end");
    sym_cover ("all ended");
    hev_task_system_fini ();
}
