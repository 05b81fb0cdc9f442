/* C01: starts, restarts, early exits and ends of tasks in every short history. */
#include "tasks.h"

#ifndef NT
#define NT 3
#endif
#ifndef OPS
#define OPS 6
#endif

typedef struct { int started, entered, ended, waiting; void *data; } R;
static HevTask *t[NT];
static R r[NT];
static int budget, nlive, exits, cells[2 * NT + 2];

static void body (void *p);
static void other (void *p) { (void)p; sym_fail ("a start of a started task replaced its entry"); }

static void start (int i)
{
    if (r[i].started == r[i].ended) {
        void *d = r[i].started & 1 ? NULL : &cells[(r[i].started & 2) / 2 * NT + i];
        if (r[i].ended) sym_cover ("started again");
        hev_task_ref (t[i]);
        r[i].started++;
        r[i].data = d;
        nlive++;
        hev_task_run (t[i], body, d);
    } else {
        sym_cover ("start of a started task");
        hev_task_run (t[i], other, &cells[2 * NT]);
        ASSERT (hev_task_get_data (t[i]) == r[i].data, "a start of a started task replaced its data");
    }
}
static void done (int i)
{
    r[i].ended++;
    nlive--;
}

static void body (void *p)
{
    int me = 0;
    while (me < NT && hev_task_self () != t[me]) me++;
    ASSERT (me < NT, "self is another task");
    ASSERT (p == r[me].data, "the entry got other data");
    ASSERT (hev_task_get_data (t[me]) == p, "data of the task");
    r[me].entered++;
    ASSERT (r[me].entered == r[me].started, "the entry was called more than once for a start");
    while (budget > 0) {
        budget--;
        switch (sym_choice ("op", 6)) {
        case 0:
            start (sym_choice ("which", NT));
            break;
        case 1:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 2:
            done (me);
            hev_task_exit ();
            sym_fail ("exit returned");
        case 3:
            done (me);
            return;
        case 4:
            r[me].waiting = 1;
            hev_task_yield (HEV_TASK_WAITIO);
            r[me].waiting = 0;
            break;
        case 5: {
            int i = sym_choice ("which", NT);
            if (r[i].started != r[i].ended) hev_task_wakeup (t[i]);
            break;
        }
        }
        ASSERT (hev_task_self () == t[me], "another task's context resumed");
    }
    /* let the others go */
    for (int i = 0; i < NT; i++) if (r[i].waiting) hev_task_wakeup (t[i]);
    done (me);
    if (exits) hev_task_exit ();
}

/* all wait: the outside world wakes one */
static int fd;
void env_hook_idle (void)
{
    sym_cover ("all waited");
    env_fire (fd, EPOLLIN);
}
static void ender (void *p)
{
    (void)p;
    hev_task_add_fd (hev_task_self (), fd, POLLIN);
    while (nlive) {
        for (int i = 0; i < NT; i++) if (r[i].waiting) hev_task_wakeup (t[i]);
        hev_task_yield (nlive ? HEV_TASK_WAITIO : HEV_TASK_YIELD);
    }
    hev_task_del_fd (hev_task_self (), fd);
}

void harness (void)
{
    HevTask *e;
    sys_init ();
    exits = sym_decide ("exit_at_end");
    fd = env_stream (NULL, 0, 0, 0);
    for (int round = 0; round < 2; round++) {
        budget = OPS;
        for (int i = 0; i < NT; i++) {
            if (!t[i]) t[i] = hev_task_new (-1);
            ASSERT (t[i], "task not created without a fault");
        }
        if (round == 0) {
            start (0);
            if (sym_decide ("start1")) start (1);
        } else {
            int again = 0;
            budget = 0;
            for (int i = 0; i < NT; i++) if (r[i].started > r[again].started) again = i;
            start (again);
        }
        e = hev_task_new (-1);
        hev_task_run (e, ender, NULL);
        hev_task_system_run ();
        for (int i = 0; i < NT; i++) {
            ASSERT (r[i].ended == r[i].started, "run returned with a started task left");
            ASSERT (r[i].entered == r[i].started, "a started task never ran");
            ASSERT (hev_task_get_state (t[i]) == HEV_TASK_STOPPED, "an ended task is not stopped");
        }
        if (round) sym_cover ("ran twice");
    }
    /* with nothing started, run returns at once */
    hev_task_system_run ();
    for (int i = 0; i < NT; i++) hev_task_unref (t[i]);
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0 && env_nmaps == 0, "memory left");
}
