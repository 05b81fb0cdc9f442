/* C04: joining a task in every phase of its life, by several tasks, repeatedly. */
#include "tasks.h"

#ifndef NJ
#define NJ 2
#endif
#ifndef OPS
#define OPS 6
#endif

static T j[NJ];
static HevTask *tg;
static int started, ended, budget = OPS, joining[NJ], ends_at[NJ], was_up[NJ];

static void target (void *p)
{
    int n = sym_choice ("target_turns", 3);
    (void)p;
    for (int i = 0; i < n; i++) hev_task_yield (HEV_TASK_YIELD);
    switch (sym_choice ("target_end", 3)) {
    case 0:
        ended++;
        return;
    case 1:
        ended++;
        sym_cover ("ended by exit");
        hev_task_exit ();
    case 2:
        hev_task_sleep (5);
        ended++;
    }
}
static void start (void)
{
    if (started != ended) return;
    if (started) sym_cover ("started again");
    started++;
    hev_task_ref (tg);
    hev_task_run (tg, target, NULL);
}
static void joiner (void *p)
{
    int me = (int)(intptr_t)p;
    while (budget > 0) {
        budget--;
        switch (sym_choice ("op", 4)) {
        case 0: {
            int r, k, other = 0, up = started != ended, pend = 0;
            for (k = 0; k < NJ; k++) {
                if (!joining[k]) continue;
                other++;
                /* it stands in a join whose task has ended meanwhile */
                if (ended != ends_at[k]) pend = 1;
            }
            if (up) sym_cover ("join of a running task");
            else if (started) sym_cover ("join of an ended task");
            else sym_cover ("join of a task not started");
            joining[me] = 1;
            ends_at[me] = ended;
            r = hev_task_join (tg);
            joining[me] = 0;
            if (r == 0) {
                ASSERT (!other || pend, "a second join was accepted");
                ASSERT (!up || ended != ends_at[me], "join returned zero before the task ended");
                sym_cover ("joined");
            } else {
                ASSERT (r == -1, "join result");
                ASSERT (other, "join failed though nobody else was joining");
                ASSERT (ended == ends_at[me], "the refused join waited");
                sym_cover ("second join");
            }
            break;
        }
        case 1:
            start ();
            break;
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3: {
            int k = sym_choice ("which", NJ);
            if (joining[k]) sym_cover ("stray wake of a joining task");
            stray_wake (&j[k]);
            break;
        }
        }
    }
    j[me].ended = 1;
}

void harness (void)
{
    sys_init ();
    tg = hev_task_new (-1);
    if (sym_decide ("start_first")) start ();
    for (int i = 0; i < NJ; i++) spawn (&j[i], i, -1, joiner, (void *)(intptr_t)i);
    hev_task_system_run ();
    for (int i = 0; i < NJ; i++) ASSERT (j[i].ended, "a joining task never came back");
    ASSERT (started == ended, "the target did not end");
    hev_task_unref (tg);
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0 && env_nmaps == 0, "memory left");
    sym_cover ("ended");
}
