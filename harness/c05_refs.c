/* C05: references, task ends and failing allocations in every short history. */
#include "tasks.h"

#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 5
#endif
#ifndef FAULTS
#define FAULTS 0
#endif

static HevTask *t[NT];
static int refs[NT], up[NT], budget, base_maps;

static void drop (int i)
{
    refs[i]--;
    hev_task_unref (t[i]);
}
static void check (void)
{
    int n = 0;
    for (int i = 0; i < NT; i++) {
        if (!t[i]) continue;
        if (refs[i] > 0) {
            ASSERT (sym_is_live (t[i]), "a task was released while referenced");
            n++;
        } else {
            ASSERT (!sym_is_live (t[i]), "a task was kept though nobody references it");
            sym_cover ("released");
            t[i] = NULL;
        }
    }
    ASSERT (env_nmaps - base_maps == n, "stacks do not match the live tasks");
}
static void body (void *p)
{
    int me = (int)(intptr_t)p;
    volatile char deep[200];
    while (budget > 0) {
        int i;
        budget--;
        i = sym_choice ("which", NT);
        switch (sym_choice ("op", 6)) {
        case 0:
            if (refs[i] <= 0) {
                int b = env_nblocks, m = env_nmaps, f = env_failed;
                check ();
                t[i] = hev_task_new (-1);
                if (t[i]) {
                    refs[i] = 1;
                    up[i] = 0;
                } else {
                    ASSERT (env_failed > f, "no task though nothing failed");
                    ASSERT (env_nblocks == b && env_nmaps == m, "a failed creation left something behind");
                    sym_cover ("creation failed");
                }
            }
            break;
        case 1:
            if (refs[i] > 0) { ASSERT (hev_task_ref (t[i]) == t[i], "ref result"); refs[i]++; }
            break;
        case 2:
            /* a running task's own reference belongs to the system */
            if (refs[i] > (up[i] ? 1 : 0)) drop (i);
            break;
        case 3:
            if (refs[i] > 0 && !up[i]) { up[i] = 1; hev_task_run (t[i], body, (void *)(intptr_t)i); }
            break;
        case 4:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 5:
            if (me >= 0) goto out;
            break;
        }
        deep[budget] = 1;
        check ();
    }
out:
    if (me >= 0) {
        up[me] = 0;
        refs[me]--;       /* dropped by the system when it ends */
        if (refs[me] == 0) sym_cover ("ended with the last reference");
    }
}

void harness (void)
{
    HevTask *m;
    sys_init ();
    budget = OPS;
    m = hev_task_ref (hev_task_new (-1));
    base_maps = env_nmaps;
    env_fail_malloc = FAULTS;
    env_fail_mmap = FAULTS;
    hev_task_run (m, body, (void *)(intptr_t)-1);
    hev_task_system_run ();
    env_fail_malloc = env_fail_mmap = 0;
    hev_task_unref (m);
    base_maps = 0;
    check ();
    for (int i = 0; i < NT; i++) while (refs[i] > 0) drop (i);
    check ();
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0, "memory left after the end");
    ASSERT (env_nmaps == 0, "a mapping left after the end");
    ASSERT (env_nopen == 0, "a descriptor left after the end");
    ASSERT (env_sigdepth == 0, "signal handling left changed");
    sym_cover ("ended");
}
