/* C34: start-up and shut-down with failing steps. */
#include "tasks.h"
#include "hev-memory-allocator.h"

#ifndef FAULTS
#define FAULTS 1
#endif

static int ran;
static void body (void *p)
{
    ran += *(int *)p;
    hev_task_yield (HEV_TASK_YIELD);
    hev_task_sleep (1);
}
static void works (void)
{
    static int one = 1;
    HevTask *t = hev_task_new (-1);
    void *b = hev_malloc (100);
    ASSERT (t && b, "a started system does not work");
    hev_task_run (t, body, &one);
    ran = 0;
    hev_task_system_run ();
    ASSERT (ran == 1, "a started system does not run tasks");
    hev_free (b);
}
static void nothing_left (const char *when)
{
    ASSERT (env_nopen == 0, when);
    ASSERT (env_nmaps == 0, when);
    ASSERT (env_nblocks == 0, when);
    ASSERT (env_sigdepth == 0, when);
}
static char altstack[16];

void harness (void)
{
    int r, f, h1, h2, h3;
    h1 = sym_decide ("bus_handler");
    h2 = sym_decide ("segv_handler");
    h3 = sym_decide ("alt_stack");
    if (sym_decide ("no_stdin")) env_fd_low = 0;
    env_sig_preset (h1 ? &ran : NULL, h2 ? &ran : NULL, h3 ? altstack : NULL);
    for (int round = 0; round < 2; round++) {
        f = env_failed;
        if (round == 0) {
            env_fail_malloc = FAULTS;
            env_fail_fd = FAULTS;
            env_fail_misc = FAULTS;
        }
        r = hev_task_system_init ();
        env_fail_malloc = env_fail_fd = env_fail_misc = 0;
        ASSERT (r == 0 || r == -1, "initialisation result");
        if (r < 0) {
            ASSERT (env_failed > f, "initialisation failed without a reason");
            nothing_left ("a failed initialisation left something behind");
            sym_cover ("failed");
            continue;
        }
        ASSERT (env_handler[0] && env_handler[1] && env_altstack.ss_sp, "signal handling not set up");
        for (int i = 0; i < ENV_NFD; i++) if (env_is_open (i)) ASSERT (env_fd[i].cloexec, "a descriptor of the system is not closed on exec");
        works ();
        if (sym_decide ("init_again")) {
            void *b = hev_malloc (70);
            int n = env_nblocks, o = env_nopen;
            memset (b, 7, 70);
            ASSERT (hev_task_system_init () == -1, "a second initialisation succeeded");
            ASSERT (env_nblocks == n && env_nopen == o, "a refused initialisation acquired or released something");
            ASSERT (((char *)b)[69] == 7, "memory changed");
            hev_free (b);
            works ();
            sym_cover ("refused");
        }
        hev_task_system_fini ();
        nothing_left ("finalisation left something behind");
        sym_cover ("finalised");
    }
}
