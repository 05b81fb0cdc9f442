/* C07/C08: waiters and a signaller running every short program. */
#include "tasks.h"
#include "hev-task-cond.h"
#include "hev-task-mutex.h"

#ifndef NW
#define NW 3          /* waiting tasks */
#endif
#ifndef OPS
#define OPS 5         /* actions of the signalling task */
#endif
#ifndef TIMED
#define TIMED 0       /* 1: waits are timed or untimed */
#endif

static T w[NW], drv;
static HevTaskMutex mx;
static HevTaskCond cv;
static int holder = -1;
static int inwait[NW];    /* called wait, has not returned */
static int timed[NW];
static int strays[NW];    /* times resumed by a stray wake-up */
static int tokens;        /* releases granted and not yet consumed */
static int inq;           /* tasks waiting that no signal has released */
static int returned, timeouts;
static int64_t t0s[NW], t0n[NW];
static int ms[NW];

static void lock (int me)
{
    hev_task_mutex_lock (&mx);
    ASSERT (holder == -1, "two tasks hold the mutex");
    holder = me;
}
static void unlock (int me)
{
    ASSERT (holder == me, "mutex lost");
    holder = -1;
    hev_task_mutex_unlock (&mx);
}
static int64_t elapsed_us (int me) { return (env_sec - t0s[me]) * 1000000 + (env_nsec - t0n[me]) / 1000; }

static void waiter (void *p)
{
    int me = (int)(intptr_t)p, r;
    lock (me);
    inwait[me] = 1;
    inq++;
    holder = -1;
    t0s[me] = env_sec;
    t0n[me] = env_nsec;
    r = timed[me] ? hev_task_cond_timedwait (&cv, &mx, ms[me]) : hev_task_cond_wait (&cv, &mx);
    ASSERT (holder == -1, "wait returned without the mutex");
    ASSERT (hev_task_mutex_trylock (&mx) == -1, "wait returned with the mutex not locked");
    holder = me;
    inwait[me] = 0;
    if (r == 0) {
        ASSERT (tokens > 0, "wait returned zero without a signal");
        tokens--;
        returned++;
        sym_cover ("released");
    } else {
        ASSERT (timed[me], "untimed wait failed");
        ASSERT (r == -1, "timed wait result");
        ASSERT (inq > 0, "a waiter timed out though a signal had released it");
        inq--;
        timeouts++;
        ASSERT (elapsed_us (me) >= (int64_t)ms[me] * 1000, "timed wait gave up too early");
        sym_cover ("timed out");
        if (inq > 0) sym_cover ("timed out with others waiting");
    }
    unlock (me);
    w[me].ended = 1;
}

static void quiesce (void)
{
    for (int i = 0; i < 3 * NW + 2; i++) hev_task_yield (HEV_TASK_YIELD);
}

static void signaller (void *p)
{
    int before;
    for (int k = 0; k < OPS; k++) {
        switch (sym_choice ("act", TIMED ? 5 : 4)) {
        case 0:
            if (inq > 0) { inq--; tokens++; }
            else sym_cover ("signal with nobody waiting");
            hev_task_cond_signal (&cv);
            break;
        case 1:
            if (inq > 1) sym_cover ("broadcast to several");
            tokens += inq;
            inq = 0;
            hev_task_cond_broadcast (&cv);
            break;
        case 2:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 3: {
            int i = sym_choice ("target", NW);
            if (!inwait[i]) break;
            if (w[i].started && !w[i].ended) { strays[i]++; sym_cover ("stray wake-up"); }
            stray_wake (&w[i]);
            break;
        }
        case 4:
            /* time passes while others run, or the signaller sleeps */
            if (sym_decide ("sleep")) hev_task_sleep (2);
            else env_advance (0, 1600000);
            break;
        }
    }
    /* nobody was lost: each signal releases one more waiter, until none is left */
    quiesce ();
    for (int i = 0; i <= NW; i++) {
        ASSERT (tokens == 0, "a signal released nobody");
        if (inq == 0) break;
        before = returned;
        inq--;
        tokens++;
        hev_task_cond_signal (&cv);
        quiesce ();
        ASSERT (returned == before + 1, "a waiting task was not reached by a signal");
    }
    hev_task_cond_signal (&cv);
    hev_task_cond_broadcast (&cv);
    quiesce ();
    for (int i = 0; i < NW; i++) ASSERT (w[i].ended, "a waiter never returned");
}

void harness (void)
{
    sys_init ();
    hev_task_mutex_init (&mx);
    hev_task_cond_init (&cv);
    for (int i = 0; i < NW; i++) {
        timed[i] = TIMED ? sym_decide ("timed") : 0;
        ms[i] = timed[i] ? 1 + sym_choice ("ms", 3) : 0;
        spawn (&w[i], i, -1, waiter, (void *)(intptr_t)i);
    }
    spawn (&drv, NW, -1, signaller, NULL);
    hev_task_system_run ();
    ASSERT (returned + timeouts == NW, "every waiter returned once");
    sym_cover ("all ended");
}
