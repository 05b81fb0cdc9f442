/* C13: several sleepers with symbolic deadlines, others waking them, time passing. */
#include "tasks.h"

#ifndef NS
#define NS 3
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef LINGER
#define LINGER 0
#endif
#ifndef NANO
#define NANO 0                 /* passing before each sleep */
#endif
#ifndef BUSY
#define BUSY 0                 /* tasks that keep running */
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif

static T s[NS], d;
static int64_t dl[NS];         /* deadline, in ns since the start */
static int asleep[NS], woken[NS], due[NS];
static int64_t adv;            /* the clock after the latest advance */
static int late_allowed, lingers[NS];

static int64_t now (void) { return (env_sec - 1000) * 1000000000 + env_nsec; }

static void sleeper (void *p)
{
    T *t = p;
    int i = t->id;
    for (int r = 0; r < ROUNDS; r++) {
        unsigned us = (unsigned)sym_val ("us", 5);
        int64_t n;
        if (r == 0 && sym_decide ("later")) hev_task_yield (HEV_TASK_YIELD);
        if (NANO) { env_advance (0, NANO); adv = now (); }
        woken[i] = 0;
        due[i] = 0;
        dl[i] = now () + (int64_t)us * 1000;
        asleep[i] = 1;
        hev_task_usleep (us);
        asleep[i] = 0;
        n = now ();
        if (woken[i]) {
            sym_cover ("woken early");
            continue;
        }
        ASSERT (n >= dl[i], "a sleeper resumed before its deadline");
        ASSERT (n <= (dl[i] > adv ? dl[i] : adv) + late_allowed, "a sleeper resumed late");
        sym_cover ("slept");
    }
    /* a task that waits for something else is no business of the timer's */
    if (LINGER && sym_decide ("linger")) {
        lingers[i] = 1;
        hev_task_yield (HEV_TASK_WAITIO);
        ASSERT (lingers[i] == 2, "a timer resumed a task that does not sleep");
        sym_cover ("lingered");
    }
    t->ended = 1;
}
static void driver (void *p)
{
    (void)p;
    for (int k = 0; k < OPS; k++) {
        int op = sym_choice ("op", 3);
        if (op == 0) {
            env_advance (0, (int64_t)sym_val ("pass", 5) * 1000);
            adv = now ();
            /* every sleeper whose time has passed resumes within a few turns */
            for (int i = 0; i < NS; i++) due[i] = asleep[i] && dl[i] <= adv;
            for (int j = 0; j < 3 * NS + 2; j++) hev_task_yield (HEV_TASK_YIELD);
            for (int i = 0; i < NS; i++) {
                ASSERT (!(due[i] && asleep[i] && dl[i] <= adv), "a sleeper whose time has passed was not woken");
                if (due[i]) sym_cover ("due");
            }
        } else if (op == 1) {
            int i = sym_choice ("who", NS);
            if (!s[i].ended && asleep[i]) {
                woken[i] = 1;
                hev_task_wakeup (s[i].t);
            }
            hev_task_yield (HEV_TASK_YIELD);
        } else {
            /* let time pass by itself */
            int64_t n = now () + 3000;
            hev_task_usleep (3);
            ASSERT (now () >= n, "the driver resumed early");
            ASSERT (now () <= n + late_allowed, "the driver resumed late");
        }
    }
    for (int left = LINGER; left;) {
        left = 0;
        for (int i = 0; i < NS; i++) {
            if (s[i].ended) continue;
            left = 1;
            if (lingers[i] != 1) continue;
            lingers[i] = 2;
            hev_task_wakeup (s[i].t);
        }
        hev_task_yield (HEV_TASK_YIELD);
        if (left) hev_task_usleep (40);
    }
    d.ended = 1;
}
/* tasks that never wait, while time passes */
static T b[BUSY + 1];
static void busy (void *p)
{
    T *t = p;
    int left = 1, over[NS] = { 0 };
    for (int n = 0; left; n++) {
        left = !d.ended;
        for (int i = 0; i < NS; i++) {
            if (!s[i].ended) left = 1;
            if (asleep[i] && dl[i] <= now ()) ASSERT (++over[i] < 8, "a sleeper whose time has passed was not woken while others ran");
            else over[i] = 0;
        }
        if (t == &b[0]) { env_advance (0, 9000); adv = now (); }
        ASSERT (n < 200, "the tasks do not end");
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness (void)
{
    sys_init ();
    for (int i = 0; i < NS; i++) spawn (&s[i], i, -1, sleeper, &s[i]);
    spawn (&d, NS, -1, driver, NULL);
    for (int i = 0; i < BUSY; i++) spawn (&b[i], NS + 1 + i, -1, busy, &b[i]);
    if (BUSY) late_allowed = 100000;
    hev_task_system_run ();
    for (int i = 0; i < NS; i++) ASSERT (s[i].ended, "a sleeper never ended");
    ASSERT (d.ended, "the driver never ended");
    sym_cover ("ended");
}
