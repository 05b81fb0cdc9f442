/* C02: turns of runnable tasks against their priority values. */
#include "tasks.h"

#ifndef TURNS
#define TURNS 14
#endif
#ifndef NT
#define NT 2
#endif
#define LOW 15

static T t[NT + 1];
static int64_t p[NT + 1];      /* priority value counted for each turn */
static int64_t v[NT + 1][NT + 1]; /* v[i][j]: weighted turns of i since i and j are both runnable */
static int64_t slack[NT + 1];
static int live[NT + 1], turns, stop;

static void both_reset (int i)
{
    for (int j = 0; j < NT + 1; j++) v[i][j] = v[j][i] = 0;
}
static void turn (int me)
{
    if (stop) return;
    for (int j = 0; j < NT + 1; j++) {
        if (j == me || !live[j]) continue;
        v[me][j] += p[me];
        /* after a turn of me, me is ahead of j by no more than one turn of each */
        ASSERT (v[me][j] <= v[j][me] + p[j] + p[me] + slack[me] + slack[j], "a task got more turns than its priority allows");
    }
    if (++turns >= TURNS) stop = 1;
}
static void body (void *d)
{
    int me = (int)(intptr_t)d;
    while (!stop) {
        turn (me);
        hev_task_yield (HEV_TASK_YIELD);
    }
}

/* all tasks start together, any priorities: exact bound */
static void exact (void *d)
{
    int me = (int)(intptr_t)d;
    while (!stop) {
        for (int j = 0; j < NT; j++) {
            if (j == me) continue;
            v[me][j] += p[me];
            ASSERT (v[me][j] <= v[j][me] + p[j], "a task got more turns than its priority allows");
        }
        if (++turns >= TURNS) stop = 1;
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness (void)
{
    sys_init ();
    for (int i = 0; i < NT; i++) {
        p[i] = sym_range ("priority", 1, LOW);
        spawn (&t[i], i, (int)p[i], exact, (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    sym_cover ("ended");
}

/* equal values take turns in the order they became runnable, wherever started */
static int q[16], qn, fds[NT], raised = -1;
static void qadd (int i) { q[qn++] = i; }
/* a turn ends: a task whose event came in it becomes runnable */
static void qevent (void)
{
    if (raised >= 0 && live[raised] == 2) { live[raised] = 1; qadd (raised); }
    raised = -1;
}
static void rr (void *d)
{
    int me = (int)(intptr_t)d;
    hev_task_add_fd (t[me].t, fds[me], POLLIN);
    for (int k = 0; k < TURNS; k++) {
        ASSERT (qn > 0 && q[0] == me, "equal priorities: a task ran out of its turn");
        for (int i = 1; i < qn; i++) q[i - 1] = q[i];
        qn--;
        if (k == TURNS - 1) break;
        int ops[5], n = 0, idle = 0, fresh = 0;
        for (int i = 0; i < NT; i++) { idle |= t[i].started && live[i] == 2; fresh |= !t[i].started; }
        ops[n++] = 4;
        if (fresh) ops[n++] = 0;
        if (idle) ops[n++] = 1;
        if (idle) ops[n++] = 3;
        if (qn > 0) ops[n++] = 2;
        switch (ops[sym_choice ("op", n)]) {
        case 0:
            for (int i = 0; i < NT; i++) if (!t[i].started) { qadd (i); spawn (&t[i], i, (int)p[0], rr, (void *)(intptr_t)i); break; }
            break;
        case 1:
            /* wait: another one wakes it */
            for (int i = 0; i < NT; i++) if (t[i].started && live[i] == 2) { live[i] = 1; qadd (i); hev_task_wakeup (t[i].t); sym_cover ("woken"); }
            break;
        case 2:
            live[me] = 2;
            hev_task_yield (HEV_TASK_WAITIO);
            continue;
        case 3:
            /* an event for a waiting one, then a yield or a wait; a waiting one's priority set once more */
            for (int i = 0; i < NT; i++) if (t[i].started && live[i] == 2) { raised = i; env_fire (fds[i], EPOLLIN); sym_cover ("event"); hev_task_set_priority (t[i].t, (int)p[0]); break; }
            if (qn > 0 && sym_decide ("waits")) { live[me] = 2; qevent (); hev_task_yield (HEV_TASK_WAITIO); continue; }
            break;
        }
        qadd (me);
        qevent ();
        hev_task_yield (HEV_TASK_YIELD);
    }
    live[me] = 0;
    for (int i = 0; i < NT; i++) if (live[i] == 2) { live[i] = 1; qadd (i); hev_task_wakeup (t[i].t); }
    hev_task_del_fd (t[me].t, fds[me]);
    t[me].ended = 1;
}
void harness_equal (void)
{
    sys_init ();
    p[0] = sym_range ("priority", 0, LOW);
    for (int i = 0; i < NT; i++) fds[i] = env_stream (NULL, 0, 0, 0);
    qadd (0);
    spawn (&t[0], 0, (int)p[0], rr, (void *)0);
    qadd (1);
    spawn (&t[1], 1, (int)p[0], rr, (void *)1);
    hev_task_system_run ();
    sym_cover ("ended");
}

/* one task starts, waits and is woken, or changes a priority in between */
static int by_event;
static void late (void *d)
{
    int k1 = sym_pickr ("at", 1, 4), what = sym_choice ("what", 4), n;
    (void)d;
    for (int i = 0; i < k1; i++) {
        turn (NT);
        hev_task_yield (HEV_TASK_YIELD);
        if (stop) return;
    }
    switch (what) {
    case 0:
        sym_cover ("waited");
        by_event = sym_decide ("event");
        if (by_event) hev_task_add_fd (hev_task_self (), fds[0], POLLIN);
        live[NT] = 0;
        hev_task_yield (HEV_TASK_WAITIO);
        live[NT] = 1;
        both_reset (NT);
        break;
    case 1:
        sym_cover ("own priority changed");
        slack[NT] = p[NT];
        n = sym_range ("new_priority", 1, LOW);
        hev_task_set_priority (hev_task_self (), n);
        hev_task_yield (HEV_TASK_YIELD);
        both_reset (NT);
        p[NT] = n;
        break;
    case 2:
        sym_cover ("another's priority changed");
        n = sym_range ("new_priority", 1, LOW);
        hev_task_set_priority (t[0].t, n);
        ASSERT (hev_task_get_priority (t[0].t) == n, "priority reported");
        /* its next turn may still count with the old value */
        slack[0] = 2 * (p[0] > n ? p[0] : n);
        both_reset (0);
        p[0] = n;
        break;
    case 3:
        sym_cover ("ended early");
        live[NT] = 0;
        return;
    }
    body ((void *)(intptr_t)NT);
}
static void waker (void *d)
{
    int k = 0;
    (void)d;
    while (!stop) {
        if (k == 3) {
            t[NT].started = 1;
            live[NT] = 1;
            both_reset (NT);
            hev_task_run (t[NT].t, late, NULL);
        }
        if (k > 3 && !live[NT] && hev_task_get_state (t[NT].t) == HEV_TASK_WAITING) {
            live[NT] = 1;
            both_reset (NT);
            if (by_event) { slack[NT] = p[NT] + p[0]; env_fire (fds[0], EPOLLIN); sym_cover ("woken by an event"); }
            else hev_task_wakeup (t[NT].t);
        }
        k++;
        turn (0);
        hev_task_yield (HEV_TASK_YIELD);
    }
    if (hev_task_get_state (t[NT].t) == HEV_TASK_WAITING) hev_task_wakeup (t[NT].t);
}
void harness_late (void)
{
    sys_init ();
    for (int i = 0; i <= NT; i++) {
        static const int vals[] = { 8, 2, 15 };
        p[i] = i == 0 ? sym_range ("priority0", 1, LOW) : vals[sym_choice ("priority", NT > 2 ? 3 : i == 1 ? 2 : 3)];
        live[i] = i < NT;
    }
    fds[0] = env_stream (NULL, 0, 0, 0);
    t[NT].t = hev_task_ref (hev_task_new (-1));
    hev_task_set_priority (t[NT].t, (int)p[NT]);
    for (int i = 1; i < NT; i++) spawn (&t[i], i, (int)p[i], body, (void *)(intptr_t)i);
    spawn (&t[0], 0, (int)p[0], waker, NULL);
    hev_task_system_run ();
}

/* the real-time priority */
static int rt_run, rt_need[3], rt_turn, rt_done, rt_how;
static void rt_body (void *d)
{
    int n = sym_pickr ("rt_turns", 1, 3);
    (void)d;
    if (rt_how) {
        if (rt_how == 2) hev_task_add_fd (hev_task_self (), fds[0], POLLIN);
        hev_task_yield (HEV_TASK_WAITIO);
    }
    for (int i = 0; i < n; i++) {
        rt_run = 1;             /* from now on it comes before every other */
        rt_turn++;
        hev_task_yield (HEV_TASK_YIELD);
    }
    rt_run = 0;
    rt_done = 1;
}
static void rt_other (void *d)
{
    int me = (int)(intptr_t)d, at = sym_pickr ("rt_at", 0, 3);
    for (int k = 0; k < 5; k++) {
        ASSERT (!rt_run, "another task ran while a real-time task was runnable");
        if (rt_turn) rt_need[2] = 0;
        if (rt_need[2]) {
            /* made runnable, not yet run: at most the turns already due come first */
            ASSERT (rt_need[me] == 0, "a task had two turns before a runnable real-time task");
            rt_need[me]++;
        }
        if (me == 0 && k == at) {
            rt_need[2] = 1;
            switch (rt_how) {
            case 0: hev_task_run (t[2].t, rt_body, NULL); sym_cover ("real-time started"); break;
            case 1: hev_task_wakeup (t[2].t); sym_cover ("real-time woken"); break;
            case 2: env_fire (fds[0], EPOLLIN); sym_cover ("real-time event"); break;
            }
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness_rt (void)
{
    sys_init ();
    t[2].t = hev_task_new (-1);
    hev_task_set_priority (t[2].t, 0);
    rt_how = sym_choice ("how", 3);
    fds[0] = env_stream (NULL, 0, 0, 0);
    if (rt_how) hev_task_run (t[2].t, rt_body, NULL);
    for (int i = 0; i < 2; i++) spawn (&t[i], i, sym_range ("priority", 1, LOW), rt_other, (void *)(intptr_t)i);
    hev_task_system_run ();
    ASSERT (rt_done, "the real-time task did not end");
}

void harness_clamp (void)
{
    HevTask *a;
    int x = (int)sym_u32 ("value");
    sys_init ();
    a = hev_task_new (-1);
    hev_task_set_priority (a, x);
    ASSERT (hev_task_get_priority (a) == (x < 0 ? 0 : x > 15 ? 15 : x), "priority is not clamped to the valid range");
    sym_cover ("set");
}

/* with a scheduling clock: the time used, not the number of turns, is shared */
static void timed (void *d)
{
    int me = (int)(intptr_t)d;
    while (!stop) {
        int64_t s, n;
        /* each turn may count for a nanosecond more */
        for (int j = 0; j < NT; j++)
            if (j != me) ASSERT (v[me][0] <= v[j][0] + turns * LOW, "a task ran though another had used less of its share");
        s = sym_pickr ("seconds", 0, 1);
        n = sym_range ("nanoseconds", 0, 999999999);
        v[me][0] += (s * 1000000000 + n) * p[me];
        env_sec += s;
        env_nsec += n;
        if (env_nsec >= 1000000000) { env_sec++; env_nsec -= 1000000000; sym_cover ("carried"); }
        if (++turns >= TURNS) stop = 1;
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness_clock (void)
{
    sys_init ();
    env_nsec = sym_range ("start", 0, 999999999);
    for (int i = 0; i < NT; i++) {
        static const int vals[] = { 1, 15, 2, 7 };
        p[i] = i < 2 ? vals[i * 2 + sym_choice ("priority", 2)] : 4;
        spawn (&t[i], i, (int)p[i], timed, (void *)(intptr_t)i);
    }
    hev_task_system_run ();
    sym_cover ("ended");
}
