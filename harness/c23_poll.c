/* C23: one task polls; another makes descriptors ready, takes readiness away,
 * wakes the poller for no reason, lets time pass. */
#include "tasks.h"
#include "hev-task-io-poll.h"

#ifndef NF
#define NF 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef TMO
#define TMO 5                  /* how many of the time-outs below */
#endif
#ifndef CALLS
#define CALLS 1
#endif

static const int tmos[] = { -1, 2, 0, 1, 2147483647, -2147483647 - 1 };
static T p, h;
static struct pollfd v[NF];
static int stream[NF];         /* the descriptor, if it can change */
static int calls, in_call, tmo, n, turns, woken, regs_fail;

static int64_t now (void) { return (env_sec - 1000) * 1000000000 + env_nsec; }
static int ready (int i)
{
    if (v[i].fd < 0) return 0;
    if (!env_is_open (v[i].fd)) return POLLNVAL;
    if (env_fd[v[i].fd].noepoll) return v[i].events & (POLLIN | POLLOUT);
    return env_ready (v[i].fd) & (v[i].events | POLLERR | POLLHUP);
}
static int nready (void)
{
    int c = 0;
    for (int i = 0; i < n; i++) c += ready (i) != 0;
    return c;
}
static void come (int i, int out)
{
    EnvFd *f = &env_fd[stream[i]];
    if (out) f->out_cap = f->out_pos + 1;
    else f->in_len = f->in_pos + 1;
    env_fire (stream[i], out ? EPOLLOUT : EPOLLIN);
}
static void go (int i)
{
    EnvFd *f = &env_fd[stream[i]];
    f->in_pos = f->in_len;
    f->out_cap = f->out_pos;
}
/* the process really waits: it must not while something watched is ready */
void env_hook_wait (void)
{
    ASSERT (!in_call || !nready (), "waits though a watched descriptor is ready");
}
void env_hook_idle (void)
{
    if (in_call) {
        ASSERT (tmo < 0, "a poll with time-out sleeps for ever");
        for (int i = 0; i < n; i++)
            if (stream[i] >= 0 && (v[i].events & (POLLIN | POLLOUT))) {
                come (i, !(v[i].events & POLLIN));
                sym_cover ("ready when idle");
                return;
            }
    }
    sym_end ();                /* nothing that could ever get ready was asked for */
}
static void poller (void *d)
{
    (void)d;
    for (calls = 0; calls < CALLS; calls++) {
        int64_t t0, el;
        int r, t, np, was;
        tmo = tmos[sym_choice ("timeout", TMO)];
        for (int i = 0; i < n; i++) v[i].revents = 0x5555;
        was = nready ();
        t0 = now ();
        t = turns;
        np = env_npolls;
        woken = 0;
        in_call = 1;
        errno = 0;
        r = hev_task_io_poll (v, n, tmo);
        in_call = 0;
        el = now () - t0;
        np = env_npolls - np;
        ASSERT (np >= 1, "returned without asking the system");
        if (r < 0) {
            ASSERT (r == -1 && env_failed, "failed though the system did not");
            sym_cover ("failed");
            continue;
        }
        ASSERT (r == nready (), "the result is not the number of ready descriptors");
        for (int i = 0; i < n; i++) ASSERT (v[i].revents == ready (i), "the events reported are not those that are");
        if (r == 0) {
            ASSERT (tmo >= 0, "zero with an infinite time-out");
            ASSERT (el >= (int64_t)tmo * 1000000, "zero before the time-out");
            if (tmo) sym_cover ("timed out");
        } else sym_cover ("ready");
        if (tmo == 0) ASSERT (np == 1, "a zero time-out asks once");
        if (tmo == 0 || was) ASSERT (t == turns && el == 0, "waited though it need not");
        ASSERT (np <= 3 + woken, "asks again and again instead of waiting");
    }
    for (int i = 0; i < n; i++) {
        if (stream[i] >= 0 && env_is_open (stream[i])) env_close (stream[i]);
        stream[i] = -1;
    }
    p.ended = 1;
}
static void helper (void *d)
{
    (void)d;
    for (int k = 0; k < OPS; k++) {
        int op = sym_choice ("op", 6), i = 0;
        if (op < 4) {
            i = n > 1 ? sym_choice ("which", n) : 0;
            if (stream[i] < 0) op = 5;
        }
        turns++;
        switch (op) {
        case 0: come (i, 0); woken++; break;
        case 1: come (i, 1); woken++; break;
        case 2: come (i, 0); go (i); woken++; sym_cover ("came and went"); break;
        case 3: go (i); break;
        case 4: if (p.started && !p.ended) { stray_wake (&p); woken++; sym_cover ("stray wake-up"); } break;
        case 5: if (sym_decide ("sleep")) hev_task_usleep (600); else env_advance (0, 700000); break;
        }
        if (sym_decide ("yield")) hev_task_yield (HEV_TASK_YIELD);
    }
    h.ended = 1;
}
void harness (void)
{
    static uint8_t in[16];
#ifdef SAME
    n = 3;
#else
    n = NF == 1 ? 1 : sym_choice ("n", NF + 1);
#endif
    if (n == 0) sym_cover ("no descriptor");
    sys_init ();
    for (int i = 0; i < n; i++) {
#ifdef SAME
        int kind = i == 2 ? 4 : 0, first = i == 2 ? sym_choice ("same", 2) : 0;
#else
        int kind = sym_choice ("kind", i ? 5 : 4), first = 0;
#endif
        static const short e[] = { POLLIN, POLLOUT, POLLIN | POLLOUT, 0 };
        stream[i] = -1;
        v[i].events = e[sym_choice ("events", i ? 3 : 4)];
        switch (kind) {
        case 0:                /* a stream */
            stream[i] = v[i].fd = env_stream (in, 0, 0, 0);
            env_fd[v[i].fd].out = in;
            if (sym_decide ("ready_at_first")) come (i, 0);
            break;
        case 1:                /* a regular file: epoll refuses it, it is always ready */
            v[i].fd = env_fd_new (FD_FILE);
            env_fd[v[i].fd].noepoll = 1;
            break;
        case 2: v[i].fd = 38; sym_cover ("not open"); break;
        case 3: v[i].fd = -1; sym_cover ("ignored entry"); break;
        case 4:                /* the same descriptor again */
            v[i].fd = v[first].fd;
            stream[i] = stream[first];
            sym_cover ("listed twice");
            break;
        }
    }
#ifdef FAULTS
    env_fail_misc = 1;
    env_fail_fd = 1;
#endif
    spawn (&p, 0, -1, poller, NULL);
    spawn (&h, 1, -1, helper, NULL);
    hev_task_system_run ();
    ASSERT (p.ended && h.ended, "a task never ended");
    sym_cover ("ended");
}
