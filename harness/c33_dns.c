/* C33: name lookups by a helper thread.  Threads are coroutines; another may
 * go on at every system call. */
#include <netdb.h>
#include <pthread.h>
#include <netinet/in.h>
#include "tasks.h"
#include "hev-task-dns.h"

#ifndef NT
#define NT 2                   /* tasks looking up, per system */
#endif
#ifndef NSYS
#define NSYS 1                 /* systems, each in its own thread */
#endif
#ifndef CALLS
#define CALLS 1                /* lookups per task */
#endif
#ifndef PREEMPT
#define PREEMPT 2
#endif
#ifndef AGAIN
#define AGAIN 0
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#ifndef WAKES
#define WAKES 0
#endif
#ifndef OTHER
#define OTHER 0                /* a task that looks up nothing */
#endif
#ifndef KINDS
#define KINDS 2
#endif

#include "coop.h"
static int other_steps, other_live;
static int more_can_run (int i) { return other_steps > th[i].arg || !other_live; }

/* ---------------------------------------------------------- pthread */
static int helpers, is_system[NTH];
int env_pthread_create (pthread_t *t, const pthread_attr_t *a, void *(*fn) (void *), void *data)
{
    (void)a;
    if (env_fail_misc > 0 && sym_decide ("thread_fails")) { env_fail_misc--; env_failed++; return EAGAIN; }
    helpers++;
    *t = (pthread_t)th_new (fn, data);
    point ();
    return 0;
}
int env_pthread_detach (pthread_t t) { (void)t; return 0; }
int env_pthread_join (pthread_t t, void **r)
{
    (void)r;
    while (th[t].st != ENDED) { int me = self (), c = ready_others (me); if (!c) sym_fail ("every thread waits and nothing can wake one"); go_to (me, sym_choice ("next", c)); }
    return 0;
}
int env_pthread_mutex_lock (pthread_mutex_t *m)
{
    point ();
    if (*(int *)m) block (ON_LOCK, 0, m);
    *(int *)m = 1;
    return 0;
}
int env_pthread_mutex_unlock (pthread_mutex_t *m)
{
    ASSERT (*(int *)m, "unlock of a mutex that is not locked");
    *(int *)m = 0;
    point ();
    return 0;
}
int env_pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m)
{
    int me = self ();
    *(int *)m = 0;
    th[me].signalled = 0;
    block (ON_COND, 0, c);
    if (*(int *)m) block (ON_LOCK, 0, m);
    *(int *)m = 1;
    return 0;
}
int env_pthread_cond_signal (pthread_cond_t *c)
{
    for (int i = 0; i < nth; i++) if (th[i].st == ON_COND && th[i].obj == c && !th[i].signalled) { th[i].signalled = 1; break; }
    return 0;
}
int env_pthread_cond_broadcast (pthread_cond_t *c)
{
    for (int i = 0; i < nth; i++) if (th[i].st == ON_COND && th[i].obj == c) th[i].signalled = 1;
    return 0;
}

/* ---------------------------------------------------------- descriptors */
int env_socketpair (int d, int type, int proto, int *v)
{
    (void)d; (void)proto;
    if (env_fail_fd > 0 && sym_decide ("socketpair_fails")) { env_fail_fd--; env_failed++; errno = EMFILE; return -1; }
    for (int i = 0; i < 2; i++) {
        v[i] = env_fd_new (FD_STREAM);
        env_fd[v[i]].nonblock = !!(type & SOCK_NONBLOCK);
        env_fd[v[i]].whole = 1;
        env_fd[v[i]].again_out = AGAIN;
        env_fd[v[i]].in = sym_malloc (4);
        env_fd[v[i]].in_cap = 4;
    }
    env_fd[v[0]].peer = v[1];
    env_fd[v[1]].peer = v[0];
    return 0;
}
int env_shutdown (int fd, int how)
{
    ASSERT (env_is_open (fd), "use of a closed descriptor");
    if (how != SHUT_RD && env_is_open (env_fd[fd].peer)) { env_fd[env_fd[fd].peer].in_end = 1; env_fire (env_fd[fd].peer, EPOLLIN); }
    point ();
    return 0;
}
static int again_fd = -1, again_polls, polls;
ssize_t env_in (int fd, const struct iovec *v, int cnt, int peek, int wall);
ssize_t env_out (int fd, const struct iovec *v, int cnt);
ssize_t env_read (int fd, void *b, size_t n)
{
    struct iovec v = { b, n };
    point ();
    ASSERT (env_is_open (fd), "use of a closed descriptor");
    return env_in (fd, &v, 1, 0, 0);
}
ssize_t env_write (int fd, const void *b, size_t n)
{
    struct iovec v = { (void *)b, n };
    ssize_t r;
    point ();
    ASSERT (env_is_open (fd), "use of a closed descriptor");
    ASSERT (!is_system[self ()] || again_fd != fd || again_polls != polls, "tries again at once instead of waiting");
    r = env_out (fd, &v, 1);
    if (is_system[self ()]) { again_fd = r < 0 && errno == EAGAIN ? fd : -1; again_polls = polls; }
    /* every arrival is an event */
    if (r > 0 && env_fd[fd].kind == FD_STREAM && env_fd[fd].peer >= 0) env_fire (env_fd[fd].peer, EPOLLIN);
    return r;
}
ssize_t env_recv (int fd, void *b, size_t n, int fl)
{
    ASSERT ((fl & ~(MSG_DONTWAIT | MSG_NOSIGNAL)) == 0, "model: recv");
    return env_read (fd, b, n);
}
ssize_t env_send (int fd, const void *b, size_t n, int fl)
{
    ASSERT ((fl & ~(MSG_DONTWAIT | MSG_NOSIGNAL)) == 0, "model: send");
    return env_write (fd, b, n);
}
int env_poll (struct pollfd *p, nfds_t n, int timeout)
{
    ASSERT (n == 1 && timeout < 0, "model: poll");
    ASSERT (env_is_open (p->fd), "use of a closed descriptor");
    th[self ()].ev = p->events;
    if (!(env_ready (p->fd) & p->events)) block (ON_POLL, p->fd, NULL);
    p->revents = env_ready (p->fd) & p->events;
    return 1;
}
void env_hook_poll (int timeout) { (void)timeout; if (is_system[self ()]) polls++; point (); }
void env_hook_idle (void) { block (ON_EPOLL, env_wait_ep, NULL); }

/* ---------------------------------------------------------- the resolver */
#define NC (NT * NSYS)
typedef struct { T t; int sys, id, kind, waiting, served, ret, err, fails_ok; char node[4], service[4]; struct addrinfo hints; struct sockaddr_in sa; } C;
static C c[NC];
static struct addrinfo results[NC];
static T other[NSYS];
static int calls, setup_failed, busy;

static C *caller (int id)
{
    ASSERT (id >= 0 && id < NC && c[id].waiting && !c[id].served, "a lookup nobody waits for");
    ASSERT (!is_system[self ()], "a lookup blocks the whole system");
    c[id].served = 1;
    return &c[id];
}
static void outcome (C *p, int fail)
{
    p->ret = sym_decide ("lookup_fails") ? fail : 0;
    p->err = p->ret == EAI_SYSTEM ? sym_range ("errno", 1, 200) : 0;
    if (OTHER && sym_decide ("slow")) { sym_cover ("slow"); block (ON_MORE, other_steps, NULL); }
    else point ();
    if (p->err) errno = p->err;
}
int env_getaddrinfo (const char *node, const char *service, const struct addrinfo *h, struct addrinfo **res)
{
    int id = h ? h->ai_flags : -1;
    C *p = caller (id);
    ASSERT (p->kind == 0 && h->ai_family == p->hints.ai_family && h->ai_socktype == p->hints.ai_socktype, "another lookup than asked for");
    ASSERT (node[0] == p->node[0] && node[1] == 0 && service[0] == p->service[0], "looked up with other arguments");
    outcome (p, EAI_SYSTEM);
    if (!p->ret) *res = &results[id];
    return p->ret;
}
int env_getnameinfo (const struct sockaddr *sa, socklen_t len, char *node, socklen_t nl, char *service, socklen_t sl, int flags)
{
    int id = ((struct sockaddr_in *)sa)->sin_port;
    C *p = caller (id);
    ASSERT (p->kind == 1 && len == sizeof (p->sa) && flags == 5 + id, "another lookup than asked for");
    ASSERT (nl == 4 && sl == 3, "looked up with other lengths");
    outcome (p, EAI_SYSTEM);
    if (!p->ret) { node[0] = 'A' + id; node[1] = 0; service[0] = '0' + id; service[1] = 0; }
    return p->ret;
}

static int pairs (void)
{
    int n = 0;
    for (int i = 0; i < ENV_NFD; i++) n += env_is_open (i) && env_fd[i].kind == FD_STREAM;
    return n;
}
static void lookup (C *p)
{
    struct addrinfo *res = NULL;
    char node[4] = "??", service[3] = "?";
    int r, e, open = env_nopen, blocks = env_nblocks, had = helpers, failed = env_failed, had_pairs = pairs ();
    p->kind = KINDS > 1 ? sym_decide ("name_of_address") : 0;
    p->served = 0;
    p->waiting = 1;
    errno = 0;
    if (p->kind == 0) {
        p->node[0] = 'a' + p->id; p->node[1] = 0;
        p->service[0] = '0' + p->id;
        p->hints.ai_flags = p->id;
        p->hints.ai_family = AF_INET;
        p->hints.ai_socktype = SOCK_DGRAM;
        r = hev_task_dns_getaddrinfo (p->node, p->service, &p->hints, &res);
    } else {
        p->sa.sin_port = p->id;
        r = hev_task_dns_getnameinfo ((void *)&p->sa, sizeof (p->sa), node, 4, service, 3, 5 + p->id);
    }
    e = errno;
    p->waiting = 0;
    if (!p->served) {
        ASSERT (env_failed > failed, "a lookup failed without a fault");
        ASSERT (r == EAI_SYSTEM && e != 0, "a lookup without helper is not reported as a system error");
        if (NSYS == 1) ASSERT (pairs () <= had_pairs, "a failed set-up kept descriptors");
        if (NSYS == 1 && (had || !helpers)) {
            ASSERT (env_nopen == open, "a failed set-up kept descriptors");
            ASSERT (env_nblocks == blocks, "a failed set-up kept memory");
        }
        sym_cover ("set-up failed");
        setup_failed++;
        return;
    }
    if (env_failed > failed) sym_cover ("fault survived");
    ASSERT (r == p->ret, "another result than the resolver's");
    if (r == EAI_SYSTEM) { ASSERT (e == p->err, "another error than the resolver's"); sym_cover ("lookup failed"); }
    if (r == 0 && p->kind == 0) ASSERT (res == &results[p->id], "another caller's addresses");
    if (r == 0 && p->kind == 1) {
        ASSERT (node[0] == 'A' + p->id && service[0] == '0' + p->id, "another caller's names");
        sym_cover ("name found");
    }
    if (r == 0 && p->kind == 0) sym_cover ("address found");
    calls++;
}
static int wakes;
static void task (void *p)
{
    C *x = p;
    for (int i = 0; i < CALLS; i++) lookup (x);
    if (setup_failed && CALLS > 1 && !env_fail_misc && !env_fail_fd && !env_fail_malloc) {
        int n = calls;
        lookup (x);
        ASSERT (calls == n + 1, "no lookup succeeds after a failed set-up");
        sym_cover ("worked after a failed set-up");
    }
    x->t.ended = 1;
    busy--;
}
static void other_task (void *p)
{
    int s = (int)(intptr_t)p;
    other_live++;
    for (int i = 0; i < OTHER; i++) {
        if (wakes > 0) {
            int k = sym_choice ("wake", NT + 1);
            if (k) { wakes--; stray_wake (&c[s * NT + k - 1].t); sym_cover ("stray wake-up"); }
        }
        hev_task_yield (HEV_TASK_YIELD);
        other_steps++;
    }
    other_live--;
}
static void *system_thread (void *p)
{
    int s = (int)(intptr_t)p;
    is_system[self ()] = 1;
    for (int r = 0; r < ROUNDS; r++) {
        int fm = env_fail_malloc, ff = env_fail_fd, fi = env_fail_misc;
        env_fail_malloc = env_fail_fd = env_fail_misc = 0;
        sys_init ();
        for (int i = 0; i < NT; i++) {
            c[s * NT + i].id = s * NT + i;
            busy++;
            spawn (&c[s * NT + i].t, i, -1, task, &c[s * NT + i]);
        }
        if (OTHER) spawn (&other[s], NT, -1, other_task, p);
        env_fail_malloc = fm;
        env_fail_fd = ff;
        env_fail_misc = fi;
        hev_task_system_run ();
        for (int i = 0; i < NT; i++) ASSERT (c[s * NT + i].t.ended, "the system ended before its tasks");
        hev_task_system_fini ();
        sym_cover ("finished");
    }
    return NULL;
}
void harness (void)
{
    preempts = PREEMPT;
    points_on = 1;
    wakes = WAKES;
    if (FAULTS) {
        switch (sym_choice ("fault", 3)) {
        case 0: env_fail_malloc = FAULTS; break;
        case 1: env_fail_fd = FAULTS; break;
        case 2: env_fail_misc = FAULTS; break;
        }
    }
    for (int s = 1; s < NSYS; s++) th_new (system_thread, (void *)(intptr_t)s);
    system_thread (NULL);
    for (int s = 1; s < NSYS; s++) env_pthread_join (s, NULL);
    /* what the helper still does for lookups that ended */
    points_on = 0;
    for (int i = 0; i < nth; i++)
        while (i && th[i].st != ENDED && can_run (i)) {
            th[0].st = RUN;
            sym_coro_switch (th[i].co);
        }
    sym_cover ("ended");
}
