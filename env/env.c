#define _GNU_SOURCE
#include "env.h"
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/timerfd.h>
#include <time.h>

#define WEAK __attribute__ ((weak))

EnvFd env_fd[ENV_NFD];
EnvReg env_reg[ENV_NREG];
int env_nopen, env_nblocks, env_nmaps;
int64_t env_sec = 1000, env_nsec = 500;
int env_fail_malloc, env_fail_mmap, env_fail_fd, env_fail_misc, env_failed;
uint64_t env_malloc_huge = UINT64_MAX;
uint64_t env_malloc_limit = 0x40000000, env_mmap_limit = 0x40000000;
EnvMap env_map, env_block[ENV_NBLOCK];
static int nblock;
int env_malloc_calls, env_eintr, env_eintr_now, env_shuffle, env_late, env_polls, env_idle_ok, env_sigdepth;
static int reg_seq;

WEAK void env_hook_poll (int timeout) { (void)timeout; }
WEAK void env_hook_wait (void) {}
WEAK void env_hook_idle (void) { sym_fail ("every task waits and nothing can wake one"); }
WEAK void env_hook_clock (void) {}
WEAK void env_hook_malloc (size_t n) { (void)n; }

static int inject (int *budget, const char *name)
{
    if (*budget <= 0) return 0;
    if (!sym_decide (name)) return 0;
    (*budget)--;
    env_failed++;
    return 1;
}

/* ------------------------------------------------------------ memory */
void *env_malloc (size_t n)
{
    void *p;
    env_malloc_calls++;
    env_hook_malloc (n);
    if (inject (&env_fail_malloc, "malloc_fails") || (n > env_malloc_limit && !(n >= env_malloc_huge && n < 1ull << 46))) {
        errno = ENOMEM;
        return NULL;
    }
    p = sym_malloc (n > env_malloc_limit ? 4096 : n);
    env_nblocks++;
    env_block[nblock].base = p;
    env_block[nblock].len = n;
    nblock = (nblock + 1) % ENV_NBLOCK;
    return p;
}
void env_free (void *p)
{
    if (!p) return;
    sym_free (p);
    env_nblocks--;
}
void *env_calloc (size_t a, size_t b)
{
    void *p;
    if (b && a > SIZE_MAX / b) return NULL;
    p = env_malloc (a * b);
    if (p) memset (p, 0, a * b);
    return p;
}
void *env_realloc (void *p, size_t n)
{
    void *q;
    size_t o;
    if (!p) return env_malloc (n);
    if (!n) { env_free (p); return NULL; }
    o = sym_objsize (p);
    q = env_malloc (n);
    if (!q) return NULL;
    memcpy (q, p, o < n ? o : n);
    env_free (p);
    return q;
}
int env_posix_memalign (void **r, size_t al, size_t n)
{
    (void)al;
    *r = env_malloc (n);
    return *r ? 0 : ENOMEM;
}
void *env_aligned_alloc (size_t al, size_t n) { (void)al; return env_malloc (n); }
void *env_memalign (size_t al, size_t n) { (void)al; return env_malloc (n); }
void *env_reallocarray (void *p, size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; }
    return env_realloc (p, a * b);
}
void *env_mempcpy (void *d, const void *s, size_t n) { memcpy (d, s, n); return (char *)d + n; }
void env_explicit_bzero (void *d, size_t n) { memset (d, 0, n); }
void *env_memchr (const void *p, int c, size_t n)
{
    for (size_t i = 0; i < n; i++) if (((unsigned char *)p)[i] == (unsigned char)c) return (char *)p + i;
    return NULL;
}
char *env_strncpy (char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
int env_madvise (void *a, size_t n, int w) { (void)a; (void)n; (void)w; return 0; }
int env_sched_yield (void) { return 0; }
int env_atexit (void (*f) (void)) { (void)f; return 0; }
int env_getpagesize (void) { return 4096; }
long env_sysconf (int n)
{
    if (n == 30) return 4096; /* _SC_PAGESIZE */
    return 8192;
}
void *env_mmap (void *a, size_t n, int prot, int flags, int fd, off_t off)
{
    (void)a; (void)flags; (void)fd; (void)off;
    if (n == 0) { errno = EINVAL; return MAP_FAILED; }
    if (inject (&env_fail_mmap, "mmap_fails") || n > env_mmap_limit) { errno = ENOMEM; return MAP_FAILED; }
    env_nmaps++;
    env_map.base = sym_mmap (n);
    env_map.len = env_map.end = n;
    /* what is mapped without access is protected until it is made accessible */
    env_map.none = !(prot & PROT_READ) || !(prot & PROT_WRITE);
    env_map.guard = env_map.none ? n : 0;
    return env_map.base;
}
int env_munmap (void *p, size_t n)
{
    sym_munmap (p, n);
    env_nmaps--;
    return 0;
}
int env_mprotect (void *p, size_t n, int prot)
{
    if (inject (&env_fail_mmap, "mprotect_fails")) { errno = ENOMEM; return -1; }
    if (prot == PROT_NONE) {
        sym_protect (p, n);
        if (p == env_map.base) env_map.guard = n;
    } else if ((prot & PROT_READ) && (prot & PROT_WRITE) && env_map.none && (char *)p >= env_map.base) {
        env_map.none = 0;
        env_map.guard = (char *)p - env_map.base;
        env_map.end = env_map.guard + n;
        if (env_map.guard) sym_protect (env_map.base, env_map.guard);
    }
    return 0;
}

/* ------------------------------------------------------------ signals */
void *env_handler[2];       /* SIGBUS, SIGSEGV */
int env_handler_flags[2];
stack_t env_altstack = { .ss_flags = SS_DISABLE };
static void *handler0[2];
static void *alt0;
static void sig_depth (void)
{
    env_sigdepth = (env_handler[0] != handler0[0]) + (env_handler[1] != handler0[1]) + (env_altstack.ss_sp != alt0);
}
void env_sig_preset (void *bus, void *segv, void *alt)
{
    env_handler[0] = handler0[0] = bus;
    env_handler[1] = handler0[1] = segv;
    env_altstack.ss_sp = alt0 = alt;
    env_altstack.ss_size = alt ? 4096 : 0;
    env_altstack.ss_flags = alt ? 0 : SS_DISABLE;
}
int env_sigaltstack (const stack_t *ss, stack_t *os)
{
    stack_t o = env_altstack;
    if (ss) {
        if (env_altstack.ss_sp == alt0 && inject (&env_fail_misc, "sigaltstack_fails")) { errno = ENOMEM; return -1; }
        env_altstack = *ss;
        if (ss->ss_flags & SS_DISABLE) { env_altstack.ss_sp = NULL; env_altstack.ss_size = 0; }
        else if (ss->ss_size < 2048) { env_altstack = o; errno = ENOMEM; return -1; }
    }
    if (os) *os = o;
    sig_depth ();
    return 0;
}
int env_sigaction (int s, const struct sigaction *a, struct sigaction *o)
{
    int i = s == SIGBUS ? 0 : 1;
    void *h = env_handler[i];
    int fl = env_handler_flags[i];
    if (s != SIGBUS && s != SIGSEGV) sym_fail ("model: signal handler for an unexpected signal");
    if (a) {
        if (h == handler0[i] && inject (&env_fail_misc, "sigaction_fails")) { errno = EINVAL; return -1; }
        env_handler[i] = (void *)a->sa_sigaction;
        env_handler_flags[i] = a->sa_flags;
    }
    if (o) { memset (o, 0, sizeof (*o)); o->sa_sigaction = h; o->sa_flags = fl; }
    sig_depth ();
    return 0;
}
int env_sigfillset (sigset_t *s) { memset (s, 0xff, sizeof (*s)); return 0; }
int env_sigaddset (sigset_t *s, int n) { ((unsigned char *)s)[(n - 1) / 8] |= 1 << (n - 1) % 8; return 0; }
int env_sigdelset (sigset_t *s, int n) { ((unsigned char *)s)[(n - 1) / 8] &= ~(1 << (n - 1) % 8); return 0; }
static sigset_t sigmask;
int env_sigprocmask (int how, const sigset_t *s, sigset_t *o)
{
    unsigned char *m = (unsigned char *)&sigmask;
    if (o) *o = sigmask;
    for (size_t i = 0; s && i < sizeof (*s); i++) {
        unsigned char b = ((const unsigned char *)s)[i];
        m[i] = how == SIG_BLOCK ? m[i] | b : how == SIG_UNBLOCK ? m[i] & ~b : b;
    }
    return 0;
}
int env_pthread_sigmask (int how, const sigset_t *s, sigset_t *o) { return env_sigprocmask (how, s, o); }
int env_sigemptyset (sigset_t *s) { memset (s, 0, sizeof (*s)); return 0; }

/* ------------------------------------------------------------ threads */
static void *tls[8][8];
static int ntls;
int env_pthread_once (pthread_once_t *o, void (*f) (void))
{
    if (!*(int *)o) { *(int *)o = 2; f (); }
    return 0;
}
int env_pthread_key_create (pthread_key_t *k, void (*d) (void *))
{
    (void)d;
    if (ntls >= 8) return EAGAIN;
    *k = ntls++;
    return 0;
}
static int tls_gone[8];
int env_pthread_key_delete (pthread_key_t k)
{
    if (k >= 8 || tls_gone[k]) return EINVAL;
    tls_gone[k] = 1;
    return 0;
}
void *env_pthread_getspecific (pthread_key_t k) { return k < 8 && !tls_gone[k] ? tls[k][sym_coro_current ()] : NULL; }
int env_pthread_setspecific (pthread_key_t k, const void *v)
{
    if (k >= 8 || tls_gone[k]) return EINVAL;
    if (v && inject (&env_fail_misc, "setspecific_fails")) return ENOMEM;
    tls[k][sym_coro_current ()] = (void *)v;
    return 0;
}

pthread_t env_pthread_self (void) { return (pthread_t)sym_coro_current (); }
int env_pthread_equal (pthread_t a, pthread_t b) { return a == b; }
WEAK int env_pthread_mutex_lock (pthread_mutex_t *m)
{
    if (*(int *)m) sym_fail ("a mutex is locked that is never unlocked");
    *(int *)m = 1;
    return 0;
}
WEAK int env_pthread_mutex_unlock (pthread_mutex_t *m) { *(int *)m = 0; return 0; }
WEAK int env_pthread_mutex_trylock (pthread_mutex_t *m)
{
    if (*(int *)m) return EBUSY;
    *(int *)m = 1;
    return 0;
}
int env_pthread_mutex_init (pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)a; *(int *)m = 0; return 0; }
int env_pthread_mutex_destroy (pthread_mutex_t *m) { (void)m; return 0; }
int env_pthread_cond_init (pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset (c, 0, sizeof (*c)); return 0; }
int env_pthread_cond_destroy (pthread_cond_t *c) { (void)c; return 0; }

/* ------------------------------------------------------------ time */
int env_clock_gettime (clockid_t c, struct timespec *ts)
{
    (void)c;
    env_hook_clock ();
    ts->tv_sec = env_sec;
    ts->tv_nsec = env_nsec;
    return 0;
}
static int before (int64_t s1, int64_t n1, int64_t s2, int64_t n2)
{
    return (s1 < s2) | ((s1 == s2) & (n1 < n2));
}
void env_advance (int64_t sec, int64_t nsec)
{
    int c;
    env_nsec += nsec;
    c = env_nsec >= 1000000000;
    env_nsec -= c ? 1000000000 : 0;
    env_sec += sec + c;
}

/* ------------------------------------------------------------ descriptors */
int env_fd_low = 3;     /* the lowest descriptor not in use elsewhere */
int env_alloc_fd (void)
{
    for (int i = env_fd_low; i < ENV_NFD; i++) if (env_fd[i].kind == FD_FREE) return i;
    sym_fail ("model: descriptor table full");
}
int env_fd_new (int kind)
{
    int fd = env_alloc_fd ();
    int closed = env_fd[fd].closed;
    memset (&env_fd[fd], 0, sizeof (EnvFd));
    env_fd[fd].kind = kind;
    env_fd[fd].peer = -1;
    env_fd[fd].closed = closed;
    env_nopen++;
    return fd;
}
int env_is_open (int fd) { return fd >= 0 && fd < ENV_NFD && env_fd[fd].kind != FD_FREE; }
int env_registered (int fd)
{
    for (int i = 0; i < ENV_NREG; i++) if (env_reg[i].used && env_reg[i].fd == fd) return 1;
    return 0;
}
int env_stream (const uint8_t *in, int in_len, int in_end, int out_cap)
{
    int fd = env_fd_new (FD_STREAM);
    EnvFd *f = &env_fd[fd];
    f->nonblock = 1;
    f->in = (uint8_t *)in;
    f->in_len = in_len;
    f->in_end = in_end;
    f->out = out_cap ? sym_malloc (out_cap) : NULL;
    f->out_cap = out_cap;
    return fd;
}
WEAK int env_close (int fd)
{
    if (!env_is_open (fd)) {
        sym_fail ("close of a descriptor that is not open");
    }
    for (int i = 0; i < ENV_NREG; i++) if (env_reg[i].used && (env_reg[i].fd == fd || env_reg[i].epfd == fd)) env_reg[i].used = 0;
    if (env_fd[fd].peer >= 0) {
        EnvFd *p = &env_fd[env_fd[fd].peer];
        if (p->kind == FD_STREAM) {
            p->in_end = 1;
            env_fire (env_fd[fd].peer, EPOLLIN);
        }
    }
    for (int i = 0; i < ENV_NFD; i++) if (env_fd[i].kind == FD_STREAM && env_fd[i].peer == fd) env_fd[i].peer = -2;
    env_fd[fd].kind = FD_FREE;
    env_fd[fd].closed++;
    env_nopen--;
    return 0;
}
WEAK int env_dup (int o)
{
    int n;
    if (!env_is_open (o)) { errno = EBADF; return -1; }
    n = env_fd_new (env_fd[o].kind);
    env_fd[n].nonblock = env_fd[o].nonblock;
    return n;
}
WEAK int env_fcntl (int fd, int cmd, ...)
{
    va_list ap;
    int arg;
    va_start (ap, cmd);
    arg = (cmd == F_SETFL || cmd == F_SETFD || cmd == F_DUPFD) ? va_arg (ap, int) : 0;
    va_end (ap);
    if (!env_is_open (fd)) { errno = EBADF; return -1; }
    if (cmd == F_DUPFD && arg == 0) return env_dup (fd);
    if (cmd != F_GETPIPE_SZ && inject (&env_fail_fd, "fcntl_fails")) { errno = EINVAL; return -1; }
    switch (cmd) {
    case F_GETFD: return env_fd[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: env_fd[fd].cloexec = !!(arg & FD_CLOEXEC); return 0;
    case F_GETFL: return (env_fd[fd].nonblock ? O_NONBLOCK : 0) | (env_fd[fd].oflags & O_ACCMODE);
    case F_SETFL: env_fd[fd].nonblock = !!(arg & O_NONBLOCK); return 0;
    case F_GETPIPE_SZ: return env_pipe_cap;
    }
    sym_fail ("model: fcntl command");
}
WEAK int env_ioctl (int fd, unsigned long req, ...)
{
    va_list ap;
    int *p;
    va_start (ap, req);
    p = va_arg (ap, int *);
    va_end (ap);
    if (!env_is_open (fd)) { errno = EBADF; return -1; }
    if (inject (&env_fail_fd, "ioctl_fails")) { errno = ENOTTY; return -1; }
    if (req == FIONBIO) { env_fd[fd].nonblock = !!*p; return 0; }
    if (req == FIONREAD) { *p = env_fd[fd].in_len - env_fd[fd].in_pos; return 0; }
    sym_fail ("model: ioctl request");
}

/* ------------------------------------------------------------ epoll */
int env_ready (int fd)
{
    EnvFd *f = &env_fd[fd];
    int m = 0;
    if (f->kind == FD_TIMER) return f->fired ? EPOLLIN : 0;
    if (f->kind == FD_LISTEN) return f->backlog > 0 ? EPOLLIN : 0;
    if (f->kind == FD_STREAM) {
        if (f->in_pos < f->in_len || f->in_end) m |= EPOLLIN;
        if (f->connecting) return m;
        if (f->peer == -2) m |= EPOLLOUT;
        if (f->out_pos < f->out_cap || f->out_end) m |= EPOLLOUT;
        if (f->peer >= 0 && env_fd[f->peer].in_len < env_fd[f->peer].in_cap) m |= EPOLLOUT;
    }
    return m;
}
static void reg_raise (EnvReg *r, uint32_t mask)
{
    uint32_t m = mask & (r->events | EPOLLERR | EPOLLHUP) & 0xffff;
    if (!m) return;
    if (!r->pend) r->seq = ++reg_seq;
    r->pend |= m;
}
void env_fire (int fd, uint32_t mask)
{
    for (int i = 0; i < ENV_NREG; i++)
        if (env_reg[i].used && env_reg[i].fd == fd) reg_raise (&env_reg[i], mask);
}
int env_epoll_create (int n)
{
    (void)n;
    if (inject (&env_fail_fd, "epoll_create_fails")) { errno = EMFILE; return -1; }
    return env_fd_new (FD_EPOLL);
}
int env_epoll_create1 (int flags)
{
    int fd = env_epoll_create (1);
    if (fd >= 0 && (flags & EPOLL_CLOEXEC)) env_fd[fd].cloexec = 1;
    return fd;
}
WEAK int env_epoll_ctl (int ep, int op, int fd, struct epoll_event *ev)
{
    EnvReg *r = NULL;
    if (!env_is_open (ep) || env_fd[ep].kind != FD_EPOLL || !env_is_open (fd)) { errno = EBADF; return -1; }
    for (int i = 0; i < ENV_NREG; i++) if (env_reg[i].used && env_reg[i].fd == fd && env_reg[i].epfd == ep) r = &env_reg[i];
    if (op == EPOLL_CTL_DEL) {
        if (!r) { errno = ENOENT; return -1; }
        r->used = 0;
        return 0;
    }
    if (env_fd[fd].noepoll) { errno = EPERM; return -1; }
    if (op == EPOLL_CTL_ADD) {
        if (r) { errno = EEXIST; return -1; }
        if (inject (&env_fail_fd, "epoll_add_fails")) { errno = ENOMEM; return -1; }
        for (int i = 0; i < ENV_NREG && !r; i++) if (!env_reg[i].used) r = &env_reg[i];
        if (!r) sym_fail ("model: registration table full");
        r->used = 1;
        r->epfd = ep;
        r->fd = fd;
    } else if (op == EPOLL_CTL_MOD) {
        if (!r) { errno = ENOENT; return -1; }
    } else { errno = EINVAL; return -1; }
    r->events = ev->events;
    r->data = ev->data.u64;
    r->pend = 0;
    reg_raise (r, env_ready (fd));
    return 0;
}
static void timers_fire (void)
{
    for (int i = 0; i < ENV_NFD; i++) {
        EnvFd *f = &env_fd[i];
        if (f->kind != FD_TIMER || !f->armed || f->fired) continue;
        if (!before (env_sec, env_nsec, f->t_sec, f->t_nsec)) {
            f->fired = 1;
            f->armed = 0;
            env_fire (i, EPOLLIN);
        }
    }
}
static void edges (void)
{
    for (int i = 0; i < ENV_NFD; i++) {
        EnvFd *f = &env_fd[i];
        int m;
        if (f->kind == FD_FREE || !(f->arm_in | f->arm_out)) continue;
        m = env_ready (i);
        if (f->arm_in && (m & EPOLLIN)) { f->arm_in = 0; env_fire (i, EPOLLIN); }
        if (f->arm_out && (m & EPOLLOUT)) { f->arm_out = 0; env_fire (i, EPOLLOUT); }
    }
}
static int collect (int ep, struct epoll_event *ev, int max)
{
    int n = 0;
    while (n < max) {
        EnvReg *b = NULL;
        int left = 0, k;
        for (int i = 0; i < ENV_NREG; i++) {
            EnvReg *r = &env_reg[i];
            if (!r->used || r->epfd != ep || !r->pend) continue;
            left++;
            if (!b || r->seq < b->seq) b = r;
        }
        if (!b) break;
        if (env_shuffle && left > 1) {
            k = sym_choice ("event_order", left);
            for (int i = 0; i < ENV_NREG; i++) {
                EnvReg *r = &env_reg[i];
                if (!r->used || r->epfd != ep || !r->pend) continue;
                if (k-- == 0) { b = r; break; }
            }
        }
        /* a timer that was set again meanwhile is not ready any more */
        ev[n].events = b->pend;
        ev[n].data.u64 = b->data;
        b->pend = 0;
        if (b->events & EPOLLONESHOT) b->events = EPOLLONESHOT;
        if (!(b->events & EPOLLET)) { int m = env_ready (b->fd) & b->events; b->pend = m & 0xffff; if (b->pend) b->seq = ++reg_seq + 100000; }
        n++;
        if (!(b->events & EPOLLET) && b->pend) { /* level triggered: once per call */ break; }
    }
    return n;
}
int env_wait_ep;
WEAK int env_epoll_wait (int ep, struct epoll_event *ev, int max, int timeout)
{
    int n, guard = 0;
    env_polls++;
    if (!env_is_open (ep) || env_fd[ep].kind != FD_EPOLL) { errno = EBADF; return -1; }
    if (max <= 0) { errno = EINVAL; return -1; }
    sym_access (ev, (uint64_t)max * sizeof (*ev)); /* any number of them may be stored */
    env_wait_ep = ep;
    env_hook_poll (timeout);
    if (env_eintr_now || inject (&env_eintr, "epoll_interrupted")) { errno = EINTR; return -1; }
    timers_fire ();
    edges ();
    n = collect (ep, ev, max);
    if (n > 0 || timeout == 0) return n;
    if (timeout > 0) sym_fail ("model: finite epoll timeout");
    for (;;) {
        EnvFd *t = NULL;
        env_hook_wait ();
        for (int i = 0; i < ENV_NREG; i++) {
            EnvReg *r = &env_reg[i];
            EnvFd *f = r->used ? &env_fd[r->fd] : NULL;
            if (!f || r->epfd != ep || f->kind != FD_TIMER || !f->armed) continue;
            if (!t || before (f->t_sec, f->t_nsec, t->t_sec, t->t_nsec)) t = f;
        }
        if (t) {
            env_sec = t->t_sec;
            env_nsec = t->t_nsec;
            if (env_late) env_advance (0, (int64_t)sym_val ("late_ns", env_late));
        } else {
            env_wait_ep = ep;
            env_hook_idle ();
        }
        timers_fire ();
        edges ();
        n = collect (ep, ev, max);
        if (n > 0) return n;
        if (++guard > 64) sym_fail ("model: idle hook gave no event");
    }
}

int env_epoll_pwait (int ep, struct epoll_event *ev, int max, int timeout, const sigset_t *m) { (void)m; return env_epoll_wait (ep, ev, max, timeout); }
int env_npolls;
WEAK int env_poll (struct pollfd *p, nfds_t n, int timeout)
{
    int c = 0;
    env_npolls++;
    for (nfds_t i = 0; i < n; i++) {
        int m = 0;
        if (p[i].fd < 0) m = 0;
        else if (!env_is_open (p[i].fd)) m = POLLNVAL;
        else if (env_fd[p[i].fd].noepoll) m = p[i].events & (POLLIN | POLLOUT);
        else m = env_ready (p[i].fd) & (p[i].events | POLLERR | POLLHUP);
        p[i].revents = m;
        c += m != 0;
    }
    if (timeout != 0 && !c) sym_fail ("poll () would stop the whole process");
    if (inject (&env_fail_misc, "poll_fails")) { errno = ENOMEM; return -1; }
    return c;
}
int env_timerfd_create (int clk, int flags)
{
    int fd;
    if (inject (&env_fail_fd, "timerfd_create_fails")) { errno = EMFILE; return -1; }
    fd = env_fd_new (FD_TIMER);
    if (clk != CLOCK_MONOTONIC) sym_fail ("model: timer clock");
    env_fd[fd].nonblock = !!(flags & TFD_NONBLOCK);
    env_fd[fd].cloexec = !!(flags & TFD_CLOEXEC);
    return fd;
}
int env_timerfd_settime (int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    EnvFd *f = &env_fd[fd];
    (void)o;
    if (!env_is_open (fd) || f->kind != FD_TIMER) { errno = EBADF; return -1; }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    if (n->it_interval.tv_nsec < 0 || n->it_interval.tv_nsec >= 1000000000 || n->it_interval.tv_sec < 0) { errno = EINVAL; return -1; }
    f->nset++;
    f->fired = 0;
    f->armed = 0;
    for (int i = 0; i < ENV_NREG; i++) if (env_reg[i].used && env_reg[i].fd == fd) env_reg[i].pend = 0;
    if ((n->it_value.tv_sec | n->it_value.tv_nsec) == 0) return 0;
    f->armed = 1;
    f->t_sec = n->it_value.tv_sec;
    f->t_nsec = n->it_value.tv_nsec;
    if (!(flags & TFD_TIMER_ABSTIME)) {
        int c;
        f->t_sec += env_sec;
        f->t_nsec += env_nsec;
        c = f->t_nsec >= 1000000000;
        f->t_nsec -= c ? 1000000000 : 0;
        f->t_sec += c;
    }
    return 0;
}

/* ------------------------------------------------------------ transfers */
static int would_block (EnvFd *f, int in)
{
    if (!f->nonblock) sym_fail ("an I/O call on a blocking descriptor would stop the whole process");
    if (in) f->arm_in = 1;
    else f->arm_out = 1;
    errno = EAGAIN;
    return -1;
}
/* a broken connection: the rest of the input is gone, nothing more is taken */
static int in_broken (EnvFd *f)
{
    f->errs--;
    f->err_seen = 1;
    f->in_len = f->in_pos;
    f->in_end = 1;
    errno = f->err;
    return -1;
}
static int out_broken (EnvFd *f)
{
    f->errs_out--;
    f->werr_seen = 1;
    f->out_cap = f->out_pos;
    f->out_end = 2;
    f->out_err = errno = f->err;
    return -1;
}
ssize_t env_in (int fd, const struct iovec *v, int cnt, int peek, int wall)
{
    EnvFd *f = &env_fd[fd];
    size_t tot = 0;
    int n, avail, left, k = 0;
    if (!env_is_open (fd)) { errno = EBADF; return -1; }
    if (f->kind == FD_TIMER) {
        if (!f->fired) return would_block (f, 1);
        f->fired = 0;
        memset (v[0].iov_base, 0, v[0].iov_len < 8 ? v[0].iov_len : 8);
        return 8;
    }
    for (int i = 0; i < cnt; i++) tot += v[i].iov_len;
    if (f->errs > 0 && sym_decide ("rd_error")) { return in_broken (f); }
    avail = f->in_len - f->in_pos;
    if (avail > 0 && f->again > 0 && sym_decide ("rd_again")) { f->again--; return would_block (f, 1); }
    if (tot == 0) return 0;
    if (avail == 0) {
        if (f->in_end == 1) { f->reof++; return 0; }
        if (f->in_end == 2) { f->err_seen = 1; errno = f->in_err; return -1; }
        return would_block (f, 1);
    }
    n = (size_t)avail < tot ? avail : (int)tot;
    if (f->maxio && n > f->maxio) n = f->maxio;
    if (!f->whole && !wall) n = sym_pickr ("rd_n", 1, n);
    left = n;
    for (int i = 0; i < cnt && left > 0; i++) {
        int c = v[i].iov_len < (size_t)left ? (int)v[i].iov_len : left;
        memcpy (v[i].iov_base, f->in + f->in_pos + k, c);
        k += c;
        left -= c;
    }
    if (!peek) {
        f->in_pos += n;
        f->nread++;
        for (int i = 0; i < ENV_NFD; i++) if (env_fd[i].kind == FD_STREAM && env_fd[i].peer == fd && env_fd[i].arm_out) { env_fd[i].arm_out = 0; env_fire (i, EPOLLOUT); }
    }
    return n;
}
ssize_t env_out (int fd, const struct iovec *v, int cnt)
{
    EnvFd *f = &env_fd[fd], *p = NULL;
    size_t tot = 0;
    int n, room, left;
    if (!env_is_open (fd)) { errno = EBADF; return -1; }
    for (int i = 0; i < cnt; i++) tot += v[i].iov_len;
    if (f->errs_out > 0 && sym_decide ("wr_error")) { return out_broken (f); }
    if (f->peer == -2) { errno = EPIPE; return -1; }
    if (f->peer >= 0) {
        p = &env_fd[f->peer];
        if (p->in_pos && p->in_pos == p->in_len) p->in_pos = p->in_len = 0;
        room = p->in_cap - p->in_len;
    } else room = f->out_cap - f->out_pos;
    if (tot == 0) return 0;
    if (room > 0 && f->again_out > 0 && sym_decide ("wr_again")) { f->again_out--; return would_block (f, 0); }
    if (room == 0) {
        if (f->out_end == 2) { f->werr_seen = 1; errno = f->out_err; return -1; }
        return would_block (f, 0);
    }
    n = (size_t)room < tot ? room : (int)tot;
    if (f->maxio && n > f->maxio) n = f->maxio;
    if (!f->whole) n = sym_pickr ("wr_n", 1, n);
    left = n;
    for (int i = 0; i < cnt && left > 0; i++) {
        int c = v[i].iov_len < (size_t)left ? (int)v[i].iov_len : left;
        if (p) { memcpy (p->in + p->in_len, v[i].iov_base, c); p->in_len += c; }
        else { memcpy (f->out + f->out_pos, v[i].iov_base, c); f->out_pos += c; }
        left -= c;
    }
    f->nwrite++;
    if (p && p->arm_in) { p->arm_in = 0; env_fire (f->peer, EPOLLIN); }
    return n;
}
WEAK ssize_t env_read (int fd, void *b, size_t n) { struct iovec v = { b, n }; return env_in (fd, &v, 1, 0, 0); }
WEAK ssize_t env_readv (int fd, const struct iovec *v, int c) { return env_in (fd, v, c, 0, 0); }
WEAK ssize_t env_write (int fd, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return env_out (fd, &v, 1); }
WEAK ssize_t env_writev (int fd, const struct iovec *v, int c) { return env_out (fd, v, c); }
WEAK ssize_t env_recv (int fd, void *b, size_t n, int fl)
{
    struct iovec v = { b, n };
    env_fd[fd].lastflags = fl;
    return env_in (fd, &v, 1, fl & MSG_PEEK, 0);
}
WEAK ssize_t env_send (int fd, const void *b, size_t n, int fl)
{
    struct iovec v = { (void *)b, n };
    env_fd[fd].lastflags = fl;
    return env_out (fd, &v, 1);
}
WEAK ssize_t env_splice (int in, void *oi, int ou, void *oo, size_t n, unsigned fl)
{
    EnvFd *a = &env_fd[in], *b = &env_fd[ou], *p = NULL;
    int avail, room, k;
    (void)oi; (void)oo; (void)fl;
    if (!env_is_open (in) || !env_is_open (ou)) { errno = EBADF; return -1; }
    if (a->errs > 0 && sym_decide ("splice_rd_error")) { return in_broken (a); }
    if (b->errs_out > 0 && sym_decide ("splice_wr_error")) { return out_broken (b); }
    avail = a->in_len - a->in_pos;
    if (n == 0) return 0;
    if (avail > 0 && a->again > 0 && sym_decide ("splice_rd_again")) { a->again--; return would_block (a, 1); }
    if (avail == 0) {
        if (a->in_end == 1) { a->reof++; return 0; }
        if (a->in_end == 2) { a->err_seen = 1; errno = a->in_err; return -1; }
        return would_block (a, 1);
    }
    if (b->peer == -2) { errno = EPIPE; return -1; }
    if (b->peer >= 0) {
        p = &env_fd[b->peer];
        if (p->in_pos && p->in_pos == p->in_len) p->in_pos = p->in_len = 0;
        room = p->in_cap - p->in_len;
    } else room = b->out_cap - b->out_pos;
    if (room > 0 && b->again_out > 0 && sym_decide ("splice_wr_again")) { b->again_out--; return would_block (b, 0); }
    if (room == 0) {
        if (b->out_end == 2) { b->werr_seen = 1; errno = b->out_err; return -1; }
        return would_block (b, 0);
    }
    k = avail < room ? avail : room;
    if ((size_t)k > n) k = (int)n;
    if (a->maxio && k > a->maxio) k = a->maxio;
    if (!a->whole || !b->whole) k = sym_pickr ("splice_n", 1, k);
    if (p) { memcpy (p->in + p->in_len, a->in + a->in_pos, k); p->in_len += k; }
    else { memcpy (b->out + b->out_pos, a->in + a->in_pos, k); b->out_pos += k; }
    a->in_pos += k;
    b->nwrite++;
    if (p && p->arm_in) { p->arm_in = 0; env_fire (b->peer, EPOLLIN); }
    for (int i = 0; i < ENV_NFD; i++) if (env_fd[i].kind == FD_STREAM && env_fd[i].peer == in && env_fd[i].arm_out) { env_fd[i].arm_out = 0; env_fire (i, EPOLLOUT); }
    return k;
}

int env_pipe_cap = 2;
WEAK int env_pipe2 (int *v, int flags)
{
    if (inject (&env_fail_fd, "pipe_fails")) { errno = EMFILE; return -1; }
    for (int i = 0; i < 2; i++) {
        v[i] = env_fd_new (FD_STREAM);
        env_fd[v[i]].nonblock = !!(flags & O_NONBLOCK);
        env_fd[v[i]].whole = 1;
    }
    env_fd[v[0]].in = sym_malloc (env_pipe_cap);
    env_fd[v[0]].in_cap = env_pipe_cap;
    env_fd[v[1]].peer = v[0];
    return 0;
}
WEAK int env_pipe (int *v) { return env_pipe2 (v, 0); }

/* ------------------------------------------------------------ giving up */
WEAK void env_hook_abort (void) { sym_fail ("the library aborted the process"); }
void env_abort (void)
{
    env_hook_abort ();
    sym_end ();
}
void env___assert_fail (const char *e, const char *f, unsigned l, const char *fn)
{
    (void)e; (void)f; (void)l; (void)fn;
    env_abort ();
}
