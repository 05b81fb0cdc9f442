/* C22: the calls that open descriptors. */
#include "env.h"
#include <string.h>
#include "hev-task.h"
#include "hev-task-io.h"
#include "hev-task-io-pipe.h"
#include "hev-task-io-socket.h"

enum { OPEN, CREAT, OPENAT, DUP, DUP2, PIPE, SOCKET, SOCKETPAIR, NOPS };
static int op, flags, dirfd, old, target, dom, type, proto, calls, made[2] = { -1, -1 }, sys_failed;
static unsigned mode;
static const char path[] = "file";
static int was_closed[ENV_NFD];

static int fails (void)
{
    ASSERT (!calls++, "the descriptors are opened more than once");
    if (!sym_decide ("open_fails")) return 0;
    sys_failed = 1;
    errno = ENFILE;
    return 1;
}
static int opened (int i, int nonblock)
{
    made[i] = env_fd_new (FD_FILE);
    env_fd[made[i]].nonblock = nonblock;
    return made[i];
}
static int do_open (int at, const char *p, int fl, unsigned m)
{
    int want = op == CREAT ? O_CREAT | O_WRONLY | O_TRUNC : flags;
    ASSERT (op == OPEN || op == CREAT || op == OPENAT, "a file opened from nowhere");
    ASSERT (at == (op == OPENAT ? dirfd : AT_FDCWD), "another directory than the caller's");
    ASSERT (p == path, "another name than the caller's");
    ASSERT ((fl & ~O_NONBLOCK) == (want & ~O_NONBLOCK), "other flags than the caller's");
    if ((fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE) { ASSERT (m == mode, "another mode than the caller's"); sym_cover ("mode"); }
    if (fails ()) return -1;
    return opened (0, !!(fl & O_NONBLOCK));
}
#define MODE(fl) ({ unsigned m_ = 0; if (((fl) & O_CREAT) || ((fl) & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start (ap, fl); m_ = va_arg (ap, unsigned); va_end (ap); } m_; })
#include <stdarg.h>
int env_open (const char *p, int fl, ...) { return do_open (AT_FDCWD, p, fl, MODE (fl)); }
int env_open64 (const char *p, int fl, ...) { return do_open (AT_FDCWD, p, fl, MODE (fl)); }
int env_openat (int at, const char *p, int fl, ...) { return do_open (at, p, fl, MODE (fl)); }
int env_openat64 (int at, const char *p, int fl, ...) { return do_open (at, p, fl, MODE (fl)); }
int env_creat (const char *p, mode_t m) { return do_open (AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int env_dup (int o)
{
    ASSERT (op == DUP && o == old, "another descriptor is duplicated");
    return fails () ? -1 : opened (0, env_fd[o].nonblock);
}
static int do_dup2 (int o, int n)
{
    ASSERT (op == DUP2 && o == old && n == target, "other descriptors than the caller's");
    if (fails ()) return -1;
    if (o == n) return n;
    if (env_is_open (n)) env_nopen--;
    env_fd[n].kind = FD_FILE;
    env_fd[n].nonblock = env_fd[o].nonblock;
    env_nopen++;
    made[0] = n;
    return n;
}
int env_dup2 (int o, int n) { return do_dup2 (o, n); }
static int do_pipe (int *v, int fl)
{
    ASSERT (op == PIPE, "a pipe from nowhere");
    ASSERT (!(fl & ~O_NONBLOCK), "flags from nowhere");
    if (fails ()) return -1;
    v[0] = opened (0, !!fl);
    v[1] = opened (1, !!fl);
    return 0;
}
int env_pipe (int *v) { return do_pipe (v, 0); }
int env_pipe2 (int *v, int fl) { return do_pipe (v, fl); }
int env_socket (int d, int t, int p)
{
    ASSERT (op == SOCKET && d == dom && (t & ~SOCK_NONBLOCK) == (type & ~SOCK_NONBLOCK) && p == proto, "other arguments than the caller's");
    return fails () ? -1 : opened (0, !!(t & SOCK_NONBLOCK));
}
int env_socketpair (int d, int t, int p, int *v)
{
    ASSERT (op == SOCKETPAIR && d == dom && (t & ~SOCK_NONBLOCK) == (type & ~SOCK_NONBLOCK) && p == proto, "other arguments than the caller's");
    if (fails ()) return -1;
    v[0] = opened (0, !!(t & SOCK_NONBLOCK));
    v[1] = opened (1, !!(t & SOCK_NONBLOCK));
    return 0;
}
void harness (void)
{
    int r, v[2] = { -5, -5 }, n, want, other, pair;
    op = sym_choice ("op", NOPS);
    flags = (int)sym_u32 ("flags");
    mode = sym_u32 ("mode");
    dirfd = (int)sym_u32 ("dirfd");
    dom = (int)sym_u32 ("domain");
    type = (int)sym_u32 ("type");
    proto = (int)sym_u32 ("protocol");
    old = env_fd_new (FD_FILE);
    other = env_fd_new (FD_FILE);
    env_fd[old].nonblock = sym_decide ("old_nonblock");
    switch (sym_choice ("target", 3)) {
    case 0: target = old; break;
    case 1: target = other; break;
    default: target = 20;
    }
    if (sym_decide ("no_stdin")) env_fd_low = 0;
    n = env_nopen;
    for (int i = 0; i < ENV_NFD; i++) was_closed[i] = env_fd[i].closed;
    env_fail_fd = 1;
    switch (op) {
    case OPEN:
        if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) r = hev_task_io_open (path, flags, mode);
        else r = hev_task_io_open (path, flags);
        break;
    case CREAT: r = hev_task_io_creat (path, mode); break;
    case OPENAT:
        if ((flags & O_CREAT) || (flags & O_TMPFILE) == O_TMPFILE) r = hev_task_io_openat (dirfd, path, flags, mode);
        else r = hev_task_io_openat (dirfd, path, flags);
        break;
    case DUP: r = hev_task_io_dup (old); break;
    case DUP2: r = hev_task_io_dup2 (old, target); break;
    case PIPE: r = hev_task_io_pipe_pipe (v); break;
    case SOCKET: r = hev_task_io_socket_socket (dom, type, proto); break;
    default: r = hev_task_io_socket_socketpair (dom, type, proto, v); break;
    }
    env_fail_fd = 0;
    pair = op == PIPE || op == SOCKETPAIR;
    ASSERT (calls == 1, "nothing was opened");
    if (r >= 0) {
        ASSERT (!sys_failed && !env_failed, "a failure is reported as success");
        if (pair) ASSERT (r == 0 && v[0] == made[0] && v[1] == made[1], "other descriptors than the new ones");
        else ASSERT (r == (op == DUP2 ? target : made[0]), "another descriptor than the new one");
        for (int i = 0; i < 1 + pair; i++) {
            int d = pair ? v[i] : r;
            ASSERT (env_is_open (d), "the descriptor is not open");
            ASSERT (env_fd[d].nonblock, "the descriptor is not in non-blocking mode");
        }
        want = n + 1 + pair - (op == DUP2 && target != 20);
        sym_cover ("opened");
    } else {
        ASSERT (sys_failed || env_failed, "success is reported as failure");
        want = n - (op == DUP2 && target == other && !sys_failed);
        for (int i = 0; i < 2; i++)
            if (made[i] >= 0) {
                ASSERT (!env_is_open (made[i]), "a descriptor is left open");
                ASSERT (env_fd[made[i]].closed == was_closed[made[i]] + 1, "a descriptor is not closed exactly once");
            }
        sym_cover (sys_failed ? "open failed" : "mode failed");
    }
    ASSERT (env_is_open (old) && env_fd[old].closed == was_closed[old], "a descriptor of the caller was closed");
    if (op != DUP2 || target != other || sys_failed) ASSERT (env_is_open (other) && env_fd[other].closed == was_closed[other], "a descriptor of the caller was closed");
    ASSERT (env_nopen == want, "not as many descriptors are open as expected");
}
