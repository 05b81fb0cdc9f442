/* C21: connect and accept. */
#include "iocall.h"
#include <sys/socket.h>
#include "hev-task-io-socket.h"

static int fd, len_ok = 1;
static struct sockaddr *addr;
static socklen_t alen, *palen;
enum { NONE, GOING, DONE, FAILED };
static int state, conn_err, told;
static int accepted = -1, acc_err, listening;

/* the connection attempt may have come to an end meanwhile */
static void proceed (void)
{
    if (state != GOING) return;
    switch (sym_choice ("attempt", 3)) {
    case 0: break;
    case 1: state = DONE; break;
    default:
        state = FAILED;
        conn_err = (int)sym_val ("conn_err", 12);
        ASSUME (conn_err && conn_err != EINPROGRESS && conn_err != EALREADY && conn_err != EISCONN);
    }
}
int env_connect (int f, const struct sockaddr *a, socklen_t l)
{
    call_begins ();
    ASSERT (!listening, "connect from accept");
    ASSERT (f == fd && a == addr && l == alen, "the arguments are not the caller's");
    switch (state) {
    case NONE:
        switch (sym_choice ("first", 4)) {
        case 0: state = DONE; told = 1; over = 1; return 0;
        case 1: state = DONE; told = 1; over = 1; errno = EISCONN; return -1;   /* was connected before */
        case 2: state = GOING; return call_blocks (EINPROGRESS);
        default:
            state = FAILED;
            conn_err = (int)sym_val ("conn_err", 12);
            ASSUME (conn_err && conn_err != EINPROGRESS && conn_err != EALREADY && conn_err != EISCONN);
        }
        break;
    default: proceed ();
    }
    if (state == GOING) return call_blocks (EALREADY);
    over = 1;
    if (state == FAILED) { errno = conn_err; return -1; }
    if (told || sym_decide ("is_connected_error")) { errno = EISCONN; return -1; }
    told = 1;
    return 0;
}
int env_getsockopt (int f, int level, int opt, void *v, socklen_t *l)
{
    call_begins ();
    ASSERT (f == fd && level == SOL_SOCKET && opt == SO_ERROR, "model: socket option");
    proceed ();
    *(int *)v = state == FAILED ? conn_err : 0;
    *l = sizeof (int);
    if (state == FAILED) over = 1;
    return 0;
}
static int take (int f, struct sockaddr *a, socklen_t *l, int nonblock)
{
    call_begins ();
    ASSERT (listening, "accept from connect");
    ASSERT (f == fd && a == addr && l == palen, "the arguments are not the caller's");
    if (sym_decide ("fails")) {
        int e = (int)sym_val ("errno", 12);
        ASSUME (e != 0);
        if (e == EAGAIN) return call_blocks (e);
        acc_err = e;
        over = 1;
        errno = e;
        return -1;
    }
    over = 1;
    if (sym_decide ("no_stdin")) { env_fd_low = 0; sym_cover ("descriptor 0"); }
    accepted = env_fd_new (FD_STREAM);
    env_fd[accepted].nonblock = nonblock;
    return accepted;
}
int env_accept (int f, struct sockaddr *a, socklen_t *l) { return take (f, a, l, 0); }
int env_accept4 (int f, struct sockaddr *a, socklen_t *l, int fl) { return take (f, a, l, !!(fl & SOCK_NONBLOCK)); }

static void entry (void *p)
{
    int r, e, before;
    (void)p;
    fd = (int)sym_u32 ("fd");
    addr = (struct sockaddr *)sym_u64 ("addr");
    alen = sym_u32 ("addr_len");
    listening = sym_decide ("accept");
    palen = (socklen_t *)sym_u64 ("addr_len_p");
    before = env_nopen;
    if (listening) env_fail_fd = 1;
    call_start ();
    if (listening) r = hev_task_io_socket_accept (fd, addr, palen, YIELDER);
    else r = hev_task_io_socket_connect (fd, addr, alen, YIELDER);
    e = errno;
    call_done ();
    if (stopped) {
        ASSERT (r == -2, "-2 when the yielder asked to stop");
        ASSERT (env_nopen == before, "a descriptor is left behind");
    } else if (!listening) {
        ASSERT (over, "returned without an outcome");
        if (state == DONE) { ASSERT (r == 0, "connected, but not reported as such"); sym_cover ("connected"); }
        else { ASSERT (r == -1 && e == conn_err, "the failure is not reported with its error code"); sym_cover ("not connected"); }
    } else {
        ASSERT (over, "returned without an outcome");
        if (accepted < 0) { ASSERT (r == -1 && e == acc_err, "the failure is not reported with its error code"); sym_cover ("not accepted"); }
        else if (r >= 0) {
            ASSERT (r == accepted, "another descriptor than the new one");
            ASSERT (env_is_open (r) && env_fd[r].nonblock, "the new descriptor is not in non-blocking mode");
            ASSERT (env_nopen == before + 1, "a descriptor is left behind");
            sym_cover ("accepted");
            env_close (r);
        } else {
            ASSERT (env_failed > 0, "a connection is refused for no reason");
            ASSERT (r != -2, "-2 although the yielder did not stop the call");
            ASSERT (env_nopen == before && !env_is_open (accepted), "the new descriptor is left open");
            sym_cover ("mode not set");
        }
    }
    env_fail_fd = 0;
    io.ended = 1;
}
void harness (void) { io_run (entry); }
