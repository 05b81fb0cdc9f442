/* C25: each chain operation over the descriptor, socket and null layers, with
 * pass-through layers above; every system call outcome symbolic. */
#include "iocall.h"
#include <netinet/in.h>
#include <sys/uio.h>
#include <sys/un.h>
#include "hev-task-cio.h"
#include "hev-task-cio-fd.h"
#include "hev-task-cio-null.h"
#include "hev-task-cio-socket.h"

#ifndef NP
#define NP 3                   /* system calls that move bytes */
#endif
#ifndef NV
#define NV 3                   /* buffers per vector at most */
#endif
#ifndef OP0
#define OP0 0
#define OPN 14
#endif
#ifndef PASS
#define PASS 1                 /* pass-through layers at most */
#endif

enum { READ, READV, WRITE, WRITEV, READ_X, READV_X, WRITE_X, WRITEV_X, READ_D, READV_D, WRITE_D, WRITEV_D, FLUSH, GET_FD };
enum { L_FD, L_SOCK, L_NULL, L_NONE };
static int op, layer, fdi, fdo, cnt, parts, family, dir, dgram, exact, vectored;
static struct iovec vec[NV], vec0[NV];
static uint64_t len, size;
static int64_t last;
static void *addr;
static HevTaskCIO pass[PASS + 1];

static uint64_t place (const struct iovec *v, int n, uint64_t j)
{
    for (int i = 0; i < n; i++) {
        if (j < v[i].iov_len) return (uint64_t)v[i].iov_base + j;
        j -= v[i].iov_len;
    }
    sym_fail ("fewer bytes than left");
}
static int64_t moved (int d, int f, const struct iovec *v, int c, int fl, int dg)
{
    uint64_t sum = 0, j;
    call_begins ();
    ASSERT (op < FLUSH, "a transfer nobody asked for");
    ASSERT (layer == L_FD || layer == L_SOCK, "a system call by a layer without a descriptor");
    ASSERT (d == dir, "the call goes in the other direction");
    ASSERT (f == (d ? fdo : fdi), "another descriptor than the layer's");
    ASSERT (fl == 0, "flags nobody asked for");
    ASSERT (dg == dgram || layer == L_SOCK, "an address nobody asked for");
    for (int i = 0; i < c; i++) sum += v[i].iov_len;
    ASSERT (sum == len - size, "not the number of bytes still to move");
    if (sum) {
        j = sym_val ("any_byte", RW + 2) << SHIFT | (SHIFT ? sym_val ("any_low", SHIFT ? SHIFT : 1) : 0);
        ASSUME (j < sum);
        ASSERT (place (v, c, j) == place (vec0, cnt, size + j), "a byte is moved at the wrong place");
    }
    last = call_result (sum, EAGAIN, EAGAIN);
    if (asked) return last;
    if (last > 0 && exact) {
        ASSUME (parts < NP);
        parts++;
        size += (uint64_t)last;
        if (size >= len) over = 1;
        else sym_cover ("went on");
    } else over = 1;
    return last;
}
static void named (const void *a, socklen_t l)
{
    socklen_t want = family == AF_UNIX ? sizeof (struct sockaddr_un) : family == AF_INET ? sizeof (struct sockaddr_in) : family == AF_INET6 ? sizeof (struct sockaddr_in6) : 0;
    if (!dgram) { ASSERT (!a, "an address nobody asked for"); return; }
    ASSERT (a == addr, "the address is not the caller's");
    ASSERT (l == want, "the size of the address is not the family's");
}
ssize_t env_read (int f, void *b, size_t n)
{
    struct iovec v = { b, n };
    return moved (0, f, &v, 1, 0, 0);
}
ssize_t env_readv (int f, const struct iovec *v, int c) { return moved (0, f, v, c, 0, 0); }
ssize_t env_write (int f, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return moved (1, f, &v, 1, 0, 0); }
ssize_t env_writev (int f, const struct iovec *v, int c) { return moved (1, f, v, c, 0, 0); }
ssize_t env_recv (int f, void *b, size_t n, int fl) { struct iovec v = { b, n }; named (NULL, 0); return moved (0, f, &v, 1, fl, 1); }
ssize_t env_send (int f, const void *b, size_t n, int fl) { struct iovec v = { (void *)b, n }; named (NULL, 0); return moved (1, f, &v, 1, fl, 1); }
ssize_t env_recvfrom (int f, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
    struct iovec v = { b, n };
    int64_t r;
    named (a, l ? *l : 0);
    r = moved (0, f, &v, 1, fl, 1);
    if (r >= 0 && l) *l = sym_u32 ("addr_len_got");
    return r;
}
ssize_t env_sendto (int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
    struct iovec v = { (void *)b, n };
    named (a, l);
    return moved (1, f, &v, 1, fl, 1);
}
ssize_t env_recvmsg (int f, struct msghdr *m, int fl)
{
    int64_t r;
    named (m->msg_name, m->msg_namelen);
    ASSERT (!m->msg_controllen, "a control buffer from nowhere");
    r = moved (0, f, m->msg_iov, (int)m->msg_iovlen, fl, 1);
    if (r >= 0) {
        m->msg_namelen = sym_u32 ("addr_len_got");
        m->msg_flags = (int)sym_u32 ("msg_flags_got");
    }
    return r;
}
ssize_t env_sendmsg (int f, const struct msghdr *m, int fl)
{
    named (m->msg_name, m->msg_namelen);
    ASSERT (!m->msg_controllen, "control data from nowhere");
    return moved (1, f, m->msg_iov, (int)m->msg_iovlen, fl, 1);
}

static void entry (void *p)
{
    HevTaskCIO *c = NULL;
    ssize_t r = 0;
    int np, k = 0, none;
    (void)p;
    op = OP0 + sym_choice ("op", OPN);
    layer = sym_choice ("layer", 4);
    np = layer == L_NONE ? 1 : sym_choice ("pass", PASS + 1);
    dir = op == WRITE || op == WRITEV || op == WRITE_X || op == WRITEV_X || op == WRITE_D || op == WRITEV_D;
    dgram = op >= READ_D && op <= WRITEV_D;
    exact = op >= READ_X && op <= WRITEV_X;
    vectored = op < FLUSH && (op & 1);
    fdi = (int)sym_u32 ("fdi");
    fdo = (int)sym_u32 ("fdo");
    switch (layer) {
    case L_FD: c = HEV_TASK_CIO (hev_task_cio_fd_new (fdi, fdo)); break;
    case L_SOCK: {
        static const int fam[] = { AF_UNIX, AF_INET, AF_INET6, AF_PACKET };
        family = dgram ? fam[sym_choice ("family", 4)] : AF_INET;
        fdo = fdi;
        c = HEV_TASK_CIO (hev_task_cio_socket_new (family, fdi));
        break;
    }
    case L_NULL: c = HEV_TASK_CIO (hev_task_cio_null_new ()); break;
    }
    ASSERT (c || layer == L_NONE, "no object");
    for (int i = 0; i < np; i++) {
        ASSERT (hev_task_cio_construct (&pass[i]) == 0, "construct");
        ASSERT (c ? hev_task_cio_push (&pass[i], c) == &pass[i] : 1, "push returns the chain");
        c = &pass[i];
    }
    if (op < FLUSH) {
        cnt = vectored ? sym_choice ("cnt", NV + 1) : 1;
        for (int i = 0; i < cnt; i++) {
            uint64_t b = sym_u64 ("base"), l = sym_val ("len", RW) << SHIFT;
            vec[i].iov_base = (void *)b;
            vec[i].iov_len = l;
            vec0[i] = vec[i];
            len += l;
        }
        if (dgram) addr = (void *)sym_u64 ("addr");
    }
    call_start ();
    switch (op) {
    case READ: r = hev_task_cio_read (c, vec[0].iov_base, vec[0].iov_len, YIELDER); break;
    case READV: r = hev_task_cio_readv (c, vec, cnt, YIELDER); break;
    case WRITE: r = hev_task_cio_write (c, vec[0].iov_base, vec[0].iov_len, YIELDER); break;
    case WRITEV: r = hev_task_cio_writev (c, vec, cnt, YIELDER); break;
    case READ_X: r = hev_task_cio_read_exact (c, vec[0].iov_base, vec[0].iov_len, YIELDER); break;
    case READV_X: r = hev_task_cio_readv_exact (c, vec, cnt, YIELDER); break;
    case WRITE_X: r = hev_task_cio_write_exact (c, vec[0].iov_base, vec[0].iov_len, YIELDER); break;
    case WRITEV_X: r = hev_task_cio_writev_exact (c, vec, cnt, YIELDER); break;
    case READ_D: r = hev_task_cio_read_dgram (c, vec[0].iov_base, vec[0].iov_len, addr, YIELDER); break;
    case READV_D: r = hev_task_cio_readv_dgram (c, vec, cnt, addr, YIELDER); break;
    case WRITE_D: r = hev_task_cio_write_dgram (c, vec[0].iov_base, vec[0].iov_len, addr, YIELDER); break;
    case WRITEV_D: r = hev_task_cio_writev_dgram (c, vec, cnt, addr, YIELDER); break;
    case FLUSH: r = hev_task_cio_flush (c, YIELDER); break;
    case GET_FD: k = sym_choice ("dir", 2); r = hev_task_cio_get_fd (c, k); break;
    }
    call_done ();
    none = layer == L_NONE || (layer == L_FD && dgram);
    if (none) {
        ASSERT (r == -1 && !over, "an operation no layer supports must fail");
        if (op != GET_FD) ASSERT (c->err != EAGAIN, "an operation no layer supports must not be retried");
        sym_cover ("unsupported");
    } else if (op == GET_FD) {
        ASSERT (r == (layer == L_NULL ? -1 : k ? fdo : fdi), "another descriptor than the layer's");
    } else if (op == FLUSH) {
        ASSERT (r == 0, "flush of a layer that buffers nothing succeeds");
        sym_cover ("flushed");
    } else if (layer == L_NULL) {
        ASSERT (r == (dir ? (int64_t)len : 0), "the null layer takes everything and gives nothing");
        sym_cover ("null");
    } else if (stopped) ASSERT (r == -2, "-2 when the yielder asked to stop");
    else {
        ASSERT (over, "returned before everything was moved");
        if (size) {
            ASSERT (r == (int64_t)size, "the result is not the number of bytes moved");
            COVER_IF (size < len, "ended early");
            COVER_IF (size == len && parts > 1, "completed in parts");
        } else {
            ASSERT (r == last, "another result than the layer's");
            if (r < 0) { ASSERT (c->err == last_err, "another error code than the layer's"); sym_cover ("failed"); }
        }
    }
    for (int i = 0; i < cnt; i++)
        ASSERT (vec[i].iov_base == vec0[i].iov_base && vec[i].iov_len == vec0[i].iov_len, "the caller's buffer list was changed");
    io.ended = 1;
}
void harness (void) { io_run (entry); }
