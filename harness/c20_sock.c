/* C20: recv, send, recvfrom, sendto, recvmsg, sendmsg, with and without wait-all. */
#include "iocall.h"
#include <sys/uio.h>
#include "hev-task-io-socket.h"

#ifndef NP
#define NP 3                   /* system calls that move bytes */
#endif
#ifndef NV
#define NV 3                   /* buffers per message at most */
#endif
#ifndef OP0
#define OP0 0
#define OPN 6
#endif

enum { RECV, SEND, RECVFROM, SENDTO, RECVMSG, SENDMSG };
static int op, fd, flags, cnt, wall, parts;
static struct iovec vec[NV], vec0[NV];
static struct msghdr msg;
static uint64_t len, size;
static int64_t last;
static void *addr, *ctl;
static socklen_t alen, alen0, alen_got;
static size_t clen0, clen_got;
static int mflags_got, got;

static uint64_t place (const struct iovec *v, int n, uint64_t j)
{
    for (int i = 0; i < n; i++) {
        if (j < v[i].iov_len) return (uint64_t)v[i].iov_base + j;
        j -= v[i].iov_len;
    }
    sym_fail ("fewer bytes than left");
}
static int64_t moved (int dir, int f, const struct iovec *v, int c, int fl)
{
    uint64_t sum = 0, j;
    call_begins ();
    ASSERT (dir == (op & 1), "the call goes in the other direction");
    ASSERT (f == fd, "another descriptor than the caller's");
    ASSERT (fl == (flags & ~MSG_WAITALL), "the flags are not the caller's without wait-all");
    if (parts && wall && !dir && (flags & MSG_PEEK)) {
        /* what was peeked at comes first again */
        ASSERT (c > 0 && v[0].iov_base == vec0[0].iov_base, "peeking with wait-all stores the first bytes again in place of the later ones");
        sym_end ();
    }
    for (int i = 0; i < c; i++) sum += v[i].iov_len;
    ASSERT (sum == len - size, "not the number of bytes still to move");
    if (sum) {
        j = sym_val ("any_byte", RW + 2) << SHIFT | (SHIFT ? sym_val ("any_low", SHIFT ? SHIFT : 1) : 0);
        ASSUME (j < sum);
        ASSERT (place (v, c, j) == place (vec0, cnt, size + j), "a byte is moved at the wrong place");
    }
    last = call_result (sum, EAGAIN, EAGAIN);
    if (asked) return last;
    if (last > 0 && wall) {
        ASSUME (parts < NP);
        parts++;
        size += (uint64_t)last;
        if (size >= len) over = 1;
        else sym_cover ("went on");
    } else over = 1;
    return last;
}
ssize_t env_recv (int f, void *b, size_t n, int fl) { struct iovec v = { b, n }; return moved (0, f, &v, 1, fl); }
ssize_t env_send (int f, const void *b, size_t n, int fl) { struct iovec v = { (void *)b, n }; return moved (1, f, &v, 1, fl); }
ssize_t env_recvfrom (int f, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l)
{
    struct iovec v = { b, n };
    int64_t r;
    if (op == RECVFROM) {
        ASSERT ((void *)a == addr, "the address buffer is not the caller's");
        ASSERT (got || !l || *l == alen0, "the size of the address buffer is not the caller's");
        ASSERT (l == &alen || (l && !addr), "the address size is not returned to the caller");
    } else ASSERT (!a, "an address buffer from nowhere");
    r = moved (0, f, &v, 1, fl);
    if (r >= 0 && op == RECVFROM && l) {
        *l = sym_u32 ("addr_len_got");
        alen_got = *l;
        got = 1;
    }
    return r;
}
ssize_t env_sendto (int f, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l)
{
    struct iovec v = { (void *)b, n };
    if (op == SENDTO) ASSERT ((void *)a == addr && l == alen0, "the address is not the caller's");
    else ASSERT (!a, "an address from nowhere");
    return moved (1, f, &v, 1, fl);
}
ssize_t env_recvmsg (int f, struct msghdr *m, int fl)
{
    int64_t r;
    if (op == RECVMSG) {
        if (!got) {
            ASSERT (m->msg_name == addr && m->msg_namelen == alen0, "the address buffer is not the caller's");
            ASSERT (m->msg_control == ctl && m->msg_controllen == clen0, "the control buffer is not the caller's");
        } else {
            ASSERT (!m->msg_name || !m->msg_namelen || (m->msg_name == addr && m->msg_namelen <= alen0), "the address buffer is not the caller's");
            ASSERT (!m->msg_controllen || !m->msg_control, "control data of a later part would replace the first");
        }
    } else if (op == RECVFROM) {
        ASSERT (m->msg_name == addr && (got || m->msg_namelen == alen0), "the address buffer is not the caller's");
        ASSERT (!m->msg_controllen, "a control buffer from nowhere");
    } else ASSERT (!m->msg_name && !m->msg_controllen, "an address from nowhere");
    r = moved (0, f, m->msg_iov, (int)m->msg_iovlen, fl);
    if (r >= 0) {
        int first = !got;
        got = 1;
        if (m->msg_name) { m->msg_namelen = sym_u32 ("addr_len_got"); if (first) alen_got = m->msg_namelen; }
        else { m->msg_namelen = 0; if (first) alen_got = 0; }
        if (m->msg_controllen) { uint64_t n = sym_u64 ("ctl_len_got"); ASSUME (n <= m->msg_controllen); m->msg_controllen = n; }
        if (first) clen_got = m->msg_controllen;
        m->msg_flags = (int)sym_u32 ("msg_flags_got");
        if (first) mflags_got = m->msg_flags;
    }
    return r;
}
ssize_t env_sendmsg (int f, const struct msghdr *m, int fl)
{
    if (op == SENDMSG || op == SENDTO) {
        ASSERT (m->msg_name == addr && m->msg_namelen == alen0, "the address is not the caller's");
        if (!size && op == SENDMSG) ASSERT (m->msg_control == ctl && m->msg_controllen == clen0, "the control data are not the caller's");
        else ASSERT (!m->msg_controllen || !m->msg_control, "the control data are sent again");
    } else ASSERT (!m->msg_name && !m->msg_controllen, "an address from nowhere");
    return moved (1, f, m->msg_iov, (int)m->msg_iovlen, fl);
}

static void entry (void *p)
{
    ssize_t r;
    (void)p;
    op = OP0 + sym_choice ("op", OPN);
    fd = (int)sym_u32 ("fd");
    flags = (int)sym_u32 ("flags");
    wall = sym_decide ("wait_all");
    ASSUME (!!(flags & MSG_WAITALL) == wall);
    cnt = op >= RECVMSG ? sym_choice ("cnt", NV + 1) : 1;
    for (int i = 0; i < cnt; i++) {
        uint64_t b = sym_u64 ("base"), l = sym_val ("len", RW) << SHIFT;
        vec[i].iov_base = (void *)b;
        vec[i].iov_len = l;
        vec0[i] = vec[i];
        len += l;
    }
    if (op >= RECVFROM) {
        addr = (void *)sym_u64 ("addr");
        alen = alen0 = sym_u32 ("addr_len");
    }
    if (op >= RECVMSG) {
        ctl = (void *)sym_u64 ("ctl");
        clen0 = sym_u64 ("ctl_len");
        ASSUME (!!ctl == !!clen0 && !!addr == !!alen0);
        msg.msg_name = addr;
        msg.msg_namelen = alen0;
        msg.msg_control = ctl;
        msg.msg_controllen = clen0;
        msg.msg_iov = vec;
        msg.msg_iovlen = cnt;
        msg.msg_flags = (int)sym_u32 ("msg_flags");
    }
    call_start ();
    switch (op) {
    case RECV: r = hev_task_io_socket_recv (fd, vec[0].iov_base, vec[0].iov_len, flags, YIELDER); break;
    case SEND: r = hev_task_io_socket_send (fd, vec[0].iov_base, vec[0].iov_len, flags, YIELDER); break;
    case RECVFROM: r = hev_task_io_socket_recvfrom (fd, vec[0].iov_base, vec[0].iov_len, flags, addr, &alen, YIELDER); break;
    case SENDTO: r = hev_task_io_socket_sendto (fd, vec[0].iov_base, vec[0].iov_len, flags, addr, alen, YIELDER); break;
    case RECVMSG: r = hev_task_io_socket_recvmsg (fd, &msg, flags, YIELDER); break;
    default: r = hev_task_io_socket_sendmsg (fd, &msg, flags, YIELDER); break;
    }
    int e = errno;
    call_done ();
    if (stopped) ASSERT (r == -2, "-2 when the yielder asked to stop");
    else {
        ASSERT (over, "returned before everything was moved");
        if (size) {
            ASSERT (r == (int64_t)size, "the result is not the number of bytes moved");
            COVER_IF (size < len, "ended early");
            COVER_IF (size == len && parts > 1, "completed in parts");
        } else {
            ASSERT (r == last, "another result than the system call's");
            if (r < 0) { ASSERT (e == last_err, "another error code than the system call's"); sym_cover ("failed"); }
        }
    }
    if (op == RECVFROM && got) ASSERT (alen == alen_got, "the size of the address is not handed on");
    if (op == RECVMSG) {
        if (got) {
            ASSERT (!addr || msg.msg_namelen == alen_got, "the size of the sender's address is not handed on");
            ASSERT (msg.msg_controllen == clen_got, "the size of the received control data is not handed on");
            if (parts <= 1) ASSERT (msg.msg_flags == mflags_got, "the flags of the received message are not handed on");
        } else ASSERT (msg.msg_namelen == alen0 && msg.msg_controllen == clen0, "the message header changed although nothing was received");
    }
    if (op >= RECVMSG) {
        ASSERT (msg.msg_iov == vec && msg.msg_iovlen == (size_t)cnt && msg.msg_name == addr && msg.msg_control == ctl, "the caller's message header was changed");
        for (int i = 0; i < cnt; i++)
            ASSERT (vec[i].iov_base == vec0[i].iov_base && vec[i].iov_len == vec0[i].iov_len, "the caller's buffer list was changed");
    }
    io.ended = 1;
}
void harness (void) { io_run (entry); }
