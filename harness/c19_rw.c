/* C19: read, readv, write, writev. */
#include "iocall.h"
#include <sys/uio.h>

enum { RD, RDV, WR, WRV };
static int op, fd;
static struct iovec vec[2];
static int cnt;
static int64_t outcome;

static int64_t moved (int dir, int f, const struct iovec *v, int c)
{
    call_begins ();
    ASSERT (dir == op / 2, "the call goes in the other direction");
    ASSERT (f == fd, "another descriptor than the caller's");
    ASSERT (c == cnt, "another number of buffers than the caller's");
    for (int i = 0; i < cnt; i++)
        ASSERT (v[i].iov_base == vec[i].iov_base && v[i].iov_len == vec[i].iov_len, "other buffers or sizes than the caller's");
    outcome = call_result (INT64_MAX, EAGAIN, EAGAIN);
    if (!asked) over = 1;
    return outcome;
}
ssize_t env_read (int f, void *b, size_t n) { struct iovec v = { b, n }; return moved (0, f, &v, 1); }
ssize_t env_readv (int f, const struct iovec *v, int c) { return moved (0, f, v, c); }
ssize_t env_write (int f, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return moved (1, f, &v, 1); }
ssize_t env_writev (int f, const struct iovec *v, int c) { return moved (1, f, v, c); }

static void entry (void *p)
{
    ssize_t r;
    (void)p;
    op = sym_choice ("op", 4);
    fd = (int)sym_u32 ("fd");
    cnt = op & 1 ? sym_choice ("cnt", 3) : 1;
    for (int i = 0; i < cnt; i++) {
        vec[i].iov_base = (void *)sym_u64 ("base");
        vec[i].iov_len = sym_u64 ("len");
    }
    call_start ();
    switch (op) {
    case RD: r = hev_task_io_read (fd, vec[0].iov_base, vec[0].iov_len, YIELDER); break;
    case RDV: r = hev_task_io_readv (fd, vec, cnt, YIELDER); break;
    case WR: r = hev_task_io_write (fd, vec[0].iov_base, vec[0].iov_len, YIELDER); break;
    default: r = hev_task_io_writev (fd, vec, cnt, YIELDER); break;
    }
    int e = errno;
    call_done ();
    if (stopped) ASSERT (r == -2, "-2 when the yielder asked to stop");
    else {
        ASSERT (over, "returned without an outcome");
        ASSERT (r == outcome, "another result than the system call's");
        if (r < 0) { ASSERT (e == last_err, "another error code than the system call's"); sym_cover ("failed"); }
        else sym_cover ("done");
    }
    io.ended = 1;
}
void harness (void) { io_run (entry); }
