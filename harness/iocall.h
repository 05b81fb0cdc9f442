/* One task makes one I/O call.  The model decides the outcome of every system
 * call; a second task wakes the first only after it was seen to wait. */
#ifndef IOCALL_H
#define IOCALL_H
#include "tasks.h"
#include "hev-task-io.h"

#ifndef NB
#define NB 2                   /* how often a call may block */
#endif
#ifndef RW
#define RW 63                  /* sizes and results have RW bits, SHIFT zeros below */
#define SHIFT 0
#endif

static T io, tick;
static int asked, blocks, over, returned, began, stopped, has_yielder, yielded;
static int last_err, use_yielder, real_yield;
static char ydata;

/* a system call begins */
static void call_begins (void)
{
    ASSERT (began && !returned, "a system call outside the library call");
    ASSERT (!asked, "another system call without having waited");
    ASSERT (!stopped, "a system call after the yielder asked to stop");
    ASSERT (!over, "another system call after the outcome was known");
}
/* it would block */
static int call_blocks (int err)
{
    ASSUME (blocks < NB);
    blocks++;
    asked = 1;
    errno = err;
    return -1;
}
/* a result of -1 or more; sets errno on failure */
static int64_t call_result (uint64_t max, int is_block1, int is_block2)
{
    int64_t r;
    if (sym_decide ("fails")) {
        int e = (int)sym_val ("errno", 12);
        ASSUME (e != 0);
        if (e == is_block1 || e == is_block2) return call_blocks (e);
        last_err = e;
        errno = e;
        return -1;
    }
    last_err = 0;
    r = (int64_t)(sym_val ("result", RW) << SHIFT);
    ASSUME ((uint64_t)r <= max);
    return r;
}
static int yielder (HevTaskYieldType type, void *data)
{
    ASSERT (use_yielder, "a yielder that was not given");
    ASSERT (type == HEV_TASK_WAITIO, "the yielder is told to wait for events");
    ASSERT (data == &ydata, "the yielder gets the caller's data");
    ASSERT (asked, "the yielder is used although nothing would block");
    asked = 0;
    yielded++;
    if (sym_decide ("stop")) {
        stopped = 1;
        sym_cover ("stopped");
        return 1 + (int)sym_val ("stop_value", 8);
    }
    return 0;
}
static void ticker (void *p)
{
    (void)p;
    while (!returned) {
        if (began) {
            int b = blocks;
            ASSERT (asked && !use_yielder, "gave up the processor although nothing would block");
            for (int i = 0; i < 3; i++) {
                ASSERT (hev_task_get_state (io.t) == HEV_TASK_WAITING, "the task does not wait while the call would block");
                hev_task_yield (HEV_TASK_YIELD);
                ASSERT (asked && b == blocks && !returned, "the task went on although nothing woke it");
            }
            asked = 0;
            sym_cover ("waited");
            hev_task_wakeup (io.t);
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
    tick.ended = 1;
}
/* errno may have any value before the call, EAGAIN included */
static void call_start (void)
{
    use_yielder = sym_decide ("use_yielder");
    errno = (int)sym_val ("errno_before", 12);
    began = 1;
}
static void call_done (void)
{
    returned = 1;
    ASSERT (!asked || stopped, "returned although the call would block");
}
#define YIELDER (use_yielder ? yielder : NULL), (use_yielder ? &ydata : (void *)0)

static void io_run (HevTaskEntry fn)
{
    sys_init ();
    spawn (&io, 0, -1, fn, NULL);
    spawn (&tick, 1, -1, ticker, NULL);
    hev_task_system_run ();
    ASSERT (returned && tick.ended, "the tasks do not end");
    hev_task_system_fini ();
    ASSERT (env_nopen == 0, "descriptors are left open");
}
#endif
