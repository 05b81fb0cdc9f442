/* C32: functions called on stacks of their own. */
#include "tasks.h"
#include "hev-task-call.h"
#include "hev-memory-allocator.h"

#ifndef NT
#define NT 2
#endif
#ifndef DEPTH
#define DEPTH 2                /* nested calls */
#endif
#ifndef STEPS
#define STEPS 1                /* yields or waits per called function */
#endif
#ifndef JUMPS
#define JUMPS 1                /* calls with the same object */
#endif

typedef struct { HevTaskCall base; int task, depth, runs; uint64_t in, tag; } Call;
static T t[NT], w;
static int waiting[NT], active[NT], blocks[NT];

static void pause_ (int me)
{
    int k = sym_choice ("pause", 3);
    int a = active[me];
    if (k == 1) { hev_task_yield (HEV_TASK_YIELD); sym_cover ("yielded in a call"); }
    if (k == 2) {
        waiting[me] = 1;
        hev_task_yield (HEV_TASK_WAITIO);
        ASSERT (waiting[me] == 2, "resumed by nobody");
        waiting[me] = 0;
        sym_cover ("waited in a call");
    }
    ASSERT (active[me] == a, "the task went on meanwhile");
    ASSERT (hev_task_self () == t[me].t, "another task is current in the call");
}
static uint64_t call (int me, int depth);
static void entry (HevTaskCall *p)
{
    Call *c = (Call *)p;
    int me = c->task, depth = c->depth;
    uint64_t in = c->in, keep = in * 3 + 7;
    active[me]++;
    c->runs++;
    ASSERT (c->tag == 0x1122334455667788ull, "the object's data were overwritten");
    if (sym_decide ("early_value")) hev_task_call_set_retval (p, (void *)1);
    for (int i = 0; i < STEPS; i++) pause_ (me);
    if (depth > 1 && sym_decide ("nested")) {
        uint64_t r = call (me, depth - 1);
        keep += r;
        keep -= r;
        sym_cover ("nested call");
    }
    for (int i = 0; i < STEPS && depth == DEPTH; i++) pause_ (me);
    ASSERT (keep == in * 3 + 7 && c->in == in, "locals of a called function changed");
    hev_task_call_set_retval (p, (void *)(in ^ 0x5555));
    active[me]--;
}
static uint64_t call (int me, int depth)
{
    Call *c = (Call *)hev_task_call_new (sizeof (Call), 16384);
    uint64_t r = 0;
    int a = active[me];
    ASSERT (c != NULL, "no call object without a fault");
    c->task = me;
    c->depth = depth;
    c->runs = 0;
    c->tag = 0x1122334455667788ull;
    for (int i = 0; i < JUMPS; i++) {
        c->in = sym_u64 ("in");
        r = (uint64_t)(uintptr_t)hev_task_call_jump (&c->base, entry);
        ASSERT (c->runs == i + 1 && active[me] == a, "the call returned before its function");
        ASSERT (r == (c->in ^ 0x5555), "another value than the function set");
        ASSERT (c->tag == 0x1122334455667788ull && c->task == me && c->depth == depth, "the object's data were overwritten");
        sym_cover ("returned");
    }
    hev_task_call_destroy (&c->base);
    return r;
}
static void task (void *p)
{
    int me = (int)(intptr_t)p;
    call (me, DEPTH);
    t[me].ended = 1;
}
static void waker (void *p)
{
    (void)p;
    for (int left = 1; left;) {
        left = 0;
        for (int i = 0; i < NT; i++) {
            if (t[i].ended) continue;
            left = 1;
            if (waiting[i] == 1) { waiting[i] = 2; hev_task_wakeup (t[i].t); }
        }
        hev_task_yield (HEV_TASK_YIELD);
    }
}
void harness (void)
{
    int b;
    sys_init ();
    for (int i = 0; i < NT; i++) spawn (&t[i], i, -1, task, (void *)(intptr_t)i);
    spawn (&w, NT, -1, waker, NULL);
    b = env_nblocks;
    hev_task_system_run ();
    for (int i = 0; i < NT; i++) ASSERT (t[i].ended, "a task never ended");
    ASSERT (env_nblocks <= b, "a call left memory behind");
    sym_cover ("ended");
}

/* sizes */
void sizes (void)
{
    int base = sym_range ("base", sizeof (HevTaskCall), 0x7fffffff), stack = sym_range ("stack", 0, 0x7fffffff);
    int64_t total = (int64_t)base + stack;
    char *s, *top;
    int b = env_nblocks;
    env_malloc_limit = 0x40000000;
    s = (char *)hev_task_call_new (base, stack);
    if (!s) {
        ASSERT (total > 0x40000000 - 64 || env_failed, "no call object although there is memory");
        sym_cover ("too large");
        return;
    }
    top = ((HevTaskCall *)s)->stack_top;
    ASSERT (((uintptr_t)top & 15) == 0, "the stack is not aligned");
    ASSERT (top - s - base >= (int64_t)stack - 15, "the stack is smaller than requested or overlaps the object");
    sym_access (s, base);
    if (top > s + base) {
        sym_access (s + base, top - s - base);
        sym_cover ("stack");
    }
    hev_task_call_destroy ((HevTaskCall *)s);
    ASSERT (!sym_is_live (s), "the object was not freed");
    sym_cover ("destroyed");
}
