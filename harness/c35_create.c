/* C35: channels, selections, buffers and calls when memory runs out. */
#include "tasks.h"
#include <sys/uio.h>
#include "hev-memory-allocator.h"
#include "hev-task-call.h"
#include "hev-task-channel.h"
#include "hev-task-channel-select.h"
#include "hev-circular-buffer.h"

#ifndef FAULTS
#define FAULTS 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif

static int before, failed;

static void begins (void)
{
    before = env_nblocks;
    failed = env_failed;
    env_fail_malloc = FAULTS;
}
static int ends (int ok)
{
    env_fail_malloc = 0;
    if (ok) { sym_cover (env_failed > failed ? "created all the same" : "created"); return 1; }
    ASSERT (env_failed > failed, "creation failed without a reason");
    ASSERT (env_nblocks == before, "a failed creation left something behind");
    sym_cover ("not created");
    return 0;
}
static void channel (int buffered)
{
    HevTaskChannel *a = NULL, *b = NULL, *w, *r;
    HevTaskChannelSelect *s;
    int size = sym_pickr ("size", 1, 9), n = sym_pickr ("buffers", 1, 3), res, first;
    begins ();
    if (buffered) res = hev_task_channel_new_with_buffers (&a, &b, (unsigned)size, (unsigned)n);
    else res = hev_task_channel_new (&a, &b);
    ASSERT (res == 0 || res == -1, "result of the creation");
    if (!ends (res == 0)) return;
    first = sym_decide ("first");
    if (buffered) {
        uint8_t in[9], out[9] = { 0 };
        for (int i = 0; i < 9; i++) in[i] = sym_u8 ("byte");
        w = first ? a : b;
        r = first ? b : a;
        ASSERT (hev_task_channel_write (w, in, (size_t)size) == size, "a new channel takes no message");
        ASSERT (hev_task_channel_read (r, out, (size_t)size) == size, "a new channel gives no message");
        for (int i = 0; i < size; i++) ASSERT (in[i] == out[i], "another message than the one written");
        sym_cover ("used");
    }
    begins ();
    s = hev_task_channel_select_new ();
    if (ends (s != NULL)) {
        hev_task_channel_select_add (s, a);
        ASSERT (hev_task_channel_select_read (s, 0) == NULL, "an empty channel is readable");
        hev_task_channel_select_del (s, a);
        hev_task_channel_select_destroy (s);
    }
    hev_task_channel_destroy (first ? a : b);
    hev_task_channel_destroy (first ? b : a);
}
static void buffer (void)
{
    int size = sym_pickr ("size", 1, 5);
    struct iovec v[2];
    HevCircularBuffer *c;
    begins ();
    c = hev_circular_buffer_new ((size_t)size);
    if (!ends (c != NULL)) return;
    ASSERT (hev_circular_buffer_get_max_size (c) == (size_t)size && hev_circular_buffer_get_use_size (c) == 0, "a new buffer is not empty");
    ASSERT (hev_circular_buffer_reading (c, v) == 0, "a new buffer is not empty");
    ASSERT (hev_circular_buffer_writing (c, v) == 1 && v[0].iov_len == (size_t)size, "a new buffer has not all its room");
    sym_access (v[0].iov_base, v[0].iov_len);
    hev_circular_buffer_unref (c);
}
static void called (HevTaskCall *c) { hev_task_call_set_retval (c, c); }
static void call (void)
{
    HevTaskCall *c;
    begins ();
    c = hev_task_call_new ((int)sizeof (HevTaskCall), 4096);
    if (!ends (c != NULL)) return;
    ASSERT (hev_task_call_jump (c, called) == c, "another value than the one returned");
    hev_task_call_destroy (c);
}
static void body (void *p)
{
    (void)p;
    for (int k = 0; k < ROUNDS; k++) {
        int n = env_nblocks;
        switch (sym_choice ("what", 4)) {
        case 0: channel (0); break;
        case 1: channel (1); break;
        case 2: buffer (); break;
        case 3: call (); break;
        }
        ASSERT (env_nblocks == n, "memory left after everything was released");
    }
}
void harness (void)
{
    static T t;
    sys_init ();
    spawn (&t, 0, -1, body, NULL);
    hev_task_system_run ();
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0 && env_nopen == 0, "something left at the end");
    sym_cover ("ended");
}

/* allocations of a thread that has not started a system */
void harness_alone (void)
{
    void *p = NULL, *q = NULL;
    for (int k = 0; k < 2; k++) {
        int f = env_failed, n = sym_pickr ("size", 1, 9);
        uint8_t *b;
        env_fail_malloc = env_fail_misc = 2;
        switch (sym_choice ("call", 4)) {
        case 0: b = hev_malloc ((size_t)n); break;
        case 1: b = hev_malloc0 ((size_t)n); for (int i = 0; b && i < n; i++) ASSERT (b[i] == 0, "memory not cleared"); break;
        case 2: b = hev_calloc (1, (size_t)n); for (int i = 0; b && i < n; i++) ASSERT (b[i] == 0, "memory not cleared"); break;
        default: b = hev_realloc (NULL, (size_t)n); break;
        }
        env_fail_malloc = env_fail_misc = 0;
        if (!b) {
            ASSERT (env_failed > f, "no memory without a reason");
            sym_cover (k ? "out of memory" : "no allocator");
            continue;
        }
        sym_access (b, (size_t)n);
        sym_cover ("allocated");
        if (k) q = b; else p = b;
    }
    if (p) hev_free (p);
    if (q) hev_free (q);
    /* at most the thread's allocator is left */
    ASSERT (env_nblocks <= 1, "memory left");
}
