/* C28: histories of references, chains and their destruction. */
#include "env.h"
#include <string.h>
#include "hev-task.h"
#include "hev-task-io.h"
#include "hev-object-atomic.h"
#include "hev-task-cio.h"
#include "hev-task-cio-fd.h"
#include "hev-task-cio-socket.h"
#include "hev-task-cio-null.h"
#include "hev-task-cio-buffer.h"

#ifndef OPS
#define OPS 5
#endif
#ifndef NO
#define NO 3                   /* objects */
#endif
#ifndef FAULTS
#define FAULTS 0
#endif

enum { FD2, FD1, SOCK, BUFFER, FD0, NUL, OBJ, ATOMIC };
#ifndef KIND0
#define KIND0 FD2
#define KINDS 3
#endif

static struct {
    void *p;
    int kind, held, owner, next, dead;
    int fd[2];
} o[NO];
static int n, base;
static int nclosed[64];
static int ndestroyed[NO];
static HevObjectClass counting, counting_atomic;
static HevObjectAtomic plain[NO];

int env_close (int f)
{
    ASSERT (f >= 10 && f < 10 + 2 * NO, "another descriptor than the layers' was closed");
    nclosed[f]++;
    return sym_decide ("close_fails") ? -1 : 0;
}
static void count_destruct (HevObject *p)
{
    int i = (HevObjectAtomic *)p - plain;
    ndestroyed[i]++;
    (o[i].kind == ATOMIC ? hev_object_atomic_class () : hev_object_class ())->destruct (p);
}
/* the model: who dies when a reference goes */
static void drop (int i)
{
    if (o[i].held || o[i].owner >= 0) return;
    o[i].dead = 1;
    if (o[i].next >= 0) {
        int k = o[i].next;
        o[k].owner = -1;
        drop (k);
    }
}
static void compare (void)
{
    for (int i = 0; i < n; i++) {
        if (o[i].kind < OBJ) ASSERT (sym_is_live (o[i].p) == !o[i].dead, o[i].dead ? "an object without references was not freed" : "an object was freed although it is still referenced");
        else ASSERT (ndestroyed[i] == o[i].dead, o[i].dead ? "an object without references was not destroyed once" : "an object was destroyed although it is still referenced");
        for (int k = 0; k < 2; k++)
            if (o[i].fd[k] >= 0) ASSERT (nclosed[o[i].fd[k]] == o[i].dead, o[i].dead ? "a descriptor was not closed exactly once" : "the descriptor of a living layer was closed");
    }
}
static void create (void)
{
    int k = KIND0 + sym_choice ("kind", KINDS), f = env_failed, b = env_nblocks;
    int fd = 10 + 2 * n;
    void *p = NULL;
    o[n].fd[0] = o[n].fd[1] = -1;
    switch (k) {
    case FD2: o[n].fd[0] = fd; o[n].fd[1] = fd + 1; p = hev_task_cio_fd_new (fd, fd + 1); break;
    case FD1: o[n].fd[0] = fd; p = hev_task_cio_fd_new (fd, fd); break;
    case FD0: {
        int out = sym_decide ("out");
        o[n].fd[0] = fd;
        p = out ? hev_task_cio_fd_new (-1, fd) : hev_task_cio_fd_new (fd, -1);
        break;
    }
    case SOCK: o[n].fd[0] = fd; p = hev_task_cio_socket_new (2, fd); break;
    case NUL: p = hev_task_cio_null_new (); break;
    case BUFFER: p = hev_task_cio_buffer_new ((size_t)sym_choice ("rsize", 2), 3); break;
    case OBJ: p = &plain[n]; hev_object_construct (HEV_OBJECT (p)); HEV_OBJECT (p)->klass = &counting; break;
    case ATOMIC: p = &plain[n]; hev_object_atomic_construct (p); HEV_OBJECT (p)->klass = &counting_atomic; break;
    }
    if (!p) {
        ASSERT (env_failed > f, "no object although nothing failed");
        ASSERT (env_nblocks == b, "a failed creation left memory behind");
        for (int i = 0; i < 64; i++) ASSERT (i < 10 + 2 * n || !nclosed[i], "a failed creation closed the caller's descriptor");
        sym_cover ("not created");
        sym_end ();
    }
    o[n].p = p;
    o[n].kind = k;
    o[n].held = 1;
    o[n].owner = o[n].next = -1;
    n++;
}
/* one of the objects the caller has a reference to */
static int some (int chain)
{
    int c = 0, k, i;
    for (i = 0; i < n; i++) if (o[i].held && (!chain || o[i].kind < OBJ)) c++;
    if (!c) return -1;
    k = sym_choice ("which", c);
    for (i = 0;; i++) if (o[i].held && (!chain || o[i].kind < OBJ) && k-- == 0) return i;
}
void harness (void)
{
    int i, k, x;
    HevTaskCIO *r;
    counting = *hev_object_class ();
    counting_atomic = *hev_object_atomic_class ();
    counting.destruct = counting_atomic.destruct = count_destruct;
    /* what the first use leaves behind */
    hev_object_unref (HEV_OBJECT (hev_task_cio_null_new ()));
    base = env_nblocks;
    env_fail_malloc = FAULTS;
    for (int op = 0; op < OPS; op++) {
        k = n == 0 ? 0 : sym_choice ("op", n < NO ? 5 : 4);
        if (n && n < NO) k = k == 4 ? 0 : k + 1;
        else if (n) k++;
        switch (k) {
        case 0: create (); break;
        case 1:
            if ((i = some (0)) < 0) sym_end ();
            hev_object_ref (HEV_OBJECT (o[i].p));
            o[i].held++;
            sym_cover ("referenced");
            break;
        case 2:
            if ((i = some (0)) < 0) sym_end ();
            hev_object_unref (HEV_OBJECT (o[i].p));
            o[i].held--;
            drop (i);
            COVER_IF (o[i].dead, "destroyed");
            COVER_IF (o[i].dead && o[i].next >= 0 && !o[o[i].next].dead, "chain outlived");
            break;
        case 3:
            i = some (1);
            if (i < 0 || o[i].next >= 0) sym_end ();
            k = some (1);
            for (x = k; x >= 0; x = o[x].next) if (x == i) sym_end ();
            if (o[k].owner >= 0) sym_end ();
            r = hev_task_cio_push (HEV_TASK_CIO (o[i].p), HEV_TASK_CIO (o[k].p));
            ASSERT (r == o[i].p, "push returns the top of the chain");
            o[k].held--;
            o[k].owner = i;
            o[i].next = k;
            sym_cover ("pushed");
            break;
        case 4:
            if ((i = some (1)) < 0) sym_end ();
            r = hev_task_cio_pop (HEV_TASK_CIO (o[i].p));
            k = o[i].next;
            ASSERT (r == (k < 0 ? NULL : o[k].p), "pop returns the next layer");
            o[i].next = -1;
            o[i].held--;
            if (k >= 0) { o[k].owner = -1; o[k].held++; sym_cover ("popped"); }
            drop (i);
            break;
        }
        compare ();
    }
    env_fail_malloc = 0;
    for (i = 0; i < n; i++)
        while (o[i].held) {
            hev_object_unref (HEV_OBJECT (o[i].p));
            o[i].held--;
            drop (i);
            compare ();
        }
    for (i = 0; i < n; i++) ASSERT (o[i].dead, "the model lost an object");
    ASSERT (env_nblocks == base, "memory was not released");
    sym_cover ("released");
}
