/* C28: two threads create the first object of a class at the same time. */
#include "threads.h"
#include <string.h>
#include "hev-task.h"
#include "hev-task-io.h"
#include "hev-object-atomic.h"
#include "hev-task-cio-fd.h"
#include "hev-task-cio-socket.h"
#include "hev-task-cio-buffer.h"
#include "hev-task-cio-null.h"

typedef struct { void *f[13]; } Class;
static HevObjectClass *(*type) (void);
static size_t size;
static HevObjectClass *got[NTHR];
static Class seen[NTHR];

static void thread (int me)
{
    got[me] = type ();
    /* what an object made now would be used with */
    memcpy (&seen[me], got[me], size);
}
void harness (void)
{
    size = sizeof (HevTaskCIOClass);
    switch (sym_choice ("class", 7)) {
    case 0: type = hev_object_class; size = sizeof (HevObjectClass); break;
    case 1: type = hev_object_atomic_class; size = sizeof (HevObjectClass); break;
    case 2: type = hev_task_cio_class; break;
    case 3: type = hev_task_cio_fd_class; break;
    case 4: type = hev_task_cio_socket_class; break;
    case 5: type = hev_task_cio_buffer_class; break;
    case 6: type = hev_task_cio_null_class; break;
    }
    thr_anywhere = 1;
    for (int i = 0; i < NTHR; i++) thr_new (thread);
    ASSERT (thr_run (), "the threads do not end");
    for (int i = 0; i < NTHR; i++) {
        ASSERT (got[i] == got[0] && type () == got[0], "a class is set up twice");
        for (size_t k = 1; k < size / sizeof (void *); k++)
            ASSERT (seen[i].f[k] == ((Class *)got[0])->f[k], "an object can be made with functions missing while another thread sets up the class");
    }
    sym_cover ("set up");
}
