/* C28: an object with atomic counting shared by threads. */
#include "threads.h"
#include <string.h>
#include "hev-object-atomic.h"

static struct {
    HevObjectAtomic base;
    int slot[NTHR];
} obj;
static HevObjectClass klass;
static int destroyed, dropped[NTHR], acts[NTHR];

static void destruct (HevObject *p)
{
    ASSERT (p == (void *)&obj, "another object");
    ASSERT (!destroyed, "destroyed twice");
    destroyed = 1;
    for (int i = 0; i < NTHR; i++) ASSERT (dropped[i], "destroyed although a thread still has a reference");
    /* the memory goes: everything the others did with it comes before */
    thr_access (&obj, sizeof (obj), 1);
    hev_object_atomic_class ()->destruct (p);
}
static void use (int me)
{
    ASSERT (!destroyed, "used after it was destroyed");
    thr_access (&obj.slot[me], sizeof (int), 1);
    obj.slot[me]++;
}
static void thread (int me)
{
    use (me);
    if (acts[me]) {
        hev_object_ref (HEV_OBJECT (&obj));
        use (me);
        hev_object_unref (HEV_OBJECT (&obj));
        use (me);
    }
    dropped[me] = 1;
    hev_object_unref (HEV_OBJECT (&obj));
}
void harness (void)
{
    thr_watch (&obj, sizeof (obj));
    hev_object_atomic_construct (&obj.base);
    klass = *HEV_OBJECT (&obj)->klass;
    klass.destruct = destruct;
    HEV_OBJECT (&obj)->klass = &klass;
    for (int i = 1; i < NTHR; i++) hev_object_ref (HEV_OBJECT (&obj));
    for (int i = 0; i < NTHR; i++) {
        acts[i] = sym_decide ("uses_twice");
        thr_new (thread);
    }
    thr_published ();
    ASSERT (thr_run (), "the threads do not end");
    ASSERT (destroyed, "an object without references was not destroyed");
    for (int i = 0; i < NTHR; i++) COVER_IF (acts[i], "references in between");
    sym_cover ("destroyed");
}
