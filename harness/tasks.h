/* Shared pieces of the harnesses that run tasks. */
#ifndef TASKS_H
#define TASKS_H
#include "env.h"
#include <string.h>
#include "hev-task.h"
#include "hev-task-system.h"

typedef struct { HevTask *t; int id, started, ended; } T;

static inline void sys_init (void)
{
    if (hev_task_system_init () < 0) sym_fail ("initialisation failed without a fault");
}
static inline void spawn (T *t, int id, int prio, HevTaskEntry fn, void *data)
{
    t->id = id;
    t->ended = 0;
    t->t = hev_task_new (-1);
    ASSERT (t->t != NULL, "task not created without a fault");
    if (prio >= 0) hev_task_set_priority (t->t, prio);
    t->started = 1;
    hev_task_run (t->t, fn, data);
}
/* wake a task unless it has ended (waking an ended task is a caller error) */
static inline void stray_wake (T *t)
{
    if (t->started && !t->ended) hev_task_wakeup (t->t);
}
static inline int some_prio (const char *n)
{
    static const int p[] = { 8, 1, 15 };
    return p[sym_choice (n, 3)];
}
#endif
