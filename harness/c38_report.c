/* C38: what is reported about tasks, at every moment of a short history. */
#include "tasks.h"
#include <stdarg.h>
#include <stdio.h>

#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 4
#endif

typedef struct { HevTask *t; int live, waiting, prio; void *data; } R;
static R r[NT + 1];             /* the last: the task that ends the run */
static int budget, nlive, fd, cells[NT + 1];

static int state (int i) { return !r[i].live ? HEV_TASK_STOPPED : r[i].waiting ? HEV_TASK_WAITING : HEV_TASK_RUNNING; }

#ifdef DEBUGGER
unsigned int _hev_task_system_get_total_task_count (void);
unsigned int _hev_task_system_get_running_task_count (void);
HevTask *_hev_task_system_get_current_task (void);
void *_hev_task_system_get_context (void);
void _hev_task_system_dump_all_tasks (void);

static int listed[NT + 1], last;

static void word (const char *s)
{
    static const char *const w[] = { "STOPPED", "RUNNING", "WAITING" };
    static const int st[] = { HEV_TASK_STOPPED, HEV_TASK_RUNNING, HEV_TASK_WAITING };
    for (int i = 0; i < 3; i++)
        if (!strcmp (s, w[i])) ASSERT (last >= 0 && state (last) == st[i], "a task is listed with another state");
}
static void say (const char *f, va_list ap)
{
    for (; *f; f++) {
        int wide = 0;
        if (*f != '%') continue;
        for (f++; (*f >= '0' && *f <= '9') || *f == '-' || *f == '#'; f++);
        for (; *f == 'l' || *f == 'z' || *f == 'j'; f++) wide = 1;
        if (*f == 'p') {
            void *p = va_arg (ap, void *);
            for (int i = 0; i <= NT; i++) if (r[i].t && p == r[i].t) { listed[i]++; last = i; }
        } else if (*f == 's') word (va_arg (ap, const char *));
        else if (*f != '%' && wide) (void)va_arg (ap, long);
        else if (*f != '%') (void)va_arg (ap, int);
    }
}
int env_fprintf (FILE *o, const char *f, ...) { va_list ap; (void)o; va_start (ap, f); say (f, ap); va_end (ap); return 1; }
int env_printf (const char *f, ...) { va_list ap; va_start (ap, f); say (f, ap); va_end (ap); return 1; }
int env_puts (const char *s) { (void)s; return 1; }
int env_putchar (int c) { return c; }
#endif

static void look (int me)
{
    int total = 0, running = 0;
    HevTask *self = hev_task_self ();
    ASSERT (self == (me < 0 ? NULL : r[me].t), "self is another task");
    for (int i = 0; i <= NT; i++) {
        if (!r[i].t) continue;
        ASSERT ((int)hev_task_get_state (r[i].t) == state (i), "another state is reported than the task's");
        ASSERT (hev_task_get_priority (r[i].t) == r[i].prio, "another priority is reported than the one set");
        if (r[i].live) ASSERT (hev_task_get_data (r[i].t) == r[i].data, "other data is reported than the task was started with");
        total += r[i].live;
        running += r[i].live && !r[i].waiting;
    }
    COVER_IF (me >= 0 && running < total, "looked while one waited");
#ifdef DEBUGGER
    ASSERT ((int)_hev_task_system_get_total_task_count () == total, "another number of started tasks is reported");
    ASSERT ((int)_hev_task_system_get_running_task_count () == running, "another number of runnable tasks is reported");
    ASSERT (_hev_task_system_get_current_task () == self, "another current task is reported");
    ASSERT (_hev_task_system_get_context () != NULL, "no context is reported");
    memset (listed, 0, sizeof (listed));
    last = -1;
    _hev_task_system_dump_all_tasks ();
    for (int i = 0; i <= NT; i++) ASSERT (listed[i] == (r[i].t != NULL), "a task is not listed once");
#endif
}

static void body (void *p);
static void start (int i)
{
    hev_task_ref (r[i].t);
    r[i].data = sym_decide ("data") ? &cells[i] : NULL;
    r[i].live = 1;
    nlive++;
    hev_task_run (r[i].t, body, r[i].data);
}
static void wake (int i)
{
    if (!r[i].live) return;
    hev_task_wakeup (r[i].t);
    r[i].waiting = 0;
}
static void body (void *p)
{
    int me = 0, i;
    while (me < NT && hev_task_self () != r[me].t) me++;
    ASSERT (me < NT, "self is another task");
    ASSERT (p == r[me].data, "the entry got other data");
    for (;;) {
        look (me);
        if (budget <= 0) break;
        budget--;
        switch (sym_choice ("op", 5)) {
        case 0:
            i = sym_choice ("which", NT);
            if (r[i].live) sym_end ();
            start (i);
            sym_cover ("started by a task");
            break;
        case 1:
            hev_task_yield (HEV_TASK_YIELD);
            break;
        case 2:
            r[me].waiting = 1;
            hev_task_yield (HEV_TASK_WAITIO);
            ASSERT (!r[me].waiting, "resumed without being woken");
            break;
        case 3:
            wake (sym_choice ("which", NT));
            break;
        case 4: {
            static const int p[] = { -1, 3, 16 };
            i = sym_choice ("which", NT);
            int k = sym_choice ("priority", 3);
            hev_task_set_priority (r[i].t, p[k]);
            r[i].prio = p[k] < HEV_TASK_PRIORITY_MIN ? HEV_TASK_PRIORITY_MIN : p[k] > HEV_TASK_PRIORITY_MAX ? HEV_TASK_PRIORITY_MAX : p[k];
            sym_cover ("changed priority");
            break;
        }
        }
    }
    r[me].live = 0;
    nlive--;
}
void env_hook_idle (void) { r[NT].waiting = 0; env_fire (fd, EPOLLIN); }
static void ender (void *p)
{
    (void)p;
    hev_task_add_fd (hev_task_self (), fd, POLLIN);
    look (NT);
    while (nlive) {
        for (int i = 0; i < NT; i++) wake (i);
        r[NT].waiting = 1;
        hev_task_yield (HEV_TASK_WAITIO);
        look (NT);
    }
    hev_task_del_fd (hev_task_self (), fd);
    /* released when it ends */
    r[NT].t = NULL;
    r[NT].live = 0;
}
static void make (int i)
{
    r[i].t = hev_task_new (-1);
    ASSERT (r[i].t, "task not created without a fault");
    r[i].prio = HEV_TASK_PRIORITY_DEFAULT;
}
void harness (void)
{
    sys_init ();
    fd = env_stream (NULL, 0, 0, 0);
    budget = OPS;
    look (-1);
    for (int i = 0; i <= NT; i++) make (i);
    look (-1);
    start (0);
    if (sym_decide ("start1")) start (1);
    r[NT].live = 1;
    hev_task_run (r[NT].t, ender, NULL);
    look (-1);
    hev_task_system_run ();
    look (-1);
    for (int i = 0; i < NT; i++) {
        hev_task_unref (r[i].t);
        r[i].t = NULL;
        look (-1);
    }
    hev_task_system_fini ();
    ASSERT (env_nblocks == 0 && env_nmaps == 0, "memory left");
    sym_cover ("ended");
}
