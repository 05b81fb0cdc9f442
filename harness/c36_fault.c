/* C36: a fault in a running system. */
#include "tasks.h"
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>

#define NT 3

static T t[NT];
static char *base[NT];
static uint64_t len[NT];
static int reports, named[NT], called[2], signo, ended1;
static siginfo_t info;
static char context;

static void scan (const char *f, va_list ap)
{
    for (; *f; f++) {
        if (f[0] != '%') continue;
        f++;
        if (*f == 'p') {
            void *p = va_arg (ap, void *);
            for (int i = 0; i < NT; i++) if (p == t[i].t) named[i] = 1;
        } else if (*f != '%') return;
    }
}
static void say (const char *f, va_list ap) { reports++; scan (f, ap); }
int env_snprintf (char *b, size_t n, const char *f, ...) { va_list ap; va_start (ap, f); scan (f, ap); va_end (ap); if (n > 1) { b[0] = '?'; b[1] = 0; } return n > 1; }
ssize_t env_write (int fd, const void *b, size_t n) { sym_access ((void *)b, n); if (fd == 2) reports++; return (ssize_t)n; }
int env_fprintf (FILE *o, const char *f, ...) { va_list ap; (void)o; va_start (ap, f); say (f, ap); va_end (ap); return 1; }
int env_printf (const char *f, ...) { va_list ap; va_start (ap, f); say (f, ap); va_end (ap); return 1; }
int env_dprintf (int o, const char *f, ...) { va_list ap; (void)o; va_start (ap, f); say (f, ap); va_end (ap); return 1; }
size_t env_fwrite (const void *b, size_t s, size_t n, FILE *o) { (void)b; (void)s; (void)o; reports++; return n; }
int env_fputs (const char *s, FILE *o) { (void)s; (void)o; reports++; return 1; }
int env_fputc (int c, FILE *o) { (void)o; reports++; return c; }
int env_fflush (FILE *o) { (void)o; return 0; }

static void old (int which, int s, siginfo_t *si, void *c)
{
    ASSERT (which == (s == SIGSEGV), "the handler of another signal is called");
    ASSERT (s == signo && si == &info && c == &context, "the earlier handler gets other arguments");
    called[which]++;
}
static void old_bus (int s, siginfo_t *si, void *c) { old (0, s, si, c); }
static void old_segv (int s, siginfo_t *si, void *c) { old (1, s, si, c); }

static void fault (void)
{
    int k = sym_choice ("where", NT + 1), segv = sym_decide ("segv"), in = -1;
    void *before[2] = { env_handler[0], env_handler[1] };
    char *a;
    if (k < NT) a = base[k] + sym_u64 ("offset");
    else a = (char *)sym_u64 ("address");
    for (int i = 0; i < NT; i++) {
        if (i == 1 && ended1) continue;
        ASSUME (a != base[i] + len[i]);
        if (a >= base[i] && a < base[i] + len[i]) in = i;
    }
    ASSUME (in < 0 || in == k); /* how far the stacks are apart is not the same in a replay */
    in = (int)sym_pick ((uint64_t)(in + 1)) - 1;
    signo = segv ? SIGSEGV : SIGBUS;
    info.si_signo = signo;
    info.si_addr = a;
    reports = called[0] = called[1] = 0;
    for (int i = 0; i < NT; i++) named[i] = 0;
    ((void (*) (int, siginfo_t *, void *))before[segv]) (signo, &info, &context);
    if (in >= 0) ASSERT (reports > 0, "a fault in a task's stack is not reported");
    else ASSERT (reports == 0, "a fault elsewhere is reported as an overflow");
    for (int i = 0; i < NT; i++) if (i != in) ASSERT (!named[i], "the fault is reported for another task");
    sym_cover (in >= 0 ? "in a stack" : "elsewhere");
#ifdef DEFAULT
    ASSERT (env_handler[segv] == NULL, "the default action is not taken");
    ASSERT (env_handler[!segv] == before[!segv], "the handling of another signal changed");
    sym_cover ("default");
    sym_end ();
#else
    ASSERT (called[segv] == 1 && called[!segv] == 0, "the earlier handler is not called once");
    sym_cover ("passed on");
#endif
}
static void other (void *p)
{
    (void)p;
    if (sym_decide ("other_ends")) { ended1 = 1; return; }
    hev_task_yield (HEV_TASK_YIELD);
    hev_task_yield (HEV_TASK_YIELD);
    ended1 = 1;
}
static void faulty (void *p)
{
    (void)p;
    hev_task_yield (HEV_TASK_YIELD);
    fault ();
    if (sym_decide ("again")) fault ();
}
void harness (void)
{
#ifdef DEFAULT
    env_sig_preset (NULL, NULL, NULL);
#else
    env_sig_preset (old_bus, old_segv, NULL);
#endif
    sys_init ();
    for (int i = 0; i < NT; i++) {
        t[i].t = hev_task_new (-1);
        ASSERT (t[i].t != NULL, "task not created without a fault");
        base[i] = env_map.base;
        len[i] = env_map.len;
    }
    hev_task_run (t[0].t, faulty, NULL);
    hev_task_run (t[1].t, other, NULL);
    hev_task_system_run ();
    hev_task_unref (t[2].t);
    hev_task_system_fini ();
    sym_cover ("ended");
}
