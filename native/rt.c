/* Replay runtime: runs a harness natively on recorded input values. */
#define _GNU_SOURCE
#include <errno.h>
#include <link.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include "sym.h"

static FILE *in;

static void out (const char *k, const char *m)
{
    fprintf (stderr, "REPLAY %s %s\n", k, m);
    fflush (stderr);
}
uint64_t sym_val (const char *name, int bits)
{
    char n[128];
    unsigned long long v;
    if (!in || fscanf (in, "%127s %llu", n, &v) != 2) {
        out ("diverged", "no more values");
        _exit (78);
    }
    if (strcmp (n, name)) {
        out ("diverged", name);
        _exit (78);
    }
    if (getenv ("SYM_TRACE")) fprintf (stderr, "  in %s = %llu\n", name, v);
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void sym_assume (int c) { if (!c) { out ("diverged", "assumption"); _exit (77); } }
void sym_assert (int c, const char *m) { if (!c) { out ("assert", m); _exit (70); } }
void sym_fail (const char *m) { out ("fail", m); _exit (71); }
void sym_end (void) { out ("end", ""); _exit (0); }
uint64_t sym_pick (uint64_t v) { return v; }
void sym_cover (const char *l) { if (getenv ("SYM_TRACE")) fprintf (stderr, "  cover %s\n", l); }
void sym_note (const char *n, uint64_t v) { if (getenv ("SYM_TRACE")) fprintf (stderr, "  note %s = %llu\n", n, (unsigned long long)v); }

#define NA 65536
static struct { char *p; size_t n; } A[NA];
static int na;
void *sym_malloc (size_t n)
{
    char *p = malloc (n ? n : 1), *fill = getenv ("SYM_FILL");
    if (!p) { out ("diverged", "out of memory"); _exit (78); }
    memset (p, fill ? atoi (fill) : 0xA5, n < 1 << 20 ? n : 1 << 20);
    if (na < NA) { A[na].p = p; A[na].n = n; na++; }
    return p;
}
void sym_free (void *p)
{
    for (int i = na; i-- > 0;) if (A[i].p == p) { A[i] = A[--na]; break; }
    free (p);
}
size_t sym_objsize (const void *q)
{
    const char *p = q;
    for (int i = na; i-- > 0;) if (p >= A[i].p && p < A[i].p + (A[i].n ? A[i].n : 1)) return A[i].p + A[i].n - p;
    out ("fail", "size of an invalid object");
    _exit (71);
}
int sym_is_live (const void *q)
{
    const char *p = q;
    for (int i = na; i-- > 0;) if (p >= A[i].p && p < A[i].p + A[i].n) return 1;
    return 0;
}
static struct { char *p; size_t n; } maps[256];
static int nmaps;
#define PG(n) (((n) + 4095) & ~(size_t)4095)
void *sym_mmap (size_t n)
{
    /* at ascending addresses, as in the executor, unless the other order is wanted */
    static char *at = (char *)0x200000000000;
    int down = getenv ("SYM_DOWN") != NULL;
    void *p;
    if (down) at -= PG (n) + 4096;
    p = mmap (at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!down) at += PG (n) + 4096;
    if (nmaps < 256) { maps[nmaps].p = p; maps[nmaps++].n = n; }
    return p;
}
void sym_munmap (void *p, size_t n)
{
    for (int i = 0; i < nmaps; i++)
        if (maps[i].p == p) {
            if (PG (maps[i].n) != PG (n)) { out ("fail", "unmap of a range different from the mapping"); _exit (71); }
            maps[i].p = NULL;
            munmap (p, n);
            return;
        }
    out ("fail", "unmap of something that is not mapped");
    _exit (71);
}
void sym_access (void *p, size_t n)
{
    if (!n) return;
    volatile char *c = p;
    c[0] = c[0];
    c[n - 1] = c[n - 1];
}
void sym_protect (void *p, size_t n) { mprotect (p, n, PROT_NONE); }

static ucontext_t co[16];
static int nco = 1, cur, coerr[16];
static void *(*cofn[16]) (void *);
static void *coarg[16];
static void coentry (int i) { cofn[i](coarg[i]); out ("fail", "coroutine returned"); _exit (71); }
/* thread-local variables of the program: each coroutine has its own */
static struct { char *now; const char *first; size_t size, init; } tls;
static char *cotls[16];
static int find_tls (struct dl_phdr_info *i, size_t n, void *p)
{
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            tls.now = i->dlpi_tls_data;
            tls.first = (const char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            tls.size = i->dlpi_phdr[k].p_memsz;
            tls.init = i->dlpi_phdr[k].p_filesz;
        }
    return 1; /* the program itself comes first */
}
static void swap_tls (int from, int to)
{
    if (!cotls[from]) cotls[from] = malloc (tls.size);
    memcpy (cotls[from], tls.now, tls.size);
    if (cotls[to]) memcpy (tls.now, cotls[to], tls.size);
    else {
        memcpy (tls.now, tls.first, tls.init);
        memset (tls.now + tls.init, 0, tls.size - tls.init);
    }
}
int sym_coro_new (void *(*fn) (void *), void *arg)
{
    int i = nco++;
    getcontext (&co[i]);
    co[i].uc_stack.ss_sp = malloc (1 << 20);
    co[i].uc_stack.ss_size = 1 << 20;
    cofn[i] = fn;
    coarg[i] = arg;
    makecontext (&co[i], (void (*) (void))coentry, 1, i);
    return i;
}
void sym_coro_switch (int i)
{
    int me = cur;
    if (i == me) return;
    coerr[me] = errno;
    cur = i;
    if (tls.size) swap_tls (me, i);
    errno = coerr[i];
    swapcontext (&co[me], &co[i]);
    errno = coerr[me];
}
int sym_coro_current (void) { return cur; }
int sym_native (void) { return 1; }

int main (int argc, char **argv)
{
    if (argc > 1) in = fopen (argv[1], "r");
    alarm (20);
    dl_iterate_phdr (find_tls, NULL);
    harness ();
    out ("end", "");
    fflush (stderr);
    _exit (0);
}
