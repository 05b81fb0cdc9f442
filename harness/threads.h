/* Threads for harnesses.  The library is compiled with the calls the thread
 * sanitizer pass inserts at every memory access and atomic operation; they end
 * here: each is a point where another thread may go on, and for a watched
 * object each is checked to be ordered (by the memory order it asks for) after
 * the accesses of other threads it conflicts with. */
#ifndef THREADS_H
#define THREADS_H
#include "env.h"

#ifndef NTHR
#define NTHR 2
#endif
#ifndef PREEMPT
#define PREEMPT 100            /* switches away from a thread that could go on */
#endif

static int thr_n, thr_on, thr_preempts = PREEMPT;
static int thr_ended[NTHR + 1], thr_blocked[NTHR + 1];
static int thr_co[NTHR + 1];
static void (*thr_fn[NTHR + 1]) (int);
static char *thr_obj;
static size_t thr_size;
static int thr_anywhere;       /* another may go on at accesses of other objects, too */

static int thr_self (void)
{
    int c = sym_coro_current ();
    for (int i = 0; i < thr_n; i++) if (thr_co[i] == c) return i;
    return NTHR; /* the main program */
}
/* another thread may go on here */
static void thr_point (void)
{
    int me = thr_self (), c = 0, k;
    if (!thr_on || me == NTHR || thr_preempts <= 0) return;
    for (int i = 0; i < thr_n; i++) if (i != me && !thr_ended[i] && !thr_blocked[i]) c++;
    if (!c) return;
    k = sym_choice ("switch", c + 1);
    if (!k) return;
    thr_preempts--;
    for (int i = 0; i < thr_n; i++)
        if (i != me && !thr_ended[i] && !thr_blocked[i] && --k == 0) { sym_coro_switch (thr_co[i]); return; }
}
/* this thread cannot go on: some other must */
static void thr_leave (void)
{
    int me = thr_self (), c = 0, k;
    for (int i = 0; i < thr_n; i++) if (i != me && !thr_ended[i] && !thr_blocked[i]) c++;
    if (!c) { sym_coro_switch (0); return; }
    k = sym_choice ("next", c);
    for (int i = 0; i < thr_n; i++)
        if (i != me && !thr_ended[i] && !thr_blocked[i] && k-- == 0) { sym_coro_switch (thr_co[i]); return; }
}
static void *thr_entry (void *p)
{
    int me = (int)(intptr_t)p;
    thr_fn[me] (me);
    thr_ended[me] = 1;
    thr_leave ();
    sym_fail ("an ended thread went on");
}
static void thr_new (void (*fn) (int))
{
    int i = thr_n++;
    thr_fn[i] = fn;
    thr_co[i] = sym_coro_new (thr_entry, (void *)(intptr_t)i);
}
/* from the main program: until all have ended */
static int thr_run (void)
{
    int i;
    thr_on = 1;
    i = sym_choice ("first", thr_n);
    sym_coro_switch (thr_co[i]);
    thr_on = 0;
    for (i = 0; i < thr_n; i++) if (!thr_ended[i]) return 0;
    return 1;
}

/* ------------------------------------------------------------ ordering */
typedef struct { int t[NTHR + 1]; } Clock;
static Clock thr_clk[NTHR + 1], thr_acq[NTHR + 1], thr_rel[NTHR + 1];
#define GRAN 4
#define NGRAN 16
static struct { int wt, wc; Clock rd, at; Clock sync; } thr_loc[NGRAN];

static void join (Clock *a, const Clock *b) { for (int i = 0; i <= NTHR; i++) if (a->t[i] < b->t[i]) a->t[i] = b->t[i]; }
static void thr_watch (void *p, size_t n)
{
    thr_obj = p;
    thr_size = n;
    ASSERT (n <= GRAN * NGRAN, "model: watched object");
    for (int i = 0; i <= NTHR; i++) thr_clk[i].t[i] = 1;
    for (int i = 0; i < NGRAN; i++) thr_loc[i].wt = NTHR;
}
/* what the main program did so far comes before the threads */
static void thr_published (void)
{
    for (int i = 0; i < NTHR; i++) join (&thr_clk[i], &thr_clk[NTHR]);
}
/* kind: 0 read, 1 write, 2 atomic */
static void thr_access (void *p, size_t n, int kind)
{
    int me = thr_self ();
    char *c = p;
    if (thr_anywhere) thr_point ();
    if (!thr_obj || c < thr_obj || c >= thr_obj + thr_size) return;
    if (!thr_anywhere) thr_point ();
    for (size_t g = (size_t)(c - thr_obj) / GRAN; g * GRAN < (size_t)(c - thr_obj) + n && g < NGRAN; g++) {
        Clock *k = &thr_clk[me];
        if (thr_loc[g].wt != me) ASSERT (k->t[thr_loc[g].wt] >= thr_loc[g].wc, "an access is not ordered after a write of another thread");
        for (int i = 0; i <= NTHR; i++) {
            if (i == me) continue;
            if (kind) ASSERT (k->t[i] >= thr_loc[g].rd.t[i], "an access is not ordered after a read of another thread");
            if (kind != 2) ASSERT (k->t[i] >= thr_loc[g].at.t[i], "an access is not ordered after an atomic operation of another thread");
        }
        if (kind == 1) { thr_loc[g].wt = me; thr_loc[g].wc = k->t[me]; }
        else if (kind == 0) thr_loc[g].rd.t[me] = k->t[me];
        else thr_loc[g].at.t[me] = k->t[me];
    }
}
static void thr_atomic (void *p, size_t n, int mo, int loads, int stores)
{
    int me = thr_self (), g;
    char *c = p;
    if (!thr_obj || c < thr_obj || c >= thr_obj + thr_size) return;
    thr_access (p, n, 2);
    g = (int)((c - thr_obj) / GRAN);
    if (loads) {
        join (&thr_acq[me], &thr_loc[g].sync);
        if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo >= __ATOMIC_ACQ_REL) join (&thr_clk[me], &thr_loc[g].sync);
    }
    if (stores) {
        Clock *k = mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL ? &thr_clk[me] : &thr_rel[me];
        /* a plain store ends the release sequence, a read-modify-write goes on with it */
        if (!loads) for (int i = 0; i <= NTHR; i++) thr_loc[g].sync.t[i] = 0;
        join (&thr_loc[g].sync, k);
        thr_clk[me].t[me]++;
    }
}
void __tsan_init (void) {}
void __tsan_atomic_thread_fence (int mo)
{
    int me = thr_self ();
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo >= __ATOMIC_ACQ_REL) join (&thr_clk[me], &thr_acq[me]);
    if (mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL) { join (&thr_rel[me], &thr_clk[me]); thr_clk[me].t[me]++; }
}
void __tsan_atomic_signal_fence (int mo) { (void)mo; }
#define TSAN_RW(n) \
    void __tsan_read##n (void *p) { thr_access (p, n, 0); } \
    void __tsan_write##n (void *p) { thr_access (p, n, 1); } \
    void __tsan_read_write##n (void *p) { thr_access (p, n, 1); } \
    void __tsan_unaligned_read##n (void *p) { thr_access (p, n, 0); } \
    void __tsan_unaligned_write##n (void *p) { thr_access (p, n, 1); }
TSAN_RW (1) TSAN_RW (2) TSAN_RW (4) TSAN_RW (8) TSAN_RW (16)
#define TSAN_AT(w, T) \
    T __tsan_atomic##w##_load (const volatile T *p, int mo) { thr_atomic ((void *)p, sizeof (T), mo, 1, 0); return *(T *)p; } \
    void __tsan_atomic##w##_store (volatile T *p, T v, int mo) { thr_atomic ((void *)p, sizeof (T), mo, 0, 1); *(T *)p = v; } \
    T __tsan_atomic##w##_exchange (volatile T *p, T v, int mo) { T o; thr_atomic ((void *)p, sizeof (T), mo, 1, 1); o = *(T *)p; *(T *)p = v; return o; } \
    T __tsan_atomic##w##_fetch_add (volatile T *p, T v, int mo) { T o; thr_atomic ((void *)p, sizeof (T), mo, 1, 1); o = *(T *)p; *(T *)p = o + v; return o; } \
    T __tsan_atomic##w##_fetch_sub (volatile T *p, T v, int mo) { T o; thr_atomic ((void *)p, sizeof (T), mo, 1, 1); o = *(T *)p; *(T *)p = o - v; return o; } \
    T __tsan_atomic##w##_fetch_and (volatile T *p, T v, int mo) { T o; thr_atomic ((void *)p, sizeof (T), mo, 1, 1); o = *(T *)p; *(T *)p = o & v; return o; } \
    T __tsan_atomic##w##_fetch_or (volatile T *p, T v, int mo) { T o; thr_atomic ((void *)p, sizeof (T), mo, 1, 1); o = *(T *)p; *(T *)p = o | v; return o; } \
    T __tsan_atomic##w##_fetch_xor (volatile T *p, T v, int mo) { T o; thr_atomic ((void *)p, sizeof (T), mo, 1, 1); o = *(T *)p; *(T *)p = o ^ v; return o; } \
    T __tsan_atomic##w##_compare_exchange_val (volatile T *p, T c, T v, int mo, int fmo) { T o = *(T *)p; thr_atomic ((void *)p, sizeof (T), o == c ? mo : fmo, 1, 0); o = *(T *)p; if (o == c) { thr_atomic_store_part ((void *)p, mo); *(T *)p = v; } return o; } \
    int __tsan_atomic##w##_compare_exchange_strong (volatile T *p, T *c, T v, int mo, int fmo) { T o = __tsan_atomic##w##_compare_exchange_val (p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
    int __tsan_atomic##w##_compare_exchange_weak (volatile T *p, T *c, T v, int mo, int fmo) { return __tsan_atomic##w##_compare_exchange_strong (p, c, v, mo, fmo); }
/* the storing half of a compare-and-exchange: no switch between the halves */
static void thr_atomic_store_part (void *p, int mo)
{
    int me = thr_self (), g;
    char *c = p;
    if (!thr_obj || c < thr_obj || c >= thr_obj + thr_size) return;
    g = (int)((c - thr_obj) / GRAN);
    join (&thr_loc[g].sync, mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL ? &thr_clk[me] : &thr_rel[me]);
    thr_clk[me].t[me]++;
}
TSAN_AT (8, unsigned char) TSAN_AT (16, unsigned short) TSAN_AT (32, unsigned int) TSAN_AT (64, unsigned long)
#endif
