/* C12: one sleep, every duration, every clock reading. */
#include "tasks.h"

static T s, w;
static unsigned ask, left;
static int64_t s0, n0, s1, n1, ask_s;
static int ms, done, woken, some_ns;
#ifdef MILLI
#define UNIT 1000000ll
#else
#define UNIT 1000ll
#endif

static void sleeper (void *p)
{
    (void)p;
    s0 = env_sec;
    n0 = env_nsec;
    left = ms ? hev_task_sleep (ask) : hev_task_usleep (ask);
    s1 = env_sec;
    n1 = env_nsec;
    done = 1;
}
#ifndef LATE
#define LATE 20
#endif
#ifndef WIN
#define WIN 10
#endif
/* a part of a second: any of 2^WIN consecutive values at one of three places */
static int64_t part (const char *name)
{
    static const int64_t at[] = { 0, 999800, 1000000000 - (1 << WIN) };
    int k = sym_choice (name, 3);
    return at[k] + (int64_t)sym_val (name, WIN);
}
static void waker (void *p)
{
    /* some time later: whole seconds around the duration */
    int64_t as, an;
    int k = sym_choice ("delta_s", 4);
    (void)p;
    as = k == 0 ? 0 : ask_s + k - 2;
    if (as < 0 || (k && as == 0)) sym_end ();
    if (some_ns) {
        static const int64_t d[] = { 0, 1, 999, 1000, 999999, 999999999 };
        an = d[sym_choice ("delta_ns", 6)];
    } else
        an = part ("delta_ns");
    env_advance (as, an);
    if (!done) {
        woken = 1;
        hev_task_wakeup (s.t);
    }
}
/* every duration, or (quick) windows of 2^ASKW */
static unsigned some_ask (void)
{
#ifdef ASKW
    static const unsigned a[] = { 0, 998000, 1999000, 4294967, 59999000, 2147483648u - 2000, 4294967295u - ((1u << ASKW) - 1) };
    int k = sym_choice ("window", 7);
    return a[k] + (unsigned)sym_val ("time", ASKW);
#else
    return sym_u32 ("time");
#endif
}
static void clock0 (void)
{
#ifdef ASKW
    env_sec = sym_choice ("clock_s", 2) ? 8589934591 : 5;
    env_nsec = part ("clock_ns");
#else
    env_sec = (int64_t)sym_val ("clock_s", 34);
    env_nsec = (int64_t)sym_val ("clock_ns", 30);
    ASSUME (env_nsec < 1000000000);
#endif
}

/* nobody wakes it: at least the time asked for, result zero */
void harness (void)
{
    int64_t ds, dn;
    uint64_t as, an;
    sys_init ();
    clock0 ();
    env_late = LATE;
#ifdef MILLI
    ms = 1;
    ask = some_ask ();
    as = ask / 1000;
    an = ask % 1000 * 1000000ull;
#else
    ask = some_ask ();
    as = ask / 1000000;
    an = ask % 1000000 * 1000ull;
#endif
    spawn (&s, 0, -1, sleeper, NULL);
    hev_task_system_run ();
    ASSERT (done, "the sleeper never ended");
    ASSERT (left == 0, "a sleep that was not woken reports time left");
    ds = s1 - s0;
    dn = n1 - n0;
    if (dn < 0) { ds--; dn += 1000000000; }
    ASSERT (ds >= 0, "clock");
    ASSERT (ds > (int64_t)as || (ds == (int64_t)as && dn >= (int64_t)an), "the sleep was shorter than asked for");
    ASSERT (ds <= (int64_t)as + 1, "the sleep was far longer than asked for");
    sym_cover ("slept");
}

/* woken after any time: the result is the time left, rounded up */
static void woken_run (void)
{
    int64_t es, en, ds, dn;
#ifdef MILLI
    ms = 1;
    es = ask / 1000;
    en = ask % 1000 * 1000000ll;
#else
    es = ask / 1000000;
    en = ask % 1000000 * 1000ll;
#endif
    ask_s = es;
    spawn (&s, 0, -1, sleeper, NULL);
    spawn (&w, 1, -1, waker, NULL);
    hev_task_system_run ();
    ASSERT (done, "the sleeper never ended");
    ASSERT (left <= ask, "more time left than was asked for");
    /* end of the sleep asked for */
    es += s0;
    en += n0;
    if (en >= 1000000000) { es++; en -= 1000000000; }
    ds = es - s1;
    dn = en - n1;
    if (dn < 0) { ds--; dn += 1000000000; }
    if (ds < 0) {
        ASSERT (left == 0, "time left though it has passed");
        sym_cover ("passed");
    } else {
        /* ds seconds and dn nanoseconds were left: (left - 1) * UNIT < rest <= left * UNIT */
        int64_t rest = ds * 1000000000 + dn;
        ASSERT (((int64_t)left - 1) * UNIT < rest, "more time left than there is");
        ASSERT (rest <= (int64_t)left * UNIT, "less time left than there is");
        if (left) sym_cover ("time left");
        if (ask && woken) sym_cover ("woken");
    }
}
void harness_woken (void)
{
    static const unsigned a[] = { 0, 1, 2, 999, 1000, 1001, 59999, 999999, 1000000, 1000001, 123456789, 2147483648u, 4294967295u };
    sys_init ();
    env_sec = sym_choice ("clock_s", 2) ? 8589934591 : 5;
    env_nsec = part ("clock_ns");
    ask = a[sym_choice ("time", 13)];
    woken_run ();
}
/* durations in windows, some clock readings */
void harness_woken_any (void)
{
    static const unsigned a[] = { 0, 999500, 2147483648u - 500, 4294967295u - ((1 << WIN) - 1) };
    int k;
    sys_init ();
    some_ns = 1;
    env_sec = 77;
    env_nsec = sym_choice ("clock_ns", 2) ? 999999999 : 500;
    k = sym_choice ("time", 4);
    ask = a[k] + (unsigned)sym_val ("time", WIN);
    ask_s = ask / (unsigned)(1000000000ll / UNIT);
    woken_run ();
}
