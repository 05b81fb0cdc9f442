"""What each property's check runs: harness, entry, source variant, bounds per tier."""

# Preprocessor configuration of the library, as configs.mk sets it, and variants.
BASE = {
    "ENABLE_STACK_OVERFLOW_DETECTION": None,
    "ENABLE_MEMALLOC_SLICE": None,
    "ENABLE_IO_SPLICE_SYSCALL": None,
    "CONFIG_STACK_BACKEND": "STACK_MMAP",
    "CONFIG_STACK_OVERFLOW_DETECTION": "1",
    "CONFIG_MEMALLOC_SLICE_ALIGN": "64",
    "CONFIG_MEMALLOC_SLICE_MAX_SIZE": "4096",
    "CONFIG_MEMALLOC_SLICE_MAX_COUNT": "1000",
    "CONFIG_SCHED_CLOCK": "CLOCK_NONE",
}


def variant(drop=(), **kw):
    d = {k: v for k, v in BASE.items() if k not in drop}
    d.update(kw)
    return d


VARIANTS = {
    "default": variant(),
    # without the slice allocator every block is a plain malloc block: the
    # executor then sees each object's exact bounds and life time
    "plain": variant(drop=("ENABLE_MEMALLOC_SLICE",)),
    # a cache of two (three) blocks fills at once
    "slice2": variant(CONFIG_MEMALLOC_SLICE_MAX_COUNT="2"),
    "slice3": variant(CONFIG_MEMALLOC_SLICE_MAX_COUNT="3"),
    # shares by time used
    "clock": variant(drop=("ENABLE_MEMALLOC_SLICE",), CONFIG_SCHED_CLOCK="CLOCK_MONOTONIC"),
    # splicing by reading and writing
    "nosplice": variant(drop=("ENABLE_MEMALLOC_SLICE", "ENABLE_IO_SPLICE_SYSCALL")),
    # stacks from the heap, with one or 1024 guard words
    "heap": variant(drop=("ENABLE_MEMALLOC_SLICE",), CONFIG_STACK_BACKEND="STACK_HEAP"),
    "heap2": variant(drop=("ENABLE_MEMALLOC_SLICE",), CONFIG_STACK_BACKEND="STACK_HEAP", CONFIG_STACK_OVERFLOW_DETECTION="2"),
}


# with the debugging functions
VARIANTS["debug"] = variant(drop=("ENABLE_MEMALLOC_SLICE",), ENABLE_DEBUG=None)
# every memory access and atomic operation of the library calls the harness (harness/threads.h)
VARIANTS["threads"] = VARIANTS["plain"]
FLAGS = {"threads": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]}


def run(src, entry="harness", variant="default", quick="", thorough=None, covers=(), steps=2000000, time=400, bounds="", only=None, opts="", lift=None):
    return dict(src=src.split(), entry=entry, variant=variant, quick=quick.split(),
                thorough=(thorough if thorough is not None else quick).split(),
                covers=list(covers), steps=steps, time=time, bounds=bounds, only=only, opts=opts.split(), lift=lift)


SPECS = {
    "C01": dict(
        runs=[
            run("c01_run.c", variant="plain", quick="-DNT=3 -DOPS=5", thorough="-DNT=3 -DOPS=6",
                covers=["started again", "start of a started task", "all waited", "ran twice"],
                bounds="3 tasks, every history of 5 (6) actions out of start, restart, yield, exit, return, wait, wake, with a second run afterwards"),
        ],
    ),
    "C02": dict(
        runs=[
            run("c02_prio.c", variant="plain", quick="-DNT=2 -DTURNS=20", thorough="-DNT=2 -DTURNS=40", covers=["ended"],
                bounds="2 tasks started together, all priority values, 20 (40) turns"),
            run("c02_prio.c", variant="plain", quick="-DNT=3 -DTURNS=8", thorough="-DNT=3 -DTURNS=11", covers=["ended"],
                bounds="3 tasks started together, all priority values, 8 (11) turns"),
            run("c02_prio.c", entry="harness_equal", variant="plain", quick="-DNT=3 -DTURNS=4", thorough="-DNT=4 -DTURNS=5", covers=["ended", "woken", "event"],
                bounds="3 (4) tasks of any one priority, every history of starts, waits, wake-ups by tasks and by events"),
            run("c02_prio.c", entry="harness_late", variant="plain", quick="-DNT=2 -DTURNS=14", thorough="-DNT=2 -DTURNS=24",
                covers=["waited", "woken by an event", "own priority changed", "another's priority changed", "ended early"],
                bounds="3 tasks, one joining late, waiting, ending, or changing a priority; woken by a task or an event"),
            run("c02_prio.c", entry="harness_rt", variant="plain", covers=["real-time started", "real-time woken", "real-time event"],
                bounds="a real-time task started, woken or having an event amid two others of all priority values"),
            run("c02_prio.c", entry="harness_clock", variant="clock", quick="-DNT=2 -DTURNS=3", thorough="-DNT=2 -DTURNS=4", covers=["ended", "carried"],
                bounds="with a scheduling clock: 2 tasks, 2 x 2 priority values, 3 (4) turns of any length below 2 s"),
            run("c02_prio.c", entry="harness_clamp", variant="plain", covers=["set"], bounds="all integer priorities"),
        ],
    ),
    "C03": dict(
        runs=[
            run("c03_wake.c", variant="plain", quick="-DNT=3 -DOPS=6", thorough="-DNT=3 -DOPS=7",
                covers=["woken twice", "runnable woken", "event", "all wait", "ended"],
                bounds="3 tasks, every history of 6 (7) actions out of wait, yield, wake one, descriptor events for two; the order of turns is followed exactly"),
            run("c03_wake.c", variant="plain", quick="-DNT=2 -DOPS=5 -DINTR=2", thorough="-DNT=3 -DOPS=5 -DINTR=2",
                covers=["woken twice", "runnable woken", "event", "all wait", "interrupted", "ended"],
                bounds="2 (3) tasks, histories of 5 actions, up to 2 waits for events interrupted by a signal"),
        ],
    ),
    "C04": dict(
        runs=[
            run("c04_join.c", variant="plain", quick="-DNJ=2 -DOPS=6", thorough="-DNJ=3 -DOPS=6",
                covers=["ended by exit", "started again", "join of a running task", "join of an ended task", "join of a task not started",
                        "joined", "second join", "stray wake of a joining task", "ended"],
                bounds="2 (3) joining tasks and one joined, every history of 6 actions out of join, start, yield, stray wake; the joined task yields up to twice, sleeps, returns or exits"),
        ],
    ),
    "C05": dict(
        runs=[
            run("c05_refs.c", variant="plain", quick="-DNT=2 -DOPS=5", thorough="-DNT=2 -DOPS=6",
                covers=["released", "ended with the last reference", "ended"],
                bounds="2 tasks and a driver, every history of 5 (6) actions out of create, ref, unref, run, yield, end"),
            run("c05_refs.c", variant="plain", quick="-DNT=2 -DOPS=3 -DFAULTS=1", thorough="-DNT=2 -DOPS=5 -DFAULTS=2",
                covers=["creation failed", "ended"],
                bounds="3 (5) actions with every choice of 2 failing allocations, mappings or protections"),
        ],
    ),
    "C06": dict(
        runs=[
            run("c06_mutex.c", variant="plain", quick="-DNT=3 -DOPS=8", thorough="-DNT=3 -DOPS=10",
                covers=["waited for the mutex", "try-lock overtakes a waiter", "stray wake of a waiter", "all ended"],
                bounds="3 tasks, all programs of 8 (10) operations in total out of lock/unlock, try-lock, yield, wake another"),
            run("c06_mutex.c", variant="plain", quick="-DNT=3 -DOPS=6 -DPRIO", thorough="-DNT=4 -DOPS=8 -DPRIO",
                covers=["waited for the mutex", "all ended"],
                bounds="as above with priorities out of high, default, low"),
        ],
    ),
    "C07": dict(
        runs=[
            run("c07_cond.c", variant="plain", quick="-DNW=3 -DOPS=5", thorough="-DNW=4 -DOPS=6",
                covers=["released", "signal with nobody waiting", "broadcast to several", "stray wake-up", "all ended"],
                bounds="3 (4) waiting tasks, every sequence of 5 (6) actions out of signal, broadcast, stray wake-up, yield"),
            run("c07_cond.c", variant="plain", quick="-DNW=3 -DOPS=3 -DTIMED=1", thorough="-DNW=3 -DOPS=5 -DTIMED=1",
                covers=["released", "timed out", "timed out with others waiting", "all ended"],
                bounds="the same with timed and untimed waits mixed, 3 (5) actions, time passing"),
        ],
    ),
    "C08": dict(
        runs=[
            run("c07_cond.c", variant="plain", quick="-DNW=2 -DOPS=5 -DTIMED=1", thorough="-DNW=2 -DOPS=6 -DTIMED=1",
                covers=["released", "timed out", "timed out with others waiting", "stray wake-up", "all ended"],
                bounds="2 waiters, timed (1..3 ms) or not, every sequence of 5 (6) actions out of signal, broadcast, stray wake-up, yield, sleep, time passing"),
        ],
    ),
    "C09": dict(
        runs=[
            run("c09_channel.c", variant="plain", quick="-DK=4", thorough="-DK=4 -DCAPS=4", covers=["reader waited", "writer waited", "ended"],
                bounds="4 messages of 7 lengths with symbolic bytes, capacities 0..2 (3), two message sizes, two buffer sizes, every interleaving by yields"),
            run("c09_channel.c", variant="plain", quick="-DK=2 -DDUPLEX -DNOYIELD", thorough="-DK=2 -DDUPLEX", covers=["reader waited", "writer waited", "ended"],
                bounds="both directions at once, four tasks, 2 messages each"),
            run("c09_channel.c", variant="plain", quick="-DK=3 -DHAND", thorough="-DK=4 -DHAND", covers=["reader waited", "writer waited", "ended"],
                bounds="each end handed over to another task after the first message"),
            run("c09_channel.c", entry="harness_large", variant="plain", covers=["ended"],
                bounds="messages, message sizes and buffers of 8 sizes between 255 and 65541 bytes"),
        ],
    ),
    "C10": dict(
        runs=[
            run("c09_channel.c", variant="plain", quick="-DK=3 -DCLOSE", thorough="-DK=4 -DCLOSE -DCAPS=4",
                covers=["reader waited", "writer waited", "write to a closed channel", "blocked writer released", "closed", "blocked reader released", "read after closing", "ended"],
                bounds="0..3 (4) messages written, up to 4 (5) reads, then the end is closed; capacities 0..2 (3)"),
            run("c09_channel.c", variant="plain", quick="-DK=2 -DSTRAY=2", thorough="-DK=3 -DSTRAY=3", covers=["reader waited", "writer waited", "stray wake-up", "ended"],
                bounds="2 (3) messages with stray wake-ups of the waiting tasks"),
            run("c09_channel.c", variant="plain", quick="-DK=2 -DDUPLEX -DNOYIELD", thorough="-DK=2 -DDUPLEX", covers=["reader waited", "writer waited", "ended"],
                bounds="both directions at once, four tasks, 2 messages each"),
            run("c09_channel.c", variant="plain", quick="-DK=2 -DHAND -DCLOSE", thorough="-DK=4 -DHAND -DCLOSE", covers=["closed", "ended"],
                bounds="each end handed over to another task after the first message"),
            run("c09_channel.c", entry="harness_close", variant="plain", quick="-DK=5 -DCLOSER=4 -DDUPLEX -DNOYIELD", thorough="-DK=7 -DCLOSER=6 -DDUPLEX -DNOYIELD -DCAPS=4",
                covers=["ended", "blocked writer released", "blocked reader released", "reader ended", "writer ended"],
                bounds="an end closed after 4 (6) actions while a reader and a writer wait at the other"),
        ],
    ),
    "C11": dict(
        runs=[
            run("c11_select.c", variant="plain", quick="-DNC=1 -DOPS=3 -DPO=3", thorough="-DNC=1 -DOPS=4 -DPO=4", covers=["became readable", "became writable", "timed out", "ended"],
                bounds="one channel of capacity 0..2, 3 (4) selects for reading or writing, time-outs none, 3 ms, infinite; the other end does 3 (4) actions"),
            run("c11_select.c", variant="plain", quick="-DNC=2 -DOPS=2 -DPO=2", thorough="-DNC=2 -DOPS=3 -DPO=3", covers=["became readable", "became writable", "timed out", "ended"],
                bounds="two channels, 2 (3) selects, 2 (3) actions at each other end"),
            run("c11_select.c", variant="plain", quick="-DNC=1 -DOPS=2 -DPO=1 -DSTRAY=6", thorough="-DNC=1 -DOPS=2 -DPO=2 -DSTRAY=9",
                covers=["stray wake-up", "timed out", "became readable"],
                bounds="one channel, 2 selects with stray wake-ups of the selecting task at any of 6 (9) moments"),
            run("c11_select.c", variant="plain", quick="-DNC=1 -DOPS=3 -DPO=2 -DCLOSE", thorough="-DNC=1 -DOPS=4 -DPO=3 -DCLOSE", covers=["timed out", "ended"],
                bounds="one channel whose other end may be closed"),
        ],
    ),
    "C12": dict(
        runs=[
            run("c12_sleep.c", variant="plain", quick="-DASKW=8 -DWIN=7 -DLATE=10", thorough="", covers=["slept"], bounds="7 windows of 2^8 microseconds (every number of microseconds), every clock reading (34-bit seconds), expiry reported up to 1 us (1 ms) late", opts="--narrow"),
            run("c12_sleep.c", variant="plain", quick="-DMILLI -DASKW=8 -DWIN=6 -DLATE=10", thorough="-DMILLI", covers=["slept"], bounds="the same in milliseconds", opts="--narrow"),
            run("c12_sleep.c", entry="harness_woken", variant="plain", quick="", covers=["time left", "passed", "woken"], bounds="woken early: 13 durations; clock and delay: windows of 2^10 ns at three places of the second", opts="--narrow"),
            run("c12_sleep.c", entry="harness_woken", variant="plain", quick="-DMILLI=1", covers=["time left", "passed", "woken"], bounds="the same in milliseconds", opts="--narrow"),
            run("c12_sleep.c", entry="harness_woken_any", variant="plain", quick="-DWIN=7", thorough="-DWIN=10", covers=["time left", "passed", "woken"], bounds="woken early: durations in 4 windows of 2^7 (2^10), 2 clock readings, 24 delays", opts="--narrow"),
            run("c12_sleep.c", entry="harness_woken_any", variant="plain", quick="-DMILLI=1 -DWIN=6", thorough="-DMILLI=1 -DWIN=9", covers=["time left", "passed", "woken"], bounds="the same in milliseconds", opts="--narrow"),
        ],
    ),
    "C13": dict(
        runs=[
            run("c13_timers.c", variant="plain", quick="-DNS=1 -DOPS=3 -DLINGER=1", thorough="-DNS=1 -DOPS=4 -DLINGER=1",
                covers=["woken early", "slept", "lingered", "ended"],
                bounds="1 sleeper, 3 (4) actions, the sleeper then waiting for something else"),
            run("c13_timers.c", variant="plain", quick="-DNS=2 -DOPS=1 -DLINGER=1", thorough="-DNS=2 -DOPS=2 -DLINGER=1",
                covers=["woken early", "slept", "lingered", "ended"],
                bounds="2 sleepers, 1 (2) actions, the sleepers then waiting for something else"),
            run("c13_timers.c", variant="plain", quick="-DNS=3 -DOPS=1", thorough="-DNS=3 -DOPS=2",
                covers=["woken early", "slept", "due", "ended"],
                bounds="3 sleepers of any duration 0..31 us started at different times, a fourth task doing 1 (2) actions: letting 0..31 us pass, waking one, sleeping 3 us"),
            run("c13_timers.c", variant="plain", quick="-DNS=2 -DOPS=2", thorough="-DNS=2 -DOPS=3",
                covers=["woken early", "slept", "due", "ended"],
                bounds="2 sleepers, 2 (3) actions"),
            run("c13_timers.c", variant="plain", quick="-DNS=2 -DOPS=1 -DROUNDS=2", thorough="-DNS=2 -DOPS=2 -DROUNDS=2",
                covers=["woken early", "slept", "due", "ended"],
                bounds="2 sleepers sleeping twice each, 1 (2) actions"),
            run("c13_timers.c", variant="plain", quick="-DNS=2 -DOPS=1 -DNANO=700", thorough="-DNS=2 -DOPS=2 -DNANO=700", covers=["woken early", "slept", "due", "ended"],
                bounds="2 sleepers started at fractions of a microsecond, 1 (2) actions"),
            run("c13_timers.c", variant="plain", quick="-DNS=2 -DOPS=0 -DBUSY=2", thorough="-DNS=2 -DOPS=1 -DBUSY=2", covers=["slept", "ended"],
                bounds="2 sleepers beside 2 tasks that never wait, 0 (1) actions"),
            run("c13_timers.c", variant="plain", quick="-DNS=4 -DOPS=0", thorough="-DNS=5 -DOPS=0", covers=["slept", "ended"],
                bounds="4 (5) sleepers of any duration 0..31 us, nobody interfering"),
        ],
    ),
    "C14": dict(
        runs=[
            run("c14_rbtree.c", entry="harness_step", variant="plain", quick="-DN=11", thorough="-DN=15",
                covers=["inserted", "erased", "replaced"],
                bounds="induction step: from every balanced tree of up to 11 (15) elements, with and without the cached first element, one insertion, removal or replacement at every place"),
            run("c14_rbtree.c", entry="harness_history", variant="plain", quick="-DN=7 -DOPS=7", thorough="-DN=8 -DOPS=8",
                covers=["done"], bounds="every history of 7 (8) insertions and removals through the interface"),
        ],
    ),
    "C15": dict(
        runs=[
            run("c15_alloc.c", variant="slice2", quick="-DNB=3 -DOPS=5", thorough="-DNB=3 -DOPS=7",
                covers=["cached block used", "resized", "freed", "cache full", "released"],
                bounds="3 blocks, every history of 5 (7) operations, 3 sizes, a cache of 2"),
            run("c15_alloc.c", variant="slice2", quick="-DNB=2 -DOPS=3 -DWIDE -DZERO", thorough="-DNB=2 -DOPS=5 -DWIDE -DZERO",
                covers=["cached block used", "resized", "freed", "released"],
                bounds="2 blocks, every history of 3 (5) operations, 8 sizes, with the zeroing variants and release by resizing to zero"),
            run("c15_alloc.c", variant="slice2", quick="-DNB=2 -DOPS=4 -DFAULTS=2", thorough="-DNB=2 -DOPS=6 -DFAULTS=3",
                covers=["allocation failed", "resizing failed", "released"],
                bounds="2 blocks, every history of 4 (6) operations, every choice of 2 (3) refusals by the system"),
            run("c15_alloc.c", variant="plain", quick="-DNB=2 -DOPS=4 -DSIMPLE -DZERO -DFAULTS=1", thorough="-DNB=2 -DOPS=5 -DSIMPLE -DZERO -DFAULTS=1",
                covers=["allocation failed", "resized", "released"], bounds="the allocator without a cache, 4 (5) operations"),
        ],
    ),
    "C16": dict(
        runs=[
            run("c15_alloc.c", variant="slice2", quick="-DNB=4 -DOPS=7 -DNORESIZE", thorough="-DNB=4 -DOPS=9 -DNORESIZE",
                covers=["cached block used", "freed", "cache full", "released"],
                bounds="4 blocks, every history of 7 (9) allocations and releases, 3 size classes, a cache of 2"),
            run("c15_alloc.c", variant="slice3", quick="-DNB=4 -DOPS=7 -DNORESIZE", thorough="-DNB=5 -DOPS=9 -DNORESIZE",
                covers=["cached block used", "freed", "cache full", "released"],
                bounds="the same with a cache of 3"),
            run("c15_alloc.c", variant="slice2", quick="-DNB=3 -DOPS=5 -DFAULTS=1", thorough="-DNB=3 -DOPS=6 -DFAULTS=1",
                covers=["cached block used", "resized", "freed", "cache full", "released", "allocation failed"],
                bounds="3 blocks, 5 (6) operations with resizing, one refusal by the system"),
        ],
    ),
    "C17": dict(
        runs=[
            run("c17_sizes.c", entry="harness_alloc", variant="default", covers=["allocated", "refused"],
                bounds="every 64-bit size, cache empty or holding three size classes, with and without the caching allocator"),
            run("c17_sizes.c", entry="harness_realloc", variant="default", covers=["resized", "refused"],
                bounds="every 64-bit new size above the old one"),
            run("c17_sizes.c", entry="harness_calloc", variant="default", covers=["allocated", "refused"],
                bounds="every 64-bit count, 15 element sizes (and the two exchanged); the system grants up to 400 bytes"),
            run("c17_sizes.c", entry="harness_channel", variant="plain", covers=["created", "refused"],
                bounds="every 32-bit message size, 28 buffer counts; the system grants up to 4096 bytes"),
            run("c17_sizes.c", entry="harness_circular", variant="default", covers=["created", "refused"],
                bounds="every 64-bit capacity"),
            run("c17_sizes.c", entry="harness_circular_huge", variant="default", covers=["created", "refused"],
                bounds="every capacity from 4 GiB on; the system grants up to 64 TiB, the room is not touched"),
        ],
    ),
    "C18": dict(
        runs=[
            run("c18_circular.c", variant="plain", quick="-DMAXSZ=4 -DOPS=5", thorough="-DMAXSZ=5 -DOPS=7",
                covers=["read wraps", "write wraps", "full"],
                bounds="capacity 1..4 (5 thorough), 5 (7) operations of every size, all byte values"),
            run("c18_circular.c", entry="harness_sizes", variant="plain", covers=["wrapped"],
                bounds="9 capacities from 1 to 2^30-256, four transfers of every size"),
        ],
    ),
    "C19": dict(
        runs=[
            run("c19_rw.c", variant="plain", quick="-DNB=3", thorough="-DNB=5", covers=["waited", "stopped", "failed", "done"],
                bounds="one call out of read, readv, write, writev with any descriptor, buffers (vectors of 0..2), sizes, results and error codes, blocking up to 3 (5) times, with and without a yielder"),
        ],
    ),
    "C20": dict(
        runs=[
            run("c20_sock.c", variant="plain", quick="-DNB=2 -DNP=4 -DRW=40 -DSHIFT=0 -DOP0=0 -DOPN=4", thorough="-DNB=3 -DNP=6 -DRW=40 -DSHIFT=0 -DOP0=0 -DOPN=4", covers=["waited", "stopped", "failed", "went on", "ended early", "completed in parts"],
                bounds="recv, send, recvfrom, sendto with any descriptor, buffer, size (below 2^40), flags, address and results; up to 4 (6) partial transfers, blocking up to 2 (3) times"),
            run("c20_sock.c", variant="plain", quick="-DNB=1 -DNP=3 -DRW=40 -DSHIFT=0 -DOP0=4 -DOPN=2 -DNV=2", thorough="-DNB=2 -DNP=4 -DRW=40 -DSHIFT=0 -DOP0=4 -DOPN=2 -DNV=3", covers=["waited", "stopped", "failed", "went on", "ended early", "completed in parts"],
                bounds="recvmsg, sendmsg with 0..2 (3) buffers of any place and size, addresses, control data; up to 3 (4) partial transfers, blocking once (twice)"),
        ],
    ),
    "C21": dict(
        runs=[
            run("c21_conn.c", variant="plain", quick="-DNB=3", thorough="-DNB=6", covers=["waited", "stopped", "connected", "not connected", "accepted", "not accepted", "mode not set"],
                bounds="one connect or accept with any arguments and error codes, blocking up to 3 (6) times, with and without a yielder"),
        ],
    ),
    "C22": dict(
        runs=[
            run("c22_open.c", variant="plain", covers=["mode", "opened", "open failed", "mode failed"], bounds="one call of each kind with any arguments, every step failing"),
        ],
    ),
    "C23": dict(
        runs=[
            run("c23_poll.c", variant="plain", quick="-DNF=1 -DOPS=2 -DTMO=6", thorough="-DNF=1 -DOPS=3 -DTMO=6",
                covers=["ready when idle", "came and went", "stray wake-up", "timed out", "ready", "not open", "ignored entry", "ended"],
                bounds="1 descriptor (stream, regular file, not open, ignored), events none/in/out/both, time-outs -1, 0, 1, 2 ms and both extremes, 2 (3) actions of another task: readiness coming, going, both at once, a stray wake-up, 0.6/0.7 ms passing"),
            run("c23_poll.c", variant="plain", quick="-DNF=1 -DOPS=2 -DCALLS=2 -DTMO=2", thorough="-DNF=2 -DOPS=2 -DCALLS=2 -DTMO=3", time=900,
                covers=["ready when idle", "stray wake-up", "timed out", "ready", "ended"],
                bounds="two calls in a row, time-outs -1 and 2 ms (and 0)"),
            run("c23_poll.c", variant="plain", quick="-DNF=2 -DOPS=1 -DTMO=3", thorough="-DNF=2 -DOPS=2 -DTMO=5", time=900,
                covers=["no descriptor", "listed twice", "ready when idle", "stray wake-up", "timed out", "ready", "ended"],
                bounds="0 to 2 descriptors, also the same one twice, 1 (2) actions"),
            run("c23_poll.c", variant="plain", quick="-DNF=2 -DOPS=1 -DFAULTS -DTMO=2", thorough="-DNF=2 -DOPS=1 -DFAULTS -DTMO=5",
                covers=["failed", "ended"],
                bounds="0 to 2 descriptors, poll () or epoll_ctl () failing once"),
            run("c23_poll.c", variant="plain", quick="-DSAME -DNF=3 -DOPS=1 -DTMO=1", thorough="-DSAME -DNF=3 -DOPS=2 -DTMO=2",
                covers=["listed twice", "ready when idle", "ready", "ended"],
                bounds="2 streams, one of them listed again, 1 (2) actions"),
        ],
    ),
    "C24": dict(
        runs=[
            run("c24_splice.c", variant="plain", quick="-DLEN=3 -DLEN2=1", thorough="-DLEN=4 -DLEN2=2", covers=["waited", "ended"],
                bounds="splice system call; up to 3 (4) bytes one way and 1 (2) the other, pipes of 2 bytes, every shape of shared descriptors, all splits, one would-block answer per descriptor and direction"),
            run("c24_splice.c", variant="plain", quick="-DLEN=2 -DLEN2=1 -DERRS=1", thorough="-DLEN=2 -DLEN2=2 -DERRS=1", covers=["waited", "ended"],
                bounds="also errors of each descriptor"),
            run("c24_splice.c", variant="plain", quick="-DLEN=2 -DLEN2=1 -DFAULTS=1 -DSTOPS=4", thorough="-DLEN=2 -DLEN2=2 -DFAULTS=2 -DSTOPS=6", covers=["waited", "ended", "stopped", "could not start"],
                bounds="also a stop by the yielder and failures of the preparations"),
            run("c24_splice.c", variant="nosplice", quick="-DLEN=3 -DLEN2=1", thorough="-DLEN=4 -DLEN2=2 -DBUF=3", covers=["waited", "ended"],
                bounds="read and write in place of splice, buffers of 1 and 2 (3) bytes; the same"),
            run("c24_splice.c", variant="nosplice", quick="-DLEN=3 -DLEN2=0 -DBUF=3 -DBUF0=3", thorough="-DLEN=4 -DLEN2=1 -DBUF=4 -DBUF0=3", covers=["waited", "ended"],
                bounds="buffers of 3 (and 4) bytes, 3 (4) bytes one way and none (1) the other"),
            run("c24_splice.c", variant="nosplice", quick="-DLEN=2 -DLEN2=1 -DERRS=1", thorough="-DLEN=2 -DLEN2=2 -DERRS=1", covers=["waited", "ended"],
                bounds="also errors of each descriptor"),
            run("c24_splice.c", variant="nosplice", quick="-DLEN=2 -DLEN2=1 -DFAULTS=1 -DSTOPS=4", thorough="-DLEN=2 -DLEN2=2 -DFAULTS=2 -DSTOPS=6", covers=["waited", "ended", "stopped", "could not start"],
                bounds="also a stop by the yielder and failures of the preparations"),
        ],
    ),
    "C25": dict(
        runs=[
            run("c25_cio.c", variant="plain", quick="-DNB=1 -DNP=2 -DNV=2 -DRW=40 -DSHIFT=0", thorough="-DNB=2 -DNP=3 -DNV=3 -DPASS=2 -DRW=40 -DSHIFT=0",
                covers=["waited", "stopped", "failed", "went on", "ended early", "completed in parts", "unsupported", "flushed", "null"],
                bounds="each chain operation over the descriptor, socket, null or no layer below 0..1 (2) pass-through layers, any descriptors, buffers, sizes and results (below 2^40), error codes; vectors of 0..2 (3); up to 2 (3) partial transfers, blocking once (twice)"),
        ],
    ),
    "C26": dict(
        runs=[
            run("c26_buffer.c", variant="plain", quick="-DOPS=3 -DKIND0=0 -DKINDS=4 -DRS0=2 -DRS=3 -DWS0=0 -DWS=0 -DLEN=5 -DCNT=2 -DVEC=1 -DAGAIN=0 -DERRS=1",
                thorough="-DOPS=4 -DKIND0=0 -DKINDS=4 -DRS0=2 -DRS=3 -DWS0=0 -DWS=0 -DLEN=6 -DCNT=2 -DVEC=1 -DAGAIN=0 -DERRS=1",
                covers=["read", "failed", "end", "peeked", "peeked around the end", "done"],
                bounds="read side: 3 (4) operations of read, vectored read, peek, peekv; buffers of 2 and 3 bytes, any split of 5 (6) bytes of any value, one failure"),
            run("c26_buffer.c", variant="plain", quick="-DOPS=2 -DKIND0=0 -DKINDS=2 -DRS0=0 -DRS=3 -DWS0=0 -DWS=0 -DLEN=5 -DCNT=4 -DVEC=3 -DAGAIN=1 -DERRS=1",
                thorough="-DOPS=3 -DKIND0=0 -DKINDS=2 -DRS0=0 -DRS=3 -DWS0=0 -DWS=0 -DLEN=5 -DCNT=4 -DVEC=2 -DAGAIN=1 -DERRS=1",
                covers=["read", "failed", "end", "waited", "done"],
                bounds="read side: 2 (3) reads or vectored reads of up to 4 bytes (parts of up to 3 (2)), buffers of 0 to 3 bytes, would-block and a failure"),
            run("c26_buffer.c", variant="plain", quick="-DOPS=3 -DKIND0=4 -DKINDS=3 -DRS0=0 -DRS=0 -DWS0=0 -DWS=2 -DCNT=2 -DVEC=2",
                thorough="-DOPS=3 -DKIND0=4 -DKINDS=3 -DRS0=0 -DRS=0 -DWS0=0 -DWS=3 -DCNT=4 -DVEC=3",
                covers=["written", "flushed", "failed", "waited", "done"],
                bounds="write side: 3 operations of write, vectored write, flush with up to 2 (4) bytes (per part 2 (3)), buffers of 0 to 2 (3) bytes, all splits, would-block and a failure"),
            run("c26_buffer.c", variant="plain", quick="-DOPS=4 -DKIND0=4 -DKINDS=3 -DRS0=0 -DRS=0 -DWS0=2 -DWS=3 -DCNT=2 -DVEC=1 -DAGAIN=1 -DERRS=0",
                thorough="-DOPS=5 -DKIND0=4 -DKINDS=3 -DRS0=0 -DRS=0 -DWS0=2 -DWS=3 -DCNT=2 -DVEC=1 -DAGAIN=1 -DERRS=0",
                covers=["written", "flushed", "waited", "done"],
                bounds="write side: 4 (5) operations, buffers of 2 and 3 bytes"),
            run("c26_buffer.c", variant="plain", quick="-DOPS=3 -DKIND0=4 -DKINDS=3 -DRS0=0 -DRS=0 -DWS0=1 -DWS=2 -DCNT=2 -DVEC=1 -DAGAIN=0 -DERRS=0 -DZERO=1",
                thorough="-DOPS=3 -DKIND0=4 -DKINDS=3 -DRS0=0 -DRS=0 -DWS0=1 -DWS=2 -DCNT=2 -DVEC=2 -DAGAIN=1 -DERRS=0 -DZERO=1",
                covers=["written", "flushed", "waited", "nothing taken", "done"],
                bounds="write side: 3 operations, a write of the layer below taking nothing, buffers of 1 and 2 bytes"),
            run("c26_buffer.c", variant="plain", quick="-DNOYIELDER -DOPS=2 -DRS0=0 -DRS=1 -DWS0=0 -DWS=1 -DCNT=1 -DVEC=1 -DLEN=2 -DKIND0=0 -DKINDS=8 -DERRS=0",
                thorough="-DNOYIELDER -DOPS=3 -DRS0=0 -DRS=1 -DWS0=0 -DWS=1 -DCNT=1 -DVEC=1 -DLEN=2 -DKIND0=0 -DKINDS=8",
                covers=["read", "written", "flushed", "waited", "done"],
                bounds="both sides, without a yielder, 2 (3) operations, buffers of 0 and 1 byte"),
            run("c26_buffer.c", variant="plain", quick="-DOPS=3 -DRS0=1 -DRS=1 -DWS0=1 -DWS=1 -DCNT=1 -DVEC=1 -DLEN=2 -DKIND0=0 -DKINDS=7",
                thorough="-DOPS=3 -DRS0=0 -DRS=2 -DWS0=0 -DWS=2 -DCNT=1 -DVEC=1 -DLEN=2 -DKIND0=0 -DKINDS=7",
                covers=["read", "written", "flushed", "done"],
                bounds="both sides mixed, 3 operations, buffers of 1 (0 to 2) byte"),
        ],
    ),
    "C27": dict(
        runs=[
            run("c24_splice.c", variant="nosplice", quick="-DCHAIN -DLAYERS=2 -DLEN=2 -DLEN2=1 -DSHAPE=0", thorough="-DCHAIN -DLAYERS=2 -DLEN=3 -DLEN2=2 -DSHAPE=0",
                covers=["waited", "ended", "buffered output"],
                bounds="chains of a descriptor layer with or without a buffering layer (read buffer 0..1, write buffer 0..2 bytes); up to 2 (3) bytes one way and 1 (2) the other, relay buffers of 1 and 2 bytes, all splits, one would-block answer per descriptor and direction"),
            run("c24_splice.c", variant="plain", quick="-DCHAIN -DLAYERS=1 -DLEN=3 -DLEN2=0 -DSHAPE=2", thorough="-DCHAIN -DLAYERS=2 -DLEN=4 -DLEN2=1 -DSHAPE=2",
                covers=["waited", "ended", "buffered output"],
                bounds="buffering layers over one descriptor per chain, up to 3 (4) bytes one way, 0 (1) the other"),
            run("c24_splice.c", variant="plain", quick="-DCHAIN -DLAYERS=1 -DLEN=2 -DLEN2=1 -DRS=0 -DWS=1 -DSHAPE=0 -DERRS=1", thorough="-DCHAIN -DLAYERS=2 -DLEN=2 -DLEN2=1 -DSHAPE=0 -DERRS=1",
                covers=["waited", "ended", "buffered output"], bounds="also errors of each descriptor"),
            run("c24_splice.c", variant="plain", quick="-DCHAIN -DLAYERS=2 -DLEN=1 -DLEN2=1 -DSHAPE=0 -DPEEKED -DWS=0 -DBUF=1", thorough="-DCHAIN -DLAYERS=2 -DLEN=2 -DLEN2=1 -DSHAPE=0 -DPEEKED",
                covers=["waited", "ended", "peeked before"], bounds="bytes peeked into a buffering layer before the splice; up to 1 (2) bytes one way, 1 the other"),
            run("c24_splice.c", variant="plain", quick="-DCHAIN -DLAYERS=1 -DRS=0 -DWS=1 -DLEN=3 -DLEN2=0 -DSHAPE=0 -DBUF0=3 -DBUF=3", thorough="-DCHAIN -DLAYERS=1 -DRS=0 -DWS=1 -DLEN=4 -DLEN2=0 -DSHAPE=0 -DBUF0=3 -DBUF=4",
                covers=["waited", "ended", "buffered output"], bounds="relay buffers of 3 (and 4) bytes, up to 3 (4) bytes one way"),
            run("c24_splice.c", variant="nosplice", quick="-DCHAIN -DLAYERS=3 -DLEN=1 -DLEN2=1 -DWS=1 -DFAULTS=1 -DSTOPS=4", thorough="-DCHAIN -DLAYERS=3 -DLEN=2 -DLEN2=1 -DWS=1 -DFAULTS=1 -DSTOPS=4",
                covers=["waited", "ended", "stopped", "could not start"], bounds="also pass-through layers, a stop by the yielder and failures of the preparations"),
        ],
    ),
    "C28": dict(
        runs=[
            run("c28_objects.c", variant="plain", quick="-DKINDS=4 -DKIND0=0 -DOPS=5 -DNO=3", thorough="-DKINDS=4 -DKIND0=0 -DOPS=6 -DNO=4",
                covers=["referenced", "destroyed", "chain outlived", "pushed", "popped"],
                bounds="5 (6) operations (create, ref, unref, push, pop) on up to 3 (4) descriptor, socket and buffering layers"),
            run("c28_objects.c", variant="plain", quick="-DOPS=4 -DKIND0=3 -DKINDS=5 -DFAULTS=2 -DNO=3", thorough="-DOPS=5 -DKIND0=3 -DKINDS=5 -DFAULTS=2 -DNO=3",
                covers=["referenced", "destroyed", "not created"],
                bounds="4 (5) operations on up to 3 buffering and pass-through layers and plain and atomic objects, up to 2 allocation failures"),
            run("c28_objects.c", variant="plain", quick="-DOPS=7 -DKINDS=1 -DKIND0=4 -DNO=2", thorough="-DOPS=9 -DKINDS=1 -DKIND0=4 -DNO=2",
                covers=["referenced", "destroyed"], bounds="7 (9) operations on up to 2 elements of one kind"),
            run("c28_objects.c", variant="plain", quick="-DOPS=6 -DKINDS=2 -DKIND0=2 -DNO=3", thorough="-DOPS=7 -DKINDS=2 -DKIND0=2 -DNO=3",
                covers=["referenced", "destroyed", "chain outlived", "pushed", "popped"], bounds="6 (7) operations on up to 3 socket and buffering layers"),
            run("c28_threads.c", variant="threads", quick="-DNTHR=2 -DPREEMPT=5", thorough="-DNTHR=2",
                covers=["destroyed", "references in between"],
                bounds="2 threads using, referencing and dropping one object, switching at any access of the library, up to 5 (any number of) preemptions; ordering by C11 happens-before"),
            run("c28_threads.c", variant="threads", quick="-DNTHR=3 -DPREEMPT=2", thorough="-DNTHR=3 -DPREEMPT=4",
                covers=["destroyed", "references in between"], bounds="3 threads, 2 (4) preemptions"),
            run("c28_class.c", variant="threads", quick="-DNTHR=2 -DPREEMPT=1", thorough="-DNTHR=2 -DPREEMPT=3",
                covers=["set up"], bounds="2 threads asking for one of the 7 classes for the first time, 1 (3) preemptions at any access"),
        ],
    ),
    "C29": dict(
        runs=[
            run("c29_events.c", variant="plain", quick="-DOPS=2 -DPOLLS=2", thorough="-DOPS=2 -DPOLLS=3 -DFAULTS=2",
                covers=["added", "changed", "removed", "resumed", "several events", "nothing reported", "woken by a task", "registration failed", "ended"],
                bounds="2 tasks, 2 descriptors, 2 actions each (add, change, remove for any task with any event mask, yield, wait, wake); 2 (3) batches of up to 2 events in any order with duplicates, one interrupted or empty wait"),
            run("c29_events.c", variant="plain", quick="-DOPS=4 -DNT=1 -DNF=2 -DFAULTS=1", thorough="-DOPS=5 -DNT=1 -DNF=2 -DFAULTS=2",
                covers=["added", "changed", "removed", "resumed", "registration failed", "ended"],
                bounds="1 task, 4 (5) actions, 1 (2) failing registrations with any errno"),
            run("c29_events.c", variant="plain", quick="-DTAIL=1 -DOPS=3 -DPOLLS=3 -DNT=2", thorough="-DTAIL=1 -DOPS=4 -DPOLLS=3 -DNT=2",
                covers=["added", "changed", "removed", "resumed", "several events", "ended"],
                bounds="a task doing 3 (4) actions beside one waiting for its descriptor"),
            run("c29_events.c", variant="plain", quick="-DTAIL=1 -DOPS=2 -DPOLLS=1 -DNT=3 -DNF=3 -DBATCH=3", thorough="-DTAIL=1 -DOPS=2 -DPOLLS=2 -DNT=3 -DNF=3 -DBATCH=3",
                covers=["resumed", "several events"], bounds="3 tasks, batches of up to 3 events"),
            run("c29_events.c", variant="plain", entry="harness_busy", quick="-DNT=3 -DPOLLS=1 -DEMPTY=1", thorough="-DNT=4 -DPOLLS=1 -DEMPTY=2", covers=["busy", "ended"],
                bounds="2 (3) tasks that never wait beside one waiting for an event reported after any of 12 turns"),
            run("c29_events.c", variant="plain", entry="big", quick="-DBIG=1 -DPOLLS=2", covers=["large batch", "ended"],
                bounds="batches up to the number of events the system asks for, the last one being the second task's"),
        ],
    ),
    "C30": dict(
        runs=[
            run("c30_stack.c", variant="plain", quick="", covers=["written", "released", "creation failed"], bounds="every requested size"),
            run("c30_stack.c", variant="plain", quick="-DFAULTS=2", covers=["written", "released", "creation failed"],
                bounds="every choice of failing allocation, mapping and protection"),
            run("c30_stack.c", variant="heap", quick="-DHEAP -DGUARD=4 -DFAULTS=1", covers=["written", "released", "creation failed", "overflow detected"],
                bounds="heap stacks, every requested size, one guard word"),
            run("c30_stack.c", variant="heap2", quick="-DHEAP -DGUARD=4096 -DFAULTS=1", covers=["written", "released", "creation failed", "overflow detected"],
                bounds="heap stacks, every requested size, 1024 guard words, five of them overwritten"),
        ],
    ),
    "C31": dict(
        runs=[
            run("c31_switch.c", variant="plain", lift="x86_64", quick="-DWORD=8", covers=["returned"],
                bounds="the x86-64 routine's machine code: all register contents, all positions of the object, the new stack and the caller's stack, all register contents a conforming function may leave"),
            run("c31_switch.c", variant="plain", lift="i386", quick="-DWORD=4", covers=["returned"],
                bounds="the i386 routine's machine code, likewise"),
        ],
    ),
    "C32": dict(
        runs=[
            run("c32_call.c", variant="plain", quick="", thorough="-DNT=3 -DDEPTH=2", covers=["returned", "nested call", "yielded in a call", "waited in a call", "ended"],
                bounds="2 (3) tasks, calls nested 2 deep, yielding or waiting at any point; any 64-bit values"),
            run("c32_call.c", variant="default", quick="-DNT=3 -DDEPTH=1", thorough="-DNT=2 -DDEPTH=1 -DSTEPS=3", covers=["returned", "yielded in a call", "waited in a call", "ended"],
                bounds="3 tasks each in a call (2 tasks pausing 6 times), slice allocator"),
            run("c32_call.c", variant="default", quick="-DNT=2 -DDEPTH=1 -DJUMPS=2", thorough="-DNT=1 -DDEPTH=2 -DJUMPS=2", covers=["returned", "yielded in a call", "waited in a call", "ended"],
                bounds="2 tasks calling twice on the same object"),
            run("c32_call.c", variant="default", quick="-DNT=1 -DDEPTH=3", thorough="-DNT=1 -DDEPTH=4", covers=["returned", "nested call", "ended"], bounds="calls nested 3 (4) deep"),
            run("c32_call.c", variant="plain", entry="sizes", quick="", covers=["stack", "destroyed", "too large"],
                bounds="every object size from the structure's and every stack size up to 2^31-1"),
        ],
    ),
    "C33": dict(
        runs=[
            run("c33_dns.c", variant="plain", quick="-DNT=2 -DPREEMPT=2", thorough="-DNT=2 -DPREEMPT=5",
                covers=["address found", "name found", "lookup failed", "finished", "ended"],
                bounds="2 tasks looking up an address or a name, 2 (5) preemptions at any system call of a system or the helper; any resolver outcome and errno"),
            run("c33_dns.c", variant="plain", quick="-DNT=1 -DCALLS=2 -DFAULTS=1 -DPREEMPT=1", thorough="-DNT=1 -DCALLS=3 -DFAULTS=2 -DPREEMPT=2",
                covers=["set-up failed", "worked after a failed set-up", "ended"],
                bounds="1 task, 2 (3) lookups, 1 (2) failures of allocations, descriptors or the thread"),
            run("c33_dns.c", variant="plain", quick="-DNT=1 -DNSYS=2 -DKINDS=1 -DPREEMPT=1", thorough="-DNT=1 -DNSYS=2 -DKINDS=1 -DPREEMPT=2",
                covers=["address found", "finished", "ended"],
                bounds="two systems in two threads, 1 task each, 1 (2) preemptions"),
            run("c33_dns.c", variant="plain", quick="-DNT=1 -DROUNDS=2 -DKINDS=1 -DPREEMPT=2", thorough="-DNT=2 -DROUNDS=2 -DKINDS=1 -DPREEMPT=3",
                covers=["address found", "finished", "ended"], bounds="a system finalised and initialised again, 2 (3) preemptions"),
            run("c33_dns.c", variant="plain", quick="-DNT=3 -DKINDS=1 -DAGAIN=1 -DPREEMPT=1", thorough="-DNT=3 -DKINDS=1 -DAGAIN=1 -DPREEMPT=3",
                covers=["address found", "lookup failed", "ended"], bounds="3 tasks, one would-block answer per descriptor when writing"),
            run("c33_dns.c", variant="plain", quick="-DNT=2 -DOTHER=2 -DWAKES=1 -DKINDS=1 -DPREEMPT=1", thorough="-DNT=2 -DOTHER=3 -DWAKES=2 -DKINDS=2 -DPREEMPT=2",
                covers=["slow", "stray wake-up", "address found", "ended"], bounds="a third task going on during slow lookups, with 1 (2) stray wake-ups"),
        ],
    ),
    "C34": dict(
        runs=[
            run("c34_init.c", variant="default", quick="-DFAULTS=2", thorough="-DFAULTS=2", covers=["failed", "refused", "finalised"],
                bounds="every choice of 2 failing allocations, descriptor and signal calls each, earlier signal handling present or not, a second start-up after the first"),
            run("c34_init.c", variant="plain", quick="-DFAULTS=2", thorough="-DFAULTS=2", covers=["failed", "refused", "finalised"],
                bounds="the same without the caching allocator"),
        ],
    ),
    "C35": dict(
        runs=[
            run("c35_create.c", entry="harness_alone", variant="plain", quick="", covers=["no allocator", "allocated", "out of memory"],
                bounds="the first allocations of a thread without a system, each step failing or not, sizes of 1 to 9 bytes"),
            run("c35_create.c", variant="plain", quick="", thorough="-DROUNDS=3", covers=["created", "not created", "used", "ended"],
                bounds="2 (3) creations of channels (buffered and not, messages of 1 to 9 bytes, 1 to 3 buffers), selections, circular buffers and calls, each allocation failing or not"),
        ],
    ),
    "C36": dict(
        runs=[
            run("c36_fault.c", variant="plain", quick="", covers=["in a stack", "elsewhere", "passed on", "ended"],
                bounds="one or two faults of either signal at any address, a running task, one running or ended and one not started, handlers in place before"),
            run("c36_fault.c", variant="plain", quick="-DDEFAULT", covers=["in a stack", "elsewhere", "default"],
                bounds="likewise, one fault with the default actions in place before"),
        ],
    ),
    "C37": dict(
        runs=[
            run("c37_systems.c", variant="plain", quick="-DNT=2 -DOPS=2 -DPREEMPT=2", thorough="-DNT=2 -DOPS=3 -DPREEMPT=2",
                covers=["slept", "waited", "waits for the other system", "finished while the other runs", "ended"],
                bounds="two systems in two threads, 2 tasks each, 2 (3) actions of each system's tasks out of yield, sleep, use memory, wait for or give the other system a byte; 2 preemptions at any wait for events, allocation, clock reading or action"),
            run("c37_systems.c", variant="default", quick="-DNT=1 -DOPS=2 -DPREEMPT=2", thorough="-DNT=1 -DOPS=3 -DPREEMPT=2",
                covers=["slept", "waited", "waits for the other system", "finished while the other runs", "ended"],
                bounds="with the caching allocator and guarded stacks: 1 task each, 2 (3) actions, 2 preemptions"),
        ],
    ),
    "C38": dict(
        runs=[
            run("c38_report.c", variant="plain", quick="-DNT=2 -DOPS=4", thorough="-DNT=3 -DOPS=4",
                covers=["started by a task", "changed priority", "looked while one waited", "ended"],
                bounds="2 (3) tasks and the one that ends the run, every history of 4 actions out of start, yield, wait, wake, set priority, asked before the run, at every step of it and afterwards"),
            run("c38_report.c", variant="debug", quick="-DDEBUGGER -DNT=2 -DOPS=3", thorough="-DDEBUGGER -DNT=3 -DOPS=4",
                covers=["started by a task", "changed priority", "looked while one waited", "ended"],
                bounds="likewise 3 (4) actions in the debugging build: counts, current task, list of all tasks"),
        ],
    ),
}
