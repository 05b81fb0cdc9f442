"""Per property: the oracle, and what the verdict says beyond tests."""
NOTES = {
    "C01": (
        "Counters kept by the tasks themselves: starts, entries and ends per task, the data of each start (cells and "
        "NULL in turn), and the number of tasks alive. `run` may return only with none alive and must then return.",
        "The tests start each task once. Here starting, starting again, exiting early and starting one another "
        "are chosen by the solver at every step."),
    "C02": (
        "Integer inequalities over the solver's priority values: for tasks with turns n, m and values p, q, the "
        "difference of n*p and m*q stays within one turn of each, after every turn. Equal values: a reference queue. Real-time: turns "
        "counted from the wake-up. Clamping: all 2^32 arguments.",
        "The proportion holds for every combination of values at every turn; a test sees two or three values."),
    "C03": (
        "A reference queue of runnable tasks: whoever gets the turn must be its head; a waiting task enters it once when woken.",
        "Repeated wake-ups, wake-ups of runnable tasks and events arriving in between, in all orders."),
    "C04": (
        "Starts and ends of the joined task, and who is joining at each moment; a join returning, not returning, or refused is compared with those.",
        "Two joiners, joining after a restart, ending by exit: two defects were here (354b4ff, 96cc819)."),
    "C05": (
        "A reference count per task against the executor's own account of live blocks and mappings. Any access to a "
        "released one is an error by itself; at the end nothing may be left.",
        "Leaks and uses after release on failing paths are invisible to tests."),
    "C06": (
        "A holder variable set by the tasks; try-lock succeeds exactly if it is empty; when nothing is left to run, nobody may wait for a free mutex.",
        "A lost hand-over needs stray wake-ups or try-locks at particular points; all points are covered."),
    "C07": (
        "The set of waiters at each signal or broadcast; exactly one of them, or all, must come out, and each with the mutex.",
        "487a873 (an expired waiter dropping the others) needs three parties in one order."),
    "C08": (
        "Whether a release was given to the waiter, and the clock: zero exactly if released, -1 not before the time.",
        "Signal, expiry and stray wake-up meeting at every possible moment."),
    "C09": (
        "A queue of messages with symbolic bytes: order, lengths cut as stated, bytes beyond untouched.",
        "All interleavings of four tasks in both directions; lengths around 2^8 and 2^16 find narrowed fields."),
    "C10": (
        "Counts of undelivered messages decide when a call may and must block; after closing only buffered messages and -1; "
        "all blocks released when both ends are gone; nothing uses released memory.",
        "Closing while both directions wait, stray wake-ups, ends handed to other tasks (700d321)."),
    "C11": (
        "Message counts per channel: a returned channel must be ready, nothing may be returned only after the time-out "
        "with none ready, and not later than the turn after it; a task may not stay waiting while a channel is ready.",
        "4e27881 (room again without having been full) shows only in some histories."),
    "C12": (
        "Arithmetic on the requested time and the clock readings, wide enough not to overflow; the timer model rejects what the kernel rejects and "
        "expires exactly (or late by any amount in the bound).",
        "Defects sat at single values: an expiry on a full second, 4294968 ms and more (7ce428a, f9fe00e, d102cca)."),
    "C13": (
        "Every sleeper's deadline: resumed before it only if woken by somebody, and never left asleep with its deadline passed when nothing else is to run.",
        "The order of deadlines is left to the solver, together with starts, wake-ups and passing time."),
    "C14": (
        "Induction step: from every tree satisfying the rules, of any shape up to the bound, after one operation the rules, the elements, "
        "their order, the parent links and the first-element shortcut are checked; histories check the same through the interface alone.",
        "Rebalancing depends on shape; the step visits every shape, not those that a test's data happen to build."),
    "C15": (
        "Contents tags in every block, the executor's block table for size and overlap, zero bytes where promised.",
        "Resizing across size classes, reuse after release, refusal of memory at any point."),
    "C16": (
        "Cached blocks counted from outside: system blocks minus blocks in use never exceed the configured maximum; a block address is "
        "given out again only for its size class; destruction returns everything.",
        "With the maximum set to two or three, eviction happens within the bound; by default it starts after a thousand blocks."),
    "C17": (
        "The size of the block really obtained against the request computed without overflow.",
        "Sizes near 2^32, 2^38 and 2^64 (five defects)."),
    "C18": (
        "A queue of symbolic bytes; offered regions must be exactly the free (used) space, inside the block and disjoint.",
        "All sequences of partial transfers, including wrap-around at every position."),
    "C19": (
        "A contract on each system call: arguments as given by the caller, number of calls and waits, and the first outcome other than would-block handed through with errno.",
        "Descriptors, addresses, sizes, results and error codes are solver variables over their full range."),
    "C20": (
        "A model stream with a position: each call must ask for exactly the next bytes, at their place, with address and flags passed on; results as stated.",
        "Short transfers ending anywhere in any part of a vector (5c0db56, 9cacc8b, and the known finding)."),
    "C21": (
        "A state machine of the connection (in progress, done, failed) decides what each call answers and what the result must be.",
        "All orders of completion, wake-ups and errors, without a network."),
    "C22": (
        "The table of open descriptors before and after, their modes, and the arguments passed.",
        "Every step failing; tests never see one fail (bb37923, 62276de)."),
    "C23": (
        "Readiness of the descriptors and the clock at every moment: the result must be right when returned, zero only after the time-out, no waiting while something is ready.",
        "Readiness coming and going around the call (d9ea9f2, 85b4db7)."),
    "C24": (
        "Two byte streams with positions: what is written is the next bytes of what was read; at every wait neither direction can move; at the end nothing is "
        "pending unless the statement excuses it; descriptors and blocks as before.",
        "End of input with bytes pending, partial writes, shared descriptors, stops, in all combinations."),
    "C25": (
        "Contracts as in C19 on the layer at the bottom; the exact variants as in C20.",
        "Every layer and operation, including the rarely used datagram and vectored ones."),
    "C26": (
        "Two byte streams with symbolic bytes: fetched from below and taken by the reader; accepted from the writer and sent below.",
        "Wrap-around, partial transfers and failures at each step (6aa4567, cb4d1b7, 4a6e0a9)."),
    "C27": (
        "As C24, measured at the bottoms of the chains, counting also bytes held in buffering layers.",
        "A flush that would block with bytes left (b95458e)."),
    "C28": (
        "Reference counts kept by the harness against the executor's account of blocks and of closed descriptors. Threads: the library is compiled with "
        "the thread sanitizer's hooks, every access is a scheduling point, and vector clocks decide whether conflicting accesses are ordered.",
        "787160a is a matter of memory ordering that does not show on x86 hardware at all."),
    "C29": (
        "A table of what was asked for per descriptor against what the kernel was told; the kernel model reports any batch; a task may resume only for its own event and must resume for it.",
        "Duplicates in a batch, changed owners, batches as large as the system asks for, busy tasks."),
    "C30": (
        "The executor's map of the stack mapping: requested bytes below the top accessible, guard not, top aligned, released once; for heap stacks the guard words.",
        "All 2^32 sizes; the failing paths."),
    "C31": (
        "The routine is assembled by the repository's own rules, its machine code disassembled and lifted on each run (`lift.py`) to C over a register file and memory (`harness/machine.h`). "
        "The called function is any that keeps what the calling convention keeps. Stack pointer, argument, alignment, preserved registers and written addresses are checked "
        "as solver terms. Counterexamples are replayed by calling the assembled routine (`native/call64.c`, `call32.c`). An instruction the lifter does not know is an error.",
        "All register and stack contents, for two architectures; one of them is not built by the tests at all."),
    "C32": (
        "The address of locals in the called function against the call object's block and data; a table of values per call; the stack pointer the switch gets, for all sizes.",
        "Nested calls in several tasks pausing at every point, all object and stack sizes."),
    "C33": (
        "The resolver stub checks whose arguments it is given and answers anything; each caller must get its own answer. Threads are switched at system calls.",
        "`task-dns` needs a network and looks up one name after another; failures of set-up are never tested (57ccf23, 2e2d471)."),
    "C34": (
        "Descriptors, blocks, mappings, signal handlers and the alternate stack before and after.",
        "Every failing step; six defects were on these paths."),
    "C35": (
        "Blocks before and after a failed creation; what was created is used: a message through the channel, room of the buffer, the value of the call.",
        "Which of a creation's allocations fails cannot be chosen in a test."),
    "C36": (
        "The installed handler is called as the kernel would; the mappings the stacks lie in decide what has to be reported, output and earlier handlers are stand-ins that record.",
        "All addresses, both signals; a test could only crash."),
    "C37": (
        "Which thread a task finds itself in, which task is current, the time a sleep took, the bytes of its memory; descriptors and blocks at the end.",
        "All interleavings of two systems within the bound; the suite has none."),
    "C38": (
        "A model of which task is started, waiting, what it was given; asked by every task at every step, and outside the run; the debugging build's list is read as it is printed.",
        "The suite asks for nothing but the current task."),
}
