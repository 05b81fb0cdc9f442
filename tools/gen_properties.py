#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SCHED = "src/kern/core/hev-task-system-schedule.c"
TASK = "src/kern/task/hev-task.c"
p("C01", "Every started task runs to its end, and run returns exactly then",
  "Each started task has its entry called exactly once with the data it was started with, whether it was started before the run or by another task, and whether it ends by returning or by exiting early. The run call returns, and only returns, when no started task is left, and a task that ended can be started again. Starting a task that is already started changes nothing.",
  ["programs", "schedules"], "all task programs up to the bound: who starts whom, yield/wait/wake/exit points, priorities",
  "The suite runs a handful of fixed programs; which task starts, yields, waits or exits when, and with which priority, is a combination space.",
  [SCHED, TASK, "src/kern/task/hev-task-executer.c"],
  [("dispatch loop and task removal", SCHED), ("task entry trampoline", "src/kern/task/hev-task-executer.c"), ("start/exit", TASK)],
  ["entry call log", "return of hev_task_system_run"])
p("C02", "Runnable tasks share the turns by priority; none that is due is passed over",
  "Among tasks that stay runnable, the turns taken by any two tasks stay proportional to the inverse of their priority values (equal values alternate in turn, in the order they became runnable), within one turn of each. A task that becomes runnable with the real-time priority waits for at most one turn of each other task and from then on runs before every other task while it stays runnable. A priority outside the valid range is clamped to the nearest valid one, and a changed priority takes effect from the task's next turn on. In a build with a scheduling clock the time a task runs for takes the place of the number of its turns.",
  ["programs", "schedules", "inputs"], "all priority assignments (full int range at the API), task counts and turn sequences up to the bound, with waits and wakeups in between",
  "Existing tests check one or two fixed priority pairs; the ordering depends on every combination of priorities and wake-up moments.",
  [SCHED, TASK, "src/lib/rbtree/hev-rbtree.c", "src/lib/rbtree/hev-rbtree-cached.c"],
  [("virtual-time key update and ordered run queue", SCHED), ("priority clamp", TASK)],
  ["order in which task bodies resume"])
p("C03", "A waiting task resumes if and only if it is woken",
  "A task that waits is not resumed until something wakes it, and once it has been woken it is resumed, exactly once per wait however many wakeups it got. Waking a task that is already runnable has no effect on it or on any other task.",
  ["schedules", "programs"], "all orders of wait, wakeup and yield among the tasks up to the bound",
  "Lost or duplicate wake-ups only appear in particular interleavings; the suite exercises one.",
  [SCHED, TASK], [("wakeup and wait transitions", SCHED)], ["resumptions per task", "task state as reported by the API"])
p("C04", "Join returns zero exactly when the joined task has ended",
  "Joining a task returns zero only after that task has ended, and always returns once it has ended, whichever way it ended and whether or not it had already ended (a task not started counts as ended). A second task that joins while a first one is still joining gets -1 and disturbs neither. A task that was joined can be started and joined again.",
  ["schedules", "programs"], "all orders of join, end (return or early exit), restart and third-party wakeups up to the bound",
  "The suite joins one task that returns normally, once.",
  [TASK, "src/kern/task/hev-task-executer.c", SCHED], [("join", TASK), ("joiner wake-up", "src/kern/task/hev-task-executer.c")])
p("C05", "A task's memory and stack are released once, at the last reference",
  "A task and its stack are released exactly when its last reference is dropped (the run system's own reference is dropped when the task ends) and are never touched afterwards. After all references are gone and the system is finalised, no memory, mapping or descriptor acquired by it remains. A failed allocation or mapping while creating a task yields no task and leaves nothing behind.",
  ["histories", "fault_sequences"], "all sequences of reference changes, starts and ends up to the bound, with any allocation or mapping failing",
  "Leaks and use-after-free depend on the order of reference drops and on which allocation fails; tests only see clean runs.",
  [TASK, SCHED, "src/kern/task/hev-task-stack-mmap.c", "src/kern/core/hev-task-system.c"],
  [("reference counting", TASK), ("removal of ended task", SCHED)])
p("C06", "Mutex: one holder at a time, and a free mutex never leaves a waiter asleep",
  "At most one task holds a mutex at any time; a try-lock succeeds exactly when nobody holds it and never blocks. When a holder unlocks and tasks are waiting, one of them gets the mutex in due course: no history of locks, try-locks, unlocks and unrelated wake-ups leaves tasks waiting for a mutex that is never handed on.",
  ["schedules", "programs"], "all interleavings of lock/trylock/unlock/yield by the tasks up to the bound, with stray wake-ups and any priorities",
  "The suite has a few tasks in one fixed schedule.",
  ["src/kern/sync/hev-task-mutex.c", SCHED], [("waiter chain", "src/kern/sync/hev-task-mutex.c")])
p("C07", "Condition signal wakes one waiter, broadcast wakes all, nobody is lost",
  "A signal releases exactly one of the tasks waiting at that moment (none if there are none) and a broadcast releases exactly all of them; tasks not released keep waiting and stay reachable by later signals, also when some waits have timed out. Each wait returns with the mutex held by the caller, and stray wake-ups do not end an untimed wait.",
  ["schedules", "programs", "histories"], "all histories of wait, timed wait, signal, broadcast, time-out and stray wake-up up to the bound",
  "Which waiter times out relative to which signal is a schedule question; the suite covers one waiter at a time.",
  ["src/kern/sync/hev-task-cond.c", "src/kern/sync/hev-task-mutex.c"], [("waiter list", "src/kern/sync/hev-task-cond.c")])
p("C08", "Timed condition wait reports signal or time-out truthfully",
  "A timed wait returns zero if and only if it was released by a signal or broadcast, and otherwise returns -1, not before the given time has passed; in both cases the caller holds the mutex on return. A waiter that has returned is never the target of a later signal.",
  ["schedules", "inputs"], "all time-out values, clock readings, and orders of signal, time-out and stray wake-up up to the bound",
  "Needs control over the clock and over the race of signal and expiry.",
  ["src/kern/sync/hev-task-cond.c", TASK, "src/kern/time/hev-task-timer.c"], [("timed wait", "src/kern/sync/hev-task-cond.c")])
p("C09", "Channels deliver every message once, in order, with its exact bytes",
  "The messages read from one end of a channel are exactly the messages written at the other end, in that order, each delivered once; each read returns the written length cut to the smaller of the reader's buffer size and (on buffered channels) the channel's message size, and fills exactly those bytes. Both directions are independent.",
  ["inputs", "schedules"], "all message sizes, contents, read sizes and capacities up to the bound, both directions, every reader/writer order",
  "The suite moves a few fixed-size messages in one order.",
  ["src/kern/itc/hev-task-channel.c"], [("ring of message buffers", "src/kern/itc/hev-task-channel.c")])
p("C10", "Channel ends block only as documented, and closing releases the other side",
  "A write on a channel of capacity n blocks exactly while more than n messages (its own included) are undelivered, and a read blocks exactly while none is; a blocked side resumes as soon as the other side makes that possible. When one end is destroyed the other end, blocked or not, gets -1 for everything that cannot be completed any more (messages already buffered can still be read), and once both ends are destroyed all channel memory is released.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of reads, writes and destroys by the two sides for capacities up to the bound; any allocation failing at creation",
  "Destroy against blocked read/write at each point is a schedule space the suite does not visit.",
  ["src/kern/itc/hev-task-channel.c"], [("full/empty waits, sync on write, destroy", "src/kern/itc/hev-task-channel.c")])
p("C11", "Channel select reports exactly the ready channels and misses no change",
  "Read-select returns a channel of the set that has a message to read whenever there is one, and write-select a channel of the set that has spare capacity (a write would not block) whenever there is one; with none ready they wait until one becomes ready or the time-out passes, then return nothing. A channel becoming ready after it was busy, while the selecting task waits or not, is noticed.",
  ["schedules", "histories"], "all histories of writes, reads, adds, removals and selects on sets of channels up to the bound, capacities and time-outs included",
  "The suite uses unbuffered channels and one schedule; readiness bookkeeping depends on the history.",
  ["src/kern/itc/hev-task-channel-select.c", "src/kern/itc/hev-task-channel.c"], [("ready lists", "src/kern/itc/hev-task-channel-select-private.h")])
p("C12", "A sleep ends no earlier than asked unless woken, and reports the rest",
  "For every duration and every clock reading, a sleep that is not woken early lasts at least the requested time and returns zero; one that is woken early returns the time that was left, rounded up to the unit, so zero only if the time has passed, and never more than was requested. No duration or clock value makes a sleep fail or abort.",
  ["inputs"], "all 32-bit durations in milliseconds and microseconds, all clock readings, wake-ups at any time",
  "Boundary values (nanosecond carry, 32-bit products) are single points in a huge space.",
  [TASK, "src/kern/time/hev-task-timer.c"], [("expiry arithmetic", "src/kern/time/hev-task-timer.c"), ("unit conversion", TASK)])
p("C13", "Every sleeper is woken once its own time has passed, whatever the others do",
  "With any number of sleeping tasks, each one resumes after its own deadline has passed, and an expiry resumes a task only when its own deadline has passed; tasks starting to sleep, being woken early, or ending their sleep in between never delay or cancel another task's wake-up beyond its deadline.",
  ["schedules", "inputs", "histories"], "all sets of deadlines, start orders, early wake-ups and clock advances up to the bound",
  "A lost timer re-arm needs a particular order of inserts and early wake-ups.",
  ["src/kern/time/hev-task-timer.c", "src/kern/time/hev-task-timer-timerfd.c", "src/lib/rbtree/hev-rbtree-cached.c"], [("sorted set of sleepers and timer re-arm", "src/kern/time/hev-task-timer.c")])
p("C14", "The ordered index under scheduler and timers stays sorted, complete, balanced",
  "After any sequence of insertions and removals the ordered index holds exactly the elements inserted and not removed, in sorted order with equal keys in insertion order; its smallest-element shortcut is the smallest element; forward and backward traversal and replacement agree with that order; and its depth stays logarithmic (balanced-tree rules hold).",
  ["histories", "inputs"], "all insertion/removal/replacement histories with arbitrary keys up to the bound",
  "Rebalancing has many cases per operation, selected by the shape of the tree; tests only indirectly touch a few.",
  ["src/lib/rbtree/hev-rbtree.c", "src/lib/rbtree/hev-rbtree-cached.c"], [("rebalancing on insert and erase", "src/lib/rbtree/hev-rbtree.c"), ("leftmost cache", "src/lib/rbtree/hev-rbtree-cached.c")])
p("C15", "Allocated blocks are large enough, private, and keep their contents",
  "Every block handed out has at least the requested size, does not overlap any other live block or the allocator's own data, and keeps its bytes until it is freed or resized; resizing keeps the common prefix, and the zeroing variants return zeroed bytes even when memory is reused. This holds for every history of allocate, resize and free, with the system refusing memory at any point.",
  ["histories", "inputs", "fault_sequences"], "all histories of allocate/zero-allocate/resize/free with arbitrary sizes up to the bound and any refusal pattern",
  "Cached-block reuse depends on the order and sizes of frees; tests do a fixed pattern.",
  ["src/mem/slice/hev-memory-allocator-slice.c", "src/mem/api/hev-memory-allocator-api.c", "src/mem/simple/hev-memory-allocator-simple.c"], [("size-class cache", "src/mem/slice/hev-memory-allocator-slice.c")])
p("C16", "The allocator cache is bounded, evicts safely, and is released in full",
  "The allocator never keeps more freed blocks cached than its configured maximum, returns each underlying block to the system at most once, and reuses a cached block only for requests of its size class. When the allocator is destroyed every cached block and the allocator itself are returned to the system.",
  ["histories", "configurations"], "all histories of allocate/resize/free over several size classes, with small configured maxima, up to the bound",
  "Eviction only starts after a thousand cached blocks in the default configuration; no test gets there.",
  ["src/mem/slice/hev-memory-allocator-slice.c", "src/mem/base/hev-memory-allocator.c"], [("LRU of size classes", "src/mem/slice/hev-memory-allocator-slice.c")])
p("C17", "No size, however large, yields an object smaller than asked for",
  "For every requested size, element count, or size/capacity pair, creating a memory block, zeroed array, channel or circular buffer either fails cleanly or yields an object that really has the requested capacity; arithmetic on the sizes never wraps into a smaller object.",
  ["inputs"], "all 64-bit sizes and counts (32-bit for channels)",
  "Wrap-around happens at single points of the 64-bit range.",
  ["src/mem/api/hev-memory-allocator-api.c", "src/mem/slice/hev-memory-allocator-slice.c", "src/kern/itc/hev-task-channel.c", "src/lib/io/buffer/hev-circular-buffer.c"], [("size products and rounding", "src/mem/api/hev-memory-allocator-api.c")])
p("C18", "The circular buffer is a bounded first-in first-out byte queue",
  "Bytes come out of the circular buffer in the order they were put in, none lost, duplicated or invented, for every sequence of partial writes and reads; the regions offered for writing and reading are exactly the free and the used space, stay inside the buffer, do not overlap, and the used size reported is the number of unread bytes.",
  ["inputs", "histories"], "all buffer sizes, fill levels, positions and transfer sizes (sizes symbolic up to 2^32; contents for small buffers)",
  "Wrap-around cases depend on position and fill level.",
  ["src/lib/io/buffer/hev-circular-buffer.c"], [("region computation", "src/lib/io/buffer/hev-circular-buffer.c")])
p("C19", "Task read/write calls hand through the first result that is not would-block",
  "Each task-aware read, write or vectored call performs the same system call with the caller's descriptor, buffers and sizes, gives up the processor exactly when that would block, and returns the first other outcome unchanged (byte count, end of file, or error with its error code). If the caller's yielder asks to stop, it returns -2 without another system call; the yielder, when given, is used for every wait with the caller's data.",
  ["fault_sequences", "inputs"], "all sequences of system call outcomes (any count, any error code) up to the bound, all arguments, with and without yielder",
  "Tests see the outcomes the kernel happens to give.",
  ["src/lib/io/basic/hev-task-io.c"], [("retry loops", "src/lib/io/basic/hev-task-io.c")])
p("C20", "Socket transfers are exact: wait-all moves every byte once, in order",
  "A socket send or receive without wait-all is a single transfer with the outcome of the first system call that does not block; with wait-all it continues until everything asked for is moved, the stream ends or fails, or the yielder stops it (giving -2), and returns the number of bytes moved (or the outcome of the first call if none). Over all partial transfers every byte of the caller's buffers, vectored or not, is transferred exactly once at its right place, the address and flags (except wait-all) are passed on, and nothing outside the caller's buffers is touched.",
  ["fault_sequences", "inputs"], "all splits into partial transfers, blocks, ends and errors; all buffer lengths and vector shapes up to the bound; all six calls",
  "Partial transfers at each boundary of each vector entry are not producible on demand.",
  ["src/lib/io/socket/hev-task-io-socket.c"], [("wait-all continuation and vector advance", "src/lib/io/socket/hev-task-io-socket.c")])
p("C21", "Connect and accept wait properly and report the real outcome",
  "Connect returns zero exactly if the socket got connected, waits only while the connection is in progress, and otherwise returns the failure with its error code. Accept waits only while no connection is pending and returns a new non-blocking descriptor or the failure; if the new descriptor cannot be made non-blocking it is closed and reported as failure. A stop request by the yielder gives -2.",
  ["fault_sequences"], "all sequences of system call outcomes and error codes up to the bound",
  "Error sequences of the kernel cannot be forced.",
  ["src/lib/io/socket/hev-task-io-socket.c"], [("connect/accept loops", "src/lib/io/socket/hev-task-io-socket.c")])
p("C22", "Opened descriptors are non-blocking; failures leave no descriptor behind",
  "Every task-aware call that opens descriptors (open, create, open-at, duplicate, pipe, socket, socket pair) returns descriptors in non-blocking mode, passing the caller's arguments to the system unchanged. If any step fails, it reports failure and every descriptor it had opened is closed, exactly once, and no other descriptor is.",
  ["fault_sequences", "inputs"], "all arguments and all failure points",
  "Failure of the later steps cannot be provoked in tests.",
  ["src/lib/io/basic/hev-task-io.c", "src/lib/io/pipe/hev-task-io-pipe.c", "src/lib/io/socket/hev-task-io-socket.c"], [("set-up and error paths", "src/lib/io/socket/hev-task-io-socket.c")])
p("C23", "Task poll returns when a descriptor is ready or the time-out passed, not else",
  "Task poll returns the system's readiness result as soon as some watched descriptor is ready, returns zero only when the time-out has passed with none ready, blocks only the calling task, and never returns zero with an infinite time-out. A zero time-out asks once and does not wait.",
  ["schedules", "inputs", "fault_sequences"], "all time-outs, readiness moments, stray wake-ups and clock advances up to the bound",
  "Races of readiness, time-out and stray wake-ups are not reachable on demand.",
  ["src/lib/io/poll/hev-task-io-poll.c", TASK], [("wait loop", "src/lib/io/poll/hev-task-io-poll.c")])
p("C24", "Splicing relays each direction as an unbroken byte stream",
  "While splicing between two descriptor pairs, the bytes written to each side are a prefix of the bytes read from the other, in order, with nothing lost, repeated or invented. When a side's input ends, everything read from it has been written out before that direction stops, unless the output failed, the other direction ended first on a shared descriptor, or the caller's yielder stopped the splice; the splice then ends and releases its resources, and it waits for events only when neither direction can move.",
  ["fault_sequences", "schedules"], "all sequences of partial reads/writes, would-blocks, ends and errors in both directions up to the bound; both implementation variants",
  "Partial writes at end-of-input and full-buffer cases need control over each system call.",
  ["src/lib/io/basic/hev-task-io.c"], [("splice step, both variants", "src/lib/io/basic/hev-task-io.c")])
p("C25", "Chain I/O calls retry, complete and report errors like the layer below",
  "Each chain I/O operation passes the caller's buffers to the chain, waits only on would-block, returns the first other outcome (with its error), and -2 when the yielder stops it; the exact variants move every byte exactly once in order until complete, end or error, returning the bytes moved. The descriptor, socket, null and pass-through layers act on their own descriptors, address sizes and results only.",
  ["fault_sequences", "inputs", "configurations"], "all outcome sequences, lengths and vector shapes up to the bound, all layer kinds and chain shapes",
  "Same as for plain I/O, times the chain shapes.",
  ["src/lib/cio/base/hev-task-cio.c", "src/lib/cio/fd/hev-task-cio-fd.c", "src/lib/cio/socket/hev-task-cio-socket.c", "src/lib/cio/null/hev-task-cio-null.c"], [("retry/exact loops", "src/lib/cio/base/hev-task-cio.c"), ("dispatch", "src/lib/cio/base/hev-task-cio.h")])
p("C26", "The buffering chain layer is invisible in the byte stream",
  "Through a buffering layer, the bytes a reader obtains (by read, vectored read or peek) are the bytes of the layer below in order, peeking consumes nothing, and the bytes that reach the layer below are the bytes written in order, all of them once a flush succeeds. End of file and errors of the layer below met by a read, write or flush are reported when no buffered bytes precede them, it waits only if the layer below would block, and no bytes are lost, repeated or read from outside the data.",
  ["histories", "inputs", "fault_sequences"], "all histories of read/peek/write/flush with any sizes and any partial outcomes below, buffer sizes up to the bound",
  "Wrap-around and partial flushes depend on the history.",
  ["src/lib/cio/buffer/hev-task-cio-buffer.c", "src/lib/io/buffer/hev-circular-buffer.c"], [("fill/drain", "src/lib/cio/buffer/hev-task-cio-buffer.c")])
p("C27", "Chain splice relays both streams and leaves nothing stuck in a buffer layer",
  "While splicing two chains, the bytes handed to each chain's bottom are a prefix of the bytes read from the other chain, in order, with nothing lost or repeated, and when an input ends everything read from it has reached the bottom of the other chain before the splice ends (unless that output failed, the other direction ended, or the yielder stopped it). It never goes to wait for events while bytes it accepted could be written.",
  ["fault_sequences", "schedules"], "all sequences of partial transfers, would-blocks, ends and errors up to the bound, with and without a buffering layer",
  "Partial flush followed by an idle or ended input needs a particular sequence.",
  ["src/lib/cio/base/hev-task-cio.c", "src/lib/cio/buffer/hev-task-cio-buffer.c"], [("chain splice step", "src/lib/cio/base/hev-task-cio.c")])
p("C28", "Objects are destroyed at the last reference, with their chain, exactly once",
  "An object (plain or with atomic counting) is destroyed exactly when its last reference is dropped. A chain element owns one reference to the next: destroying it drops that one, popping hands it back to the caller, and destruction closes each descriptor the layer owns exactly once and frees all its memory. Objects with atomic counting may be shared by threads: whichever thread drops the last reference destroys the object, once, with everything the other threads did to it before dropping theirs visible. Threads may create the first objects of a class at the same time: each gets an object with all its functions.",
  ["histories", "configurations", "fault_sequences"], "all histories of create, ref, unref, push and pop over chains up to the bound, with allocation failures, and all interleavings of threads sharing an object up to the bound",
  "Double close and double free depend on who still holds references.",
  ["src/lib/object/hev-object.c", "src/lib/object/hev-object-atomic.c", "src/lib/cio/base/hev-task-cio.h", "src/lib/cio/fd/hev-task-cio-fd.c"], [("reference drop and chain destruction", "src/lib/cio/base/hev-task-cio.h")])
p("C29", "Descriptor events resume the task they were registered for",
  "Registering, changing and removing a descriptor subscribes exactly the requested read/write/error events of that descriptor for that task, reporting the system's failure if there is one. Whenever the system reports an event, precisely the task registered for it becomes runnable, any number of events in a batch are all honoured, interrupted or empty waits change nothing, the system is asked to block only if no task is runnable, and tasks that keep running do not keep events from being asked for.",
  ["schedules", "fault_sequences", "inputs"], "all event masks, all event batches and poll outcomes up to the bound",
  "Which events arrive in one batch, and failing waits, cannot be forced in tests.",
  [TASK, SCHED, "src/kern/io/hev-task-io-reactor-epoll.c", "src/kern/io/hev-task-io-reactor-epoll.h"], [("event subscription", "src/kern/io/hev-task-io-reactor-epoll.h"), ("event loop", SCHED)])
p("C30", "A task's stack has the requested size, alignment and overflow protection",
  "For every requested size a created task gets a stack that offers at least the requested bytes above an inaccessible guard area (or marked guard words in the heap configuration), with a suitably aligned top; it is released in full and once. If memory, mapping or protection fails, creation fails cleanly.",
  ["inputs", "configurations", "fault_sequences"], "all stack sizes, page sizes, both stack backends, all failure points",
  "Sizes at rounding boundaries and failing protection are not covered.",
  ["src/kern/task/hev-task-stack-mmap.c", "src/kern/task/hev-task-stack-heap.c"], [("size rounding and guard", "src/kern/task/hev-task-stack-mmap.c")])
p("C31", "The stack switch enters on the new stack and restores the caller exactly",
  "For every register and stack content, the stack-switch routine calls the given function with the object as its argument on the object's own, ABI-aligned stack, writes only below that stack's top, and on the function's return resumes the caller with the original stack pointer and all preserved registers, for every function that itself obeys the calling convention.",
  ["inputs", "configurations"], "all machine states; x86-64 and i386 encodings",
  "Tests run it with whatever registers the compiler happened to use.",
  ["src/arch/x86/hev-task-execute-x86_64.s", "src/arch/x86/hev-task-execute-x86.s", "src/kern/task/hev-task-execute.S"], [("stack switch", "src/arch/x86/hev-task-execute-x86_64.s")])
p("C32", "A task call runs on its own stack, may block, and returns its value",
  "A called function runs on the call object's private stack, which never overlaps the object's own data and offers the requested bytes, less at most what aligning its top to 16 bytes takes; it may yield, wait and be resumed like ordinary task code, calls may be nested and run in several tasks at once, and the value it set is what the caller gets after it returned.",
  ["schedules", "inputs"], "all sizes, and all interleavings of yielding nested calls in several tasks up to the bound",
  "Interleaved yielding calls in several tasks are not in the suite.",
  ["src/kern/task/hev-task-call.c", "src/kern/core/hev-task-system-schedule.c"], [("call set-up", "src/kern/task/hev-task-call.c")])
p("C33", "Name lookups give each caller its own result and error",
  "Each name lookup returns to its caller the result, error code and output of the resolver for that caller's own arguments, also when several tasks look up at once; it blocks only the calling task. If the helper cannot be set up, the call reports a system error, releases what it acquired, and a later call can succeed.",
  ["schedules", "fault_sequences"], "all interleavings of concurrent lookups with the helper's steps up to the bound, all resolver outcomes, all set-up failures",
  "The suite's lookup test needs a network; concurrency and set-up failures are not tested.",
  ["src/lib/dns/hev-task-dns-proxy.c", "src/lib/dns/hev-task-dns.c", "src/kern/aide/hev-task-aide.c"], [("request hand-over", "src/lib/dns/hev-task-dns-proxy.c"), ("helper thread start", "src/kern/aide/hev-task-aide.c")])
p("C34", "System start-up succeeds fully or fails leaving nothing behind",
  "Initialisation either succeeds with everything in place (its descriptors closed on exec) or returns an error with every descriptor and memory block it had acquired released and signal handling as before, whichever step fails; a later initialisation can then succeed. Finalisation releases everything and restores the previous signal handling, and initialising twice fails without harming the running system.",
  ["fault_sequences", "histories"], "every failing step (memory, descriptors, flags, timers, registration, signals), init/fini sequences up to the bound",
  "Failures of these calls cannot be provoked in tests.",
  ["src/kern/core/hev-task-system.c", "src/kern/io/hev-task-io-reactor.c", "src/kern/time/hev-task-timer-timerfd.c", "src/lib/misc/hev-task-stack-detector.c"], [("construction and unwinding", "src/kern/core/hev-task-system.c")])
p("C35", "Channels, selections, buffers and calls are created whole or not at all",
  "Creating a channel pair (with or without buffers), a channel selection, a circular buffer or a task call either gives an object that is empty and works, or fails and leaves nothing allocated, whichever of its allocations fails; releasing everything gives all memory back. The same holds for the allocator a thread gets with its first allocation when it runs no system.",
  ["fault_sequences", "inputs"], "every failing allocation, all sizes and counts up to the bound",
  "Failing allocations cannot be provoked in tests.",
  ["src/kern/itc/hev-task-channel.c", "src/kern/itc/hev-task-channel-select.c", "src/lib/io/buffer/hev-circular-buffer.c", "src/kern/task/hev-task-call.c"], [("pair creation and unwinding", "src/kern/itc/hev-task-channel.c")])
p("C36", "A fault in a task's stack is reported and goes on to where faults went before",
  "When a memory fault occurs in a thread that runs a system (the only one in the process), it is reported as a stack overflow exactly if the address lies in the stack of a task that exists, for that task only. Then the handler that was in place for this signal before start-up is called once with the same arguments; if there was none, the earlier action is put back so that it is taken when the fault occurs again, and the other signal is still handled.",
  ["inputs", "histories"], "all fault addresses, both signals, tasks running, ended and not started, with and without earlier handlers",
  "The suite has no faulting test.",
  ["src/lib/misc/hev-task-stack-detector.c", "src/kern/task/hev-task.c"], [("signal handler", "src/lib/misc/hev-task-stack-detector.c")])
p("C37", "Systems in different threads do not affect each other",
  "Each thread can run its own system. A task runs only in the thread that started it, with its own memory, sleeps and descriptor events, and is the current task there, whatever systems in other threads do at the same time; each run returns when the tasks of its own system have ended. Starting up or finalising a system in one thread does not disturb one running in another, and after all are finalised nothing is left of any.",
  ["interleavings", "histories"], "all interleavings of two systems up to the bound on preemptions",
  "The suite runs one system only.",
  ["src/kern/core/hev-task-system.c", "src/kern/core/hev-task-system-schedule.c", "src/mem/base/hev-memory-allocator.c"], [("context of the thread", "src/kern/core/hev-task-system.c"), ("allocator of the thread", "src/mem/base/hev-memory-allocator.c")])
p("C38", "What is reported about tasks is what they are",
  "The current task, and each task's state (stopped before it is started and after it ended, running while it is runnable, waiting), priority (the one last set, clamped) and data are reported as they are at that moment, to whichever task asks and outside the run. The functions of the debugging build report the number of started and of runnable tasks and list every existing task exactly once, with its state.",
  ["histories"], "all short histories of starts, yields, waits, wake-ups and changes of priority",
  "The suite asks for nothing but the current task.",
  ["src/kern/task/hev-task.c", "src/kern/core/hev-task-system-schedule.c", "src/lib/misc/hev-debugger.c"], [("state changes", "src/kern/core/hev-task-system-schedule.c"), ("debugging functions", "src/lib/misc/hev-debugger.c")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
