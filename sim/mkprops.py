#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the wording is diffable).
import json, sys, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

HOOK = "guard TOYWASM_ENABLE_SIM_HOOKS: initial interrupt-check interval and restart injection at interrupt checks (lib/exec.c)"

prop("P01", "Interruption and resumption are invisible to the running program",
 "However often and wherever an execution is suspended and resumed (embedder interrupts, requests to stop the world, restarts inside host calls and host-to-guest callbacks), the program ends with exactly the results, trap, memory, globals, tables and sequence of host calls that an uninterrupted run of it produces. No instruction or host call is skipped, executed twice or given changed operands because of an interruption.",
 ["programs", "schedules", "fault_sequences"], "all programs (loops, calls, tail calls, indirect calls, exceptions, multi-value blocks, bulk memory and table operations, host calls, host-to-guest callbacks), all points at which an interrupt check can fire, all patterns of interruptions including back-to-back ones",
 "Tests run fixed modules; the debug build forces a restart every tenth check at one fixed phase, and release builds never do, so almost no (instruction, restart) pair is exercised and never compared to an uninterrupted run.",
 ["lib/exec.c", "lib/restart.c", "lib/instance.c", "lib/host_instance.c", "lib/insn.c", "lib/insn_impl_eh.h", "lib/insn_impl_tailcall.h", "lib/insn_impl_threads.h"],
 [("interrupt checks in the execution loop", "lib/exec.c exec_expr_continue/check_interrupt"), ("pending event replay", "lib/exec.c exec_expr_continue"), ("restart records for host functions and timers", "lib/restart.c, lib/host_instance.c")],
 [("ctx->event", "operation to redo on resume", "lib/exec_context.h"), ("ctx->restarts", "stack of suspended host calls and timers", "lib/exec_context.h")],
 ["values returned to the embedder", "host function call log", "final memory/global/table contents"], HOOK)

prop("P02", "Interrupt requests and timeouts reach the embedder in bounded time",
 "Once the embedder raises its interrupt flag, an execution - computing, waiting on an atomic, sleeping, polling, or blocked in read, write, accept or close - hands control back with the interrupted indication within a bounded time, and never hands it back when no request was raised. The interrupted execution can then be resumed and completes normally, or be abandoned and torn down.",
 ["programs", "schedules", "fault_sequences"], "every moment at which the flag can be raised, every kind of blocking operation, every adaptive check interval the engine can reach, slow and fast clocks",
 "One test interrupts one counting loop at one moment; blocked operations, adaptive intervals and multi-threaded programs are never interrupted in tests.",
 ["lib/exec.c", "libwasi/wasi_poll_subr.c", "libwasi/wasi_abi_poll.c", "lib/exec_insn_subr.c", "libwasi/wasi_table.c", "lib/timeutil.c"],
 [("adaptive check interval", "lib/exec.c adjust_check_interval"), ("sliced blocking", "libwasi/wasi_poll_subr.c, lib/exec_insn_subr.c memory_wait")],
 [("ctx->check_interval", "instructions between checks", "lib/exec_context.h")],
 ["return value of the execute/continue calls", "virtual time between request and return"], HOOK)

prop("P03", "Atomic memory operations of concurrent threads are linearizable",
 "For threads sharing a memory, every history of atomic loads, stores, read-modify-writes and compare-exchanges of any width has a single total order, consistent with real time, in which each operation returns what a sequential memory would return. No update is lost, torn or applied twice, also while the memory grows, threads are suspended and resumed, or operations of different widths overlap.",
 ["schedules", "programs", "histories"], "all interleavings at single-memory-access granularity, all widths, all operators, all placements of stop-the-world growth and restarts",
 "There is no test of concurrent atomics at all, and a lost update needs a preemption in a window of a few instructions.",
 ["lib/insn_impl_threads.h", "lib/waitlist.c", "lib/exec_insn_subr.c", "lib/cluster.c", "lib/suspend.c"],
 [("global atomics lock", "lib/waitlist.c, lib/exec_insn_subr.c memory_atomic_getptr"), ("host atomics", "lib/insn_impl_threads.h")],
 [], ["operation results with begin/end times", "final memory"], None)

prop("P04", "Wait and notify never lose, duplicate or invent wake-ups",
 "A wait that finds a different value returns 'not-equal' without blocking; the sum of the counts returned by notifies on an address equals the number of waits on it that return 'ok', and no notify wakes more threads than it was asked to. A thread already blocked when a notify with room for it runs is woken by it, and a wait with a timeout ends no earlier than the timeout and within a bounded delay after it, also when it is interrupted and resumed.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of waiters and notifiers on same and different addresses, spurious wake-ups, restarts and memory growth in the middle of waits, all timeouts",
 "No test performs a wait or notify; lost wake-ups need a specific interleaving of enqueue, value check and notify.",
 ["lib/waitlist.c", "lib/exec_insn_subr.c", "lib/insn_impl_threads.h", "lib/usched.c", "lib/restart.c"],
 [("wait queues under the global atomics lock", "lib/waitlist.c"), ("restartable absolute timeouts", "lib/exec_insn_subr.c memory_wait")],
 [("struct waiter_list", "blocked waiters of an address", "lib/waitlist.c")],
 ["wait and notify results with begin/end virtual times"], HOOK)

prop("P05", "Growth of memory is atomic, monotonic and never disturbs other threads",
 "Concurrent growth requests on a memory behave as if executed one at a time: each success returns the previous size, sizes never shrink or exceed the maximum, new pages read as zero and existing contents are preserved. A growth that fails (limit or out of memory) changes nothing, and no thread accessing the memory meanwhile crashes, sees a wrong bound, or is left suspended.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of growing, reading, writing, waiting, spawning and exiting threads, allocation failure at any growth, any page size and maximum",
 "Tests grow memory only from one thread; two growers that overlap inside the stop-the-world window never occur.",
 ["lib/exec_insn_subr.c", "lib/suspend.c", "lib/cluster.c", "lib/instance.c", "lib/shared_memory.c"],
 [("stop-the-world around reallocation", "lib/suspend.c, lib/exec_insn_subr.c memory_grow_impl"), ("memory lock", "lib/exec_insn_subr.c")],
 [("cluster suspend state", "who is stopped", "lib/cluster.h")],
 ["growth and size results", "memory contents", "termination of all threads"], HOOK)

prop("P06", "Every successful thread spawn runs its start function exactly once",
 "Each spawn that reports success starts one new thread, which calls the start entry point exactly once with the reported identifier and the given argument; identifiers are positive and no two live threads share one. A spawn that reports failure starts nothing and leaves no trace, so the process still ends normally and later spawns work.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of spawning and exiting threads, thread-creation failure and allocation failure at every step of a spawn",
 "Tests spawn a few threads without faults; failure paths and identifier reuse under exit races are never taken.",
 ["libwasi_threads/wasi_threads.c", "lib/idalloc.c", "lib/cluster.c"],
 [("identifier allocator", "lib/idalloc.c"), ("re-instantiation and runner", "libwasi_threads/wasi_threads.c")],
 [("cluster runner count", "threads alive", "lib/cluster.h")],
 ["spawn results", "start function calls", "process termination"], HOOK)

prop("P07", "Process end stops every thread promptly and reports the right outcome",
 "When any thread exits the process or traps, or the main thread returns, all other threads stop within a bounded time whatever they are doing, and the embedder then sees one outcome that some thread actually produced: the exit code of an exit that was requested, the trap that occurred, or normal completion if the main thread returned. A thread that merely finishes or ends itself does not affect the others.",
 ["schedules", "programs", "fault_sequences"], "all interleavings of exits, traps, returns, spawns and blocking operations across threads",
 "Tests cover one or two fixed exit patterns under the native scheduler; races between several terminating threads are not controlled.",
 ["libwasi_threads/wasi_threads.c", "lib/cluster.c", "lib/exec.c", "libwasi/wasi_abi_proc.c", "lib/suspend.c"],
 [("cluster interrupt and join", "lib/cluster.c, libwasi_threads/wasi_threads.c")],
 [("propagated trap", "first terminating event", "libwasi_threads/wasi_threads.c")],
 ["trap and exit code given to the embedder", "virtual time to join"], HOOK)

prop("P08", "The descriptor table behaves like a sequential table under concurrency",
 "Any concurrent history of opening, closing, renumbering and using descriptors is equivalent to a sequential one in which a descriptor names one open file from the call that creates it until the call that closes or replaces it. Two open descriptors never share a number, a closed or reused number never reaches the old file, and each underlying host file is closed exactly once and only after its last user has finished.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of descriptor operations by several threads on the same numbers, restarts of blocked close and renumber, allocation and host-call failures",
 "Tests use descriptors from one thread; use-versus-close races need preemption between lookup and host call.",
 ["libwasi/wasi_table.c", "libwasi/wasi_fdtable.c", "libwasi/wasi_fdinfo.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_host_fdop.c"],
 [("reference counts under the instance lock", "libwasi/wasi_table.c, libwasi/wasi_fdinfo.c"), ("close waits for users", "libwasi/wasi_table.c")],
 [("fdtable", "guest descriptor to open file", "libwasi/wasi_impl.h")],
 ["call results", "host open/close/use log"], HOOK)

prop("P09", "Byte streams are delivered exactly once, in order, with true counts",
 "Bytes written to a file, pipe, socket or terminal arrive exactly once and in order, bytes read are exactly those the peer sent, and every reported count equals the bytes actually transferred, even when the host performs short transfers, blocks, is interrupted or fails, and when the call is suspended and resumed. A blocking call returns 'try again' never; a non-blocking call never blocks; a failed call transfers nothing.",
 ["inputs", "schedules", "fault_sequences"], "all scatter/gather shapes, all patterns of short transfers, would-block, interruption and errors, any peer timing, several threads on the same stream",
 "Tests write small buffers to always-ready files; short, blocked and interrupted transfers never happen there.",
 ["libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_sock.c", "libwasi/wasi_host_fdop.c", "libwasi/wasi_host_sockop.c", "libwasi/wasi_poll_subr.c", "libwasi/wasi_uio.c", "libwasi/wasi_subr.c"],
 [("blocking emulation over non-blocking host descriptors", "libwasi/wasi_poll_subr.c"), ("vector copy-in", "libwasi/wasi_subr.c")],
 [], ["counts and data seen by guest and by peer"], HOOK)

prop("P10", "Sleeps, polls and clocks respect time",
 "A poll returns only events whose condition really holds - a timer that has expired on its own clock, a descriptor that is ready - each at most once with its own user data, and it returns within a bounded delay after the first subscribed condition holds. Timers never fire early; past deadlines and zero delays complete at once with success; monotonic clock readings never decrease.",
 ["inputs", "schedules", "fault_sequences"], "all sets of subscriptions, relative and absolute timeouts on each clock, any readiness times, clock granularity and drift between reads, interrupted host polls, suspension and resumption mid-poll",
 "Tests sleep once with the wall clock; expired, tiny, absolute and mixed subscriptions under adverse clocks are not reachable deterministically.",
 ["libwasi/wasi_abi_poll.c", "libwasi/wasi_abi_clock.c", "lib/timeutil.c", "libwasi/wasi_poll_subr.c"],
 [("absolute timeout conversion", "lib/timeutil.c convert_timespec"), ("restartable timer", "libwasi/wasi_abi_poll.c")],
 [], ["events returned", "virtual time"], HOOK)

prop("P11", "File operations have exactly their specified effect, or fail with none",
 "Each path and file operation (open with flags, create, remove, rename, link, symlink, readlink, stat, set times and sizes, seek, positioned and appended I/O, sync) has the same result and effect on the host tree as the operation specifies, resolved below the directory descriptor it names; absolute paths are refused. When the host reports an error, the guest sees the corresponding error code (the generic I/O error where there is none), the call is not retried into a second effect, and nothing else changes.",
 ["inputs", "histories", "fault_sequences"], "all operation sequences over a tree, all flags, any host error at any call",
 "Tests open and read a few files; error injection and sequences against a reference model do not exist.",
 ["libwasi/wasi_abi_path.c", "libwasi/wasi_host_pathop.c", "libwasi/wasi_host_fdop.c", "libwasi/wasi_host_subr.c", "libwasi/wasi_path_subr.c", "libwasi/wasi_abi_fd.c"],
 [("flag, errno and stat conversion", "libwasi/wasi_host_subr.c"), ("path composition", "libwasi/wasi_path_subr.c")],
 [], ["call results", "simulated host tree"], None)

prop("P12", "Every run gives back all memory and host descriptors it took",
 "After an execution has ended in any way - success, trap, exit, interruption, error, with any number of threads - and its objects are destroyed, every byte of memory and every host descriptor acquired on its behalf has been released exactly once, and the engine's own accounting reads zero. Nothing is released while still in use.",
 ["programs", "schedules", "fault_sequences"], "all programs, all ways to end, all failing allocations and host calls, any moment of abandonment after an interrupt",
 "Leak checks in tests only cover the successful paths the tests take.",
 ["lib/mem.c", "lib/instance.c", "lib/module.c", "lib/exec.c", "lib/vec.c", "libwasi/wasi.c", "libwasi/wasi_fdinfo.c", "libwasi_threads/wasi_threads.c"],
 [("memory contexts", "lib/mem.c"), ("destroy functions", "lib/module.c, lib/instance.c, libwasi/wasi.c")],
 [("mem_context.allocated", "bytes outstanding", "lib/mem.h")],
 ["simulated allocator and descriptor table after teardown"], None)

prop("P13", "Loading and instantiation are all-or-nothing under resource failure",
 "When any allocation or host call fails while a module is loaded, linked or instantiated, the operation reports failure, leaves nothing behind and does not disturb existing modules, instances or imported objects beyond what instantiation is specified to have already written. Repeating it without the failure then succeeds and yields the same module behaviour as if the failure had not happened.",
 ["inputs", "fault_sequences"], "all modules with any mix of sections, every single and repeated failing allocation index",
 "Tests never fail an allocation during load; each module has hundreds of failure points.",
 ["lib/module.c", "lib/instance.c", "lib/import_object.c", "lib/shared_memory.c", "lib/expr_parser.c", "lib/fileio.c", "lib/load_context.c", "lib/validation.c"],
 [("goto-fail unwinding", "lib/module.c, lib/instance.c")],
 [], ["return codes", "allocator state", "behaviour of the retried load"], None)

prop("P14", "Running out of memory mid-execution is reported, never corrupting",
 "When memory runs out while a program runs, the affected operation either reports its specified failure to the program (growth returning -1, an error code from a host call) or ends the execution with an out-of-memory error to the embedder. It never crashes the host, returns a wrong result, or completes an operation half-way in a way the program can observe as success; the instance can be destroyed, and calls made after memory is available again succeed.",
 ["programs", "fault_sequences"], "all programs, every allocation index of the run, single and persistent failure",
 "No test fails an allocation; the states after a failed stack, frame or table extension are never visited.",
 ["lib/exec.c", "lib/exec_insn_subr.c", "lib/vec.c", "lib/restart.c", "lib/mem.c", "libwasi/wasi_subr.c"],
 [("error propagation through the loop", "lib/exec.c")],
 [], ["return codes and results compared with a fault-free run"], None)

prop("P15", "An embedder-set memory limit is never exceeded and accounting is exact",
 "The bytes charged to a memory context always equal the sizes of its live allocations including those of its children, never exceed the limit set on it, and the recorded peak is the maximum reached; a request that would exceed a limit fails without changing anything. This holds under concurrent allocation, resizing and freeing by several threads.",
 ["schedules", "histories", "fault_sequences"], "all interleavings and sequences of allocation, extension, shrinking and release over nested contexts, host allocator failure at any point",
 "Existing tests touch limits in one thread with one context.",
 ["lib/mem.c", "lib/mem.h"],
 [("charge/uncharge of nested contexts", "lib/mem.c")],
 [("mem_context.allocated/limit/peak", "accounting", "lib/mem.h")],
 ["allocator log against context counters"], None)

prop("P16", "The single-threaded user scheduler is fair and equivalent to real threads",
 "In the configuration that multiplexes guest threads on one host thread, every runnable guest thread keeps making progress while others compute, wait, sleep or perform blocking I/O, and programs produce outcomes that are possible with real threads. Process termination and failed spawns behave as with real threads.",
 ["schedules", "programs", "fault_sequences", "configurations"], "all mixes of computing, waiting, polling and exiting guest threads under any clock speed",
 "The configuration is not part of the tested builds at all.",
 ["lib/usched.c", "lib/waitlist.c", "libwasi_threads/wasi_threads.c", "lib/exec.c"],
 [("run queue and resched requests", "lib/usched.c")],
 [("sched run queue", "runnable contexts", "lib/usched.c")],
 ["completion and results of guest threads in bounded virtual time"], HOOK)

prop("P17", "Directory listings return every entry exactly once",
 "Reading a directory to its end with any buffer sizes, resuming from the returned cookies, yields every entry exactly once with its own name, type and inode, and a listing that fills the buffer says so. Concurrent listings of the same descriptor do not disturb one another, and a listing restarted from the beginning sees the current contents.",
 ["inputs", "schedules", "fault_sequences"], "all directory contents, buffer sizes down to one byte, interleavings of two listings, host read errors",
 "Only default-size listings of small directories are exercised.",
 ["libwasi/wasi_abi_fd.c", "libwasi/wasi_host_dirent.c"],
 [("seek-then-read under the instance lock", "libwasi/wasi_abi_fd.c wasi_fd_readdir")],
 [], ["returned entries"], None)

prop("P18", "Host calls touch only the guest memory they were given",
 "For any arguments, and while other threads change or grow the memory, a host call reads and writes only the regions its arguments describe, completely inside the guest memory, or traps or fails. It never crashes or corrupts the host, never writes outside its declared outputs, and what it reports as stored is completely there.",
 ["inputs", "schedules", "fault_sequences"], "all argument values including wild pointers, lengths and counts, any concurrent modification of argument structures and any concurrent growth",
 "Tests pass valid arguments from one thread.",
 ["lib/host_instance.c", "libwasi/wasi_subr.c", "libwasi/wasi_abi_poll.c", "libwasi/wasi_abi_fd.c", "libwasi/wasi_abi_path.c", "libwasi/wasi_abi_sock.c"],
 [("bounds-checked copies", "lib/host_instance.c")],
 [], ["guest memory before and after each call", "host memory checker"], None)

prop("P19", "The command-line tool's exit status and output reflect what happened",
 "Running a program with the command-line tool exits with the program's own exit code when it exits, with success when it completes, and with failure when loading, instantiation or execution fails, traps or times out; the program's output is written completely and in order before exit. This holds for any outcome of host calls and memory allocation made by the tool.",
 ["programs", "inputs", "fault_sequences"], "all ways a program can end, all option mixes, any failing allocation or host call in the tool, slow or full output",
 "Tests check a few exit codes with no faults.",
 ["cli/main.c", "cli/repl.c", "lib/nbio.c", "lib/fileio.c"],
 [("result translation", "cli/repl.c"), ("non-blocking printing", "lib/nbio.c")],
 [], ["exit status, stdout and stderr of the simulated process"], None)

prop("P20", "Dynamic linking resolves each symbol to one object, or fails cleanly",
 "When a program is loaded with shared libraries, at start or while running, every imported function and data symbol resolves to the first definition in load order, the same for all libraries, and is undefined only as a weak reference or, for a function, until it is called. Every library has memory and table space of its own, apart from what the program uses, and is initialized exactly once, after the libraries it needs. If a library is missing, malformed or does not fit, its initialization fails or resources run out part-way, the load fails with an error, none of its symbols are used, what it acquired is given back at the latest with the program, and the program already running is unaffected.",
 ["programs", "fault_sequences"], "all small library graphs with cycles and repeated or nested loads, lazy and eager binding, position-independent programs and others, any failing allocation, open or map, any interruption",
 "Tests load fixed library sets without faults.",
 ["libdyld/dyld.c", "libdyld/dyld_plt.c", "libdyld/dyld_dlfcn.c", "lib/module.c", "cli/repl.c"],
 [("symbol resolution and PLT", "libdyld/dyld.c, libdyld/dyld_plt.c"), ("placement of libraries", "libdyld/dyld.c dyld_allocate_memory, dyld_allocate_table"), ("loading while running", "libdyld/dyld_dlfcn.c")],
 [("list of loaded objects", "load order and handles", "libdyld/dyld.h")], ["results of calls through and pointers to symbols", "memory and table of the program", "notes from initialization functions", "allocator and descriptor state after failures"], None)

prop("P21", "Saving a module writes an equivalent module completely, or says it failed",
 "When saving a loaded module to a file is reported as successful, the file holds a complete module which loads again and is equivalent: the same types, imports, functions, tables, memories, tags, globals, exports, start function, segments and code, behaving the same when run. If the host cannot create the file or store all of it, because of a full disk, an I/O error or too many open files, at whatever point, the save is reported as failed. The loaded module is unchanged and still usable either way, and no descriptor or memory is kept.",
 ["programs", "fault_sequences"], "all valid modules of the enabled feature set, any failing or short write, any disk size, any file already present under the name",
 "One test saves a few modules on a healthy disk.",
 ["lib/module_writer.c", "lib/module.c", "cli/repl.c"],
 [("section and instruction encoding", "lib/module_writer.c"), ("write errors", "lib/module_writer.c write_to_file, module_write")],
 [("buffered output", "bytes not yet on the disk when the file is closed", "lib/module_writer.c module_write")], ["the saved file", "result of saving", "the file loaded and run again"], None)

# properties which exist but which this technique cannot decide
prop("N01", "Validated modules execute each instruction as the specification says",
 "For every valid module, each numeric, reference, SIMD and control instruction computes exactly the value or trap that the WebAssembly specification defines.",
 ["programs", "inputs"], "all operand values of all instructions",
 "The specification suite is not available offline; tests run a handful of instructions.",
 ["lib/insn.c", "lib/insn_impl_base.h", "lib/insn_impl_simd.h"], [("instruction bodies", "lib/insn_impl_*.h")], [], ["results"], None)
prop("N02", "Only modules that satisfy the validation rules are accepted",
 "The loader accepts exactly the byte strings that are well-formed, valid modules for the enabled feature set, and rejects every other input with an error and without undefined behaviour.",
 ["inputs"], "all byte strings",
 "Tests include few malformed modules.",
 ["lib/module.c", "lib/validation.c", "lib/leb128.c", "lib/decode.c"], [("validator", "lib/validation.c")], [], ["load result"], None)
prop("N04", "The embedded flash filesystem keeps data across crashes",
 "Data synced to a littlefs image through the file interface survives a crash at any point and the image stays mountable.",
 ["crash_points", "histories"], "all crash points and operation histories",
 "No test crashes an image.",
 ["libwasi_littlefs/wasi_littlefs.c"], [("littlefs backend", "libwasi_littlefs")], [], ["image contents after remount"], None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
