SIM = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
CLAIMS = {
    "P01": {"technique": SIM + "; random programs run undisturbed and again with interruptions at chosen checks, results, memories, globals, tables and host calls compared",
            "note": "The undisturbed run is the reference; programs of up to 8 functions and a bounded number of steps."},
    "P02": {"technique": SIM + "; an actor raises the interrupt flag at any moment of any kind of call, the returned interruptions are checked against the requests and the execution is resumed or abandoned",
            "note": "Bounded time means 10 simulated seconds plus injected stalls; the flag is seen by the execution that was given it, not by threads it spawned."},
    "P03": {"technique": SIM + "; recorded histories checked for linearizability against a byte-array model",
            "note": "Threads, locks and condition variables are simulated; histories of up to 44 atomic operations on 16 bytes."},
    "P04": {"technique": SIM + "; recorded histories checked for conservation of wake-ups, possible values and timing",
            "note": "Clocks are simulated without steps during a wait with a timeout."},
    "P05": {"technique": SIM + "; recorded histories checked against a sequential growable memory",
            "note": "Out-of-memory is injected into the growth's own allocation."},
    "P06": {"technique": SIM + "; starts counted per spawn and compared with the reported results",
            "note": "Thread creation and allocations of the spawning call are made to fail; a new thread's own allocations are not."},
    "P07": {"technique": SIM + "; the outcome is checked against those the threads produced, and nothing may run afterwards",
            "note": "Stop time is bounded by 10 simulated seconds plus injected stalls."},
    "P08": {"technique": SIM + "; histories of table operations by several threads checked for linearizability against a table of open files",
            "note": "Up to 48 calls by 4 threads on 8 descriptors; an accept is two steps (find the listener, install the connection)."},
    "P09": {"technique": SIM + "; every byte is position-coded and followed between guest threads and simulated peers",
            "note": "The host's pipes, sockets and terminals are simulated."},
    "P10": {"technique": SIM + "; each returned event checked against the simulated clocks and descriptor states during the call",
            "note": "Bounded delay means 5 simulated seconds plus injected stalls."},
    "P11": {"technique": SIM + "; every call repeated on a second file system that follows the specification, and the trees compared",
            "note": "The host file system is simulated; times at microsecond resolution, no hard links to symbolic links."},
    "P12": {"technique": SIM + "; after every run of the other properties' scenarios the ledgers of memory, descriptors and threads are compared with their state before it",
            "note": "Memory a thread still holds while it ends on its own is waited for; plain host allocations are included."},
    "P13": {"technique": SIM + "; every step of bringing a module up is made to fail at a chosen allocation and is then repeated, or everything torn down, and what shared objects hold is compared",
            "note": "Failures of the host's allocator or a memory limit; modules of the generator's instruction set."},
    "P14": {"technique": SIM + "; random programs run undisturbed and again with failing allocations or a memory limit, compared up to the failure they were told about",
            "note": "The program's own thread only; what happens to other threads when they run out of memory is not decided."},
    "P15": {"technique": SIM + "; threads allocate, resize and release in nested limited contexts against a model with bounds for calls in progress; in running programs the charged bytes are compared with the allocator's ledger",
            "note": "Limits are changed only while no call is in progress, as the interface requires."},
    "P16": {"technique": SIM + "; threads that compute, wait, sleep and do I/O on the real user-level scheduler with bounded completion times, and the thread, descriptor, stream, poll, interrupt and process-end scenarios of the other properties on it",
            "note": "A thread that could go on has to within three rounds of turns. Terminals, which the runtime leaves blocking, are not used. That notifications never wake a waiter is a recorded finding."},
    "P17": {"technique": SIM + "; listings by several threads compared with the simulated directory",
            "note": "Contents change only between listings; positions in the simulated directory are stable, as on Linux."},
    "P18": {"technique": SIM + "; the memory compared before and after every call with arbitrary arguments, and while other threads change the arguments or grow the memory",
            "note": "Reads outside the described areas are only visible where they leave the allocation or change a result."},
    "P19": {"technique": SIM + "; the tool's own main program runs as the simulated process: programs of every ending, failing loads, calls by name and typed sessions, judged by exit status and output",
            "note": "Signals are not simulated; a reader that goes away (SIGPIPE) is not either. When a failure was injected, failure with a prefix of the output is accepted too."},
    "P20": {"technique": SIM + "; random library graphs are loaded through the real loader from a simulated file system, at start and while running, with failures, against a model of load order, resolution, initialization and placement",
            "note": "One thread; up to 7 modules; address space taken by a load that failed is not required to be reused; pointers into a library whose initialization failed half-way are not judged."},
    "P21": {"technique": SIM + "; random modules with every kind of section are saved to a simulated disk with injected I/O errors, full disks and descriptor exhaustion; a reported success is compared with the source by a describer of its own, reloaded and run against the original",
            "note": "Modules of the generators: every section and segment kind, but only the instructions they emit; custom sections are not kept by design and not compared; a file left behind by a failed save is not judged."},
}
