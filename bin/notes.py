T = "TLA+ model (TLC, exhaustive small constants) + TLC trace validation of recorded executions"
TG = "TLA+ implementation model explored by TLC; one test per transition replayed into the code, traces validated by TLC"
NOTES = {
 "C01": (TG, "Exhaustive for the model's lengths and operation pairs, bounded/random beyond; trusts TLC, the driver's logging and ASan."),
 "C02": (TG, "Every head/tail offset of every capacity up to 32 exhaustively (model), random beyond; trusts TLC, driver, ASan."),
 "C03": (TG, "Every reachable table layout of the model's key sets, all 14 variants, plus random and colliding-key histories; trusts TLC, driver, ASan."),
 "C04": (TG, "Every reachable heap of up to 9 entries over 3 keys and 7 over 4, all permutations, random 64-bit keys; trusts TLC, driver, ASan."),
 "C05": (TG, "Every transition of 2 lists x 4 entries, random larger histories with safe iteration; trusts TLC and the driver."),
 "C06": (TG, "All interleavings of few timers over a scaled wheel (model), random histories with jumps of many revolutions, re-entrant callbacks; trusts TLC and the driver."),
 "C07": (TG, "As C06, with the deadline and the poll hint enforced; timeouts up to 2^62 and clock origins up to 2^63."),
 "C08": (TG, "Every string up to 5 over 2 letters x every pattern/replacement up to 3, every trim list and range; random contents and lengths around the format buffer beyond; trusts TLC, driver, ASan."),
 "C09": (TG, "Every string up to length 5, delimiter set and stopping point of the model; random strings beyond."),
 "C10": (TG, "Every position of small buffers (model), random value sequences beyond; contents compared byte for byte in TLC."),
 "C11": (TG, "Every position of small buffers x every reader/writer at its boundary (model), hostile encoded lengths and 64-bit positions; trusts TLC, driver, ASan."),
 "C13": (TG, "Every text of up to 5 bytes over two 7-letter alphabets after each prefix (model); random texts, long lines and names, read errors, callback stops beyond."),
 "C14": (TG, "Every string of up to 5 delimiters/letters, 4 after an authority or port prefix (model); random strings with long and hostile parts and every port neighbourhood beyond."),
 "C15": (TG, "Every argument of up to 4 symbols after no, one or two dashes against 4 tables with prefix/extension/missing/empty names (model); random tables and vectors beyond; exact-size heap blocks under ASan."),
 "C16": ("TLA+ linearisation spec and step-level model (TLC, with liveness); the real code explored by a deterministic scheduler at every shared access, histories validated by TLC", "Scenarios of up to 4 threads and 6 operations, bounded preemptions and spurious wake-ups, plus seeded random schedules; sequentially consistent memory; pthread calls replaced by their specification."),
 "C17": ("TLA+ model of thread objects over failing pthread calls; the real code explored by a deterministic scheduler, histories validated by TLC", "Operation sequences of up to 5 with every failure (model), lock scenarios with up to 4 threads, bounded preemptions plus seeded random schedules; pthread calls replaced by their specification."),
 "C18": ("TLA+ linearisation spec and step-level model (TLC); single-thread histories from the model checked byte for byte, the real code explored by a deterministic scheduler, all validated by TLC", "Every sequence of 4 operations of the model and random ones with every stdio call failing; up to 3 threads under bounded and seeded random schedules, both the atomic and the mutex build; sequentially consistent memory."),
 "C19": (TG, "Every sequence of up to 5 opens, restarts, writes and failing rotations with sizes around fractions of the real 2 MiB limit (model), random longer ones; size tolerance 4096 bytes; a failing rename() is a recorded finding."),
 "C20": (TG, "Every format of up to 3 pieces with every size up to 9 (model), random formats, 64-bit extremes cut at every length beyond; number texts compared with the C library's."),
 "C21": ("TLA+ step-level model of the handlers with signals arriving at every step (TLC); real child processes with a signal delivered at every shared access and system call of the handlers, histories validated by TLC", "Every sequence of up to 4 signals of the model, one nested signal at each point of the handlers (sampled in quick); descriptors absent, good, closed, full or without reader; both builds with and without backtrace."),
 "C22": (TG, "Every flag/protection/offset/length combination of the model with each call failing, every sub-range of small maps; random sizes up to tens of pages beyond. What the kernel was asked to sync or lock is what the check sees."),
 "C23": (TG, "Every interest transition with failing and concurrent epoll_ctl (model), each followed by all readiness changes; random histories over 8 descriptors and two poll sets, also with an event array of 2; readiness comes from poll(2) just before the wait."),
 "C24": (TG, "Every operation sequence of up to 5 over a listener and two sockets per family and mode with every call failing (model, sampled in quick); random histories over 5 sockets, several addresses per name, partial/interrupted/failing transfers, names of every length; loopback network."),
 "C25": (TG, "As C24, judged on what the process holds after every call (descriptors, address lists, memory) and on double closes, plus pipes and poll sets with every call failing."),
 "C26": (TG, "Every text of up to 5 symbols and every limb pattern of the model (sampled in quick), every unit boundary, 64-bit limits and buffer length; random seeds and splits of up to a few thousand bytes."),
 "C27": (TG, "Every length class, alignment and one-bit content of a scaled-down model of both algorithms (which are affine, so this decides all contents); real runs of every class, all lengths to 40 at every alignment, random beyond, both the table and the instruction build; the big-endian path cannot run here."),
 "C28": (TG, "Every duration, up to three interruptions anywhere and a failure of the scaled model replayed over a scripted nanosleep; 64-bit durations and clock values at their limits; the real clocks and real interruptions sampled."),
 "C29": (TG, "Every sequence of up to 4 operations with every single failing call (model over 2 counters, replayed sampled over the real 11), random longer measurements; the kernel is scripted, its counters' values are data."),
 "C12": ("allocation faults injected into recorded histories; TLC validates that a refused operation changed nothing", "Faults at chosen and random requests; trusts the allocation interposer (linker --wrap) and TLC."),
}
NA = {}
