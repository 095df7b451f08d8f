#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here as data)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "A dynamic array is exactly the sequence its operation history defines",
 "After any sequence of append, indexed delete, unordered delete, delete-last, clear, sort and re-initialisation, size, indexed access, last element and iteration of a dynamic array all agree with the abstract sequence those operations define: append goes to the end, delete keeps the order of the rest, unordered delete puts the last element into the hole, sort yields an ordered permutation. Growing the array never loses, duplicates or reorders an element, for any element type.",
 ["histories", "inputs"], "for every finite sequence of operations with valid indices, for every element type offered",
 "Tests walk a few fixed sequences; deletion positions, growth boundaries and their combinations are unbounded.",
 ["array/sc_array.h"], [("append and growth", "sc_array_add"), ("deletion", "sc_array_del, sc_array_del_unordered, sc_array_del_last"), ("iteration", "sc_array_foreach")])
prop("C02", "A queue is exactly the double-ended sequence its history defines",
 "After any sequence of additions and removals at either end, clear, and re-initialisation, the queue's size, emptiness, indexed access, peeks at both ends, values returned by removals and iteration agree with the abstract double-ended sequence. Wrap-around and growth at any internal offset never lose, duplicate or reorder an element.",
 ["histories", "inputs"], "for every finite sequence of deque operations (removals and peeks only on non-empty queues), every internal offset at which growth can happen",
 "Correctness depends on the internal head/tail offset at the moment of growth, which fixed test sequences barely vary.",
 ["queue/sc_queue.h"], [("growth with unrolling of the ring", "sc_queue_expand"), ("ring arithmetic", "sc_queue_add_first, sc_queue_add_last, sc_queue_del_first, sc_queue_del_last")])
prop("C03", "A hash map is exactly the finite function its history defines",
 "For every map variant, put, get and delete return the value previously associated with the key and report 'found' exactly when the key was present; size is the number of present keys; iteration yields every present key with its value exactly once and nothing else. This holds for every key including zero and NULL, for colliding hashes, for every accepted initial capacity and load factor, and across growth, deletion and clear.",
 ["histories", "inputs", "configurations"], "for every finite sequence of put/get/del/clear/size/iterate on every one of the 14 variants, every set of keys (including any hash collision pattern), every accepted load factor and capacity",
 "Open addressing with backward-shift deletion goes wrong only for particular clusters that wrap around the table end; tests use mostly random or sequential keys.",
 ["map/sc_map.c", "map/sc_map.h"], [("probing", "sc_map_get_##name, sc_map_put_##name"), ("backward-shift deletion", "sc_map_del_##name"), ("growth", "sc_map_remap_##name"), ("zero-key slot", "mem[-1]/used")])
prop("C04", "A heap always hands out a minimum element and never loses one",
 "For every sequence of add, peek, pop and clear, pop and peek return an element whose key is minimal among the elements present, together with the data pointer it was added with; pop removes exactly that element and peek removes nothing; an empty heap returns NULL. Size is the number of elements present, so that draining the heap yields exactly the multiset added, in non-decreasing key order, for all 64-bit signed keys and any initial capacity.",
 ["histories", "inputs"], "for every finite sequence of operations, every 64-bit key (duplicates and extreme values included), every initial capacity",
 "The number of heap shapes and key permutations is exponential; tests try a few fixed arrays.",
 ["heap/sc_heap.c", "heap/sc_heap.h"], [("sift up", "sc_heap_add"), ("sift down", "sc_heap_pop")])
prop("C05", "Intrusive lists hold exactly the entries linked, in order, each at most once",
 "For any sequence of operations on any set of lists and entries, each list enumerates forwards and backwards exactly the entries added to it and not removed since, in the order the operations define; adding an entry that is already linked somewhere moves it, and deleting an entry that is in no list changes nothing. Head, tail, emptiness, count, pops and the safe iterators (including removal of the current entry during iteration) agree with that sequence.",
 ["histories"], "for every finite history of init, clear, add head/tail/before/after, delete, pop and iterate over several lists sharing entries",
 "Pointer-surgery mistakes appear only for particular neighbour configurations (single element, moving between lists, deleting while iterating).",
 ["linked-list/sc_list.c", "linked-list/sc_list.h"], [("link/unlink", "sc_list_add_*, sc_list_del, sc_list_unlink"), ("iterators", "sc_list_foreach*, sc_list_foreach_safe*")])
prop("C06", "A timer fires at most once, never early, and never after it was cancelled",
 "Every expiry callback happens for a timer that was added and is still pending, with the data and type given when it was added, and not before its timeout has elapsed on the clock passed to poll. No timer fires twice, none fires after it was cancelled or the timer set was cleared, and cancelling one timer never affects another, including when callbacks add and cancel timers during the poll that is running.",
 ["histories", "inputs", "schedules"], "for every history of add, cancel, clear and poll with any monotone sequence of clock values, including re-entrant calls from callbacks",
 "The outcome depends on how timeouts, wheel position and poll times line up modulo the wheel size, and on growth while ids are outstanding.",
 ["timer/sc_timer.c", "timer/sc_timer.h"], [("wheel placement", "sc_timer_add"), ("expiry", "sc_timer_timeout"), ("id encoding", "sc_timer_cancel"), ("growth", "expand")])
prop("C07", "Every pending timer fires on time and poll's hint never oversleeps the tick",
 "A timer that is neither cancelled nor cleared fires no later than the poll whose clock is past its timeout by the timer's tick resolution (one wheel slot), however irregular the polls are and however many timers share its slot. The number of milliseconds poll returns is the time until the next tick boundary of that clock, so that a caller sleeping that long before polling again misses nothing.",
 ["histories", "inputs"], "for every history of add, cancel, clear and poll with any monotone clock, including clock jumps of many wheel revolutions and growth in between",
 "Lateness shows only for timeouts that cross wheel revolutions or for uneven poll intervals; tests use a few fixed rhythms.",
 ["timer/sc_timer.c", "timer/sc_timer.h"], [("advancing the wheel", "sc_timer_timeout"), ("growth keeps placement", "expand")])
prop("C08", "String operations compute the value they document and nothing else",
 "For every byte content without NUL, creating, duplicating, formatting, appending, setting, replacing, trimming, taking substrings, comparing and measuring strings yields exactly the documented value, the recorded length always equals the actual length, and the result stays NUL-terminated. An operation that fails or is refused leaves the caller's string as it was, and a successful one never modifies another string. (An argument that aliases the string being changed is outside the interface.)",
 ["histories", "inputs"], "for every sequence of operations, every content, pattern, replacement, character list and substring range, including overlapping, empty and NULL arguments",
 "Replace and trim have position-dependent cases (overlapping patterns, growth, everything trimmed) that examples do not exhaust.",
 ["string/sc_str.c", "string/sc_str.h"], [("replace", "sc_str_replace"), ("trim", "sc_str_trim"), ("format/append", "sc_str_create_va, sc_str_append_fmt"), ("substring", "sc_str_substring")])
prop("C09", "Tokenising a string yields every token and restores the string",
 "Iterating the tokens of a string with a delimiter set yields exactly the maximal runs between delimiter characters, in order, empty ones included. When the iteration runs to its end or is ended early, the string is byte for byte what it was before.",
 ["histories", "inputs"], "for every string, every delimiter set, and every point at which the iteration is abandoned",
 "The iterator writes into the string in place, so restoration must hold at every stopping point, for every layout of delimiters.",
 ["string/sc_str.c", "string/sc_str.h"], [("in-place tokenizer", "sc_str_token_begin, sc_str_token_end")])
prop("C10", "A buffer hands back exactly what was put, in order, in little-endian layout",
 "For every sequence of typed puts and matching gets, each get returns the value put, in FIFO order, and the bytes stored are the documented little-endian, length-prefixed layout, so that another reader of that layout sees the same values. Peeks, absolute get/set, positions, sizes, compaction, moves between buffers, growth and shrinking are consistent with one abstract byte sequence with a read and a write position.",
 ["histories", "inputs"], "for every sequence of buffer operations with every value, string and blob content, on owned and on caller-supplied memory",
 "The interaction of read/write positions with growth, compaction, moves and text puts is unbounded; tests check isolated round trips.",
 ["buffer/sc_buf.c", "buffer/sc_buf.h"], [("typed put/get", "sc_buf_put_*, sc_buf_get_*"), ("compaction and moves", "sc_buf_compact, sc_buf_move, sc_buf_copy"), ("growth", "sc_buf_reserve")])
prop("C11", "A buffer never reads or writes outside its content or its limit",
 "A read past the written content, a write beyond a fixed-size or limited buffer, and any length field or position that does not fit are refused: the buffer becomes invalid with the documented error flag, no memory outside it is touched, and the stored content is unchanged. Once invalid, a buffer stays invalid until cleared, and a truncated, oversized or corrupt encoded message is reported, never read past its end.",
 ["histories", "inputs"], "for every operation sequence, every position and length argument including values near the integer limits, and every malformed encoded input",
 "The interesting arguments are boundary and wrap-around values combined with buffer states; tests cover a handful.",
 ["buffer/sc_buf.c"], [("bounds checks", "sc_buf_peek_*, sc_buf_get_*, sc_buf_set_*"), ("limit and reference mode", "sc_buf_reserve, sc_buf_wrap"), ("error flag", "sc_buf_valid")])
prop("C12", "An operation that runs out of memory reports it and changes nothing",
 "Whenever an allocation fails inside an operation of the containers, strings, buffers, timers or URI parser, that operation reports failure through its documented channel, the object keeps exactly its previous abstract value, and later operations succeed as soon as memory is available again. When everything is finally destroyed, every block the library allocated has been freed exactly once.",
 ["fault_sequences", "histories"], "for every operation history and every choice of which allocation requests fail",
 "Tests fail one allocation at a couple of places; the failing request can be any of them, in any state.",
 ["array/sc_array.h", "queue/sc_queue.h", "map/sc_map.c", "heap/sc_heap.c", "timer/sc_timer.c", "buffer/sc_buf.c", "string/sc_str.c", "uri/sc_uri.c"],
 [("failure paths", "sc_heap_add, sc_queue_expand, sc_map_remap_##name, expand (timer), sc_buf_reserve, sc_str_*"), ("release", "*_term, sc_str_destroy, sc_uri_destroy")])
prop("C13", "INI parsing reports exactly the items the grammar defines, from file or string",
 "Parsing any INI text invokes the callback exactly once per item, in order, with the section, key, value and line number that the documented grammar assigns (comments, ':' and '=' separators, continuation lines, byte-order mark, blank lines), and returns zero on success, the number of the first malformed line, or -1 when the source cannot be read; when the callback returns non-zero the parse stops at that item and reports its line. Parsing a file gives the same result as parsing a string with the same content, and lines longer than the documented limit are reported, without touching memory out of bounds.",
 ["inputs"], "for every input text, including arbitrary bytes, arbitrary line lengths and every callback return",
 "The grammar's features interact line by line; tests give a dozen texts.",
 ["ini/sc_ini.c", "ini/sc_ini.h"], [("line grammar", "parse_line / sc_ini_parse"), ("line sources", "file_line, string_line")])
prop("C14", "A URI is accepted and split exactly as its generic syntax says",
 "For every string, parsing either fails or yields scheme, userinfo, host, port, path, query and fragment such that each component is the part of the input that the generic URI syntax assigns to it and recomposing the components gives back the input. A missing scheme, an unterminated IP literal and a port that is not a number in range are rejected; text that follows the generic syntax is accepted. (The character repertoire of each component is not validated, and an empty port after the colon may go either way.)",
 ["inputs"], "for every input string",
 "Delimiters may appear inside later components ('@', ':' and '?' in path, query or fragment), which a list of examples cannot exhaust.",
 ["uri/sc_uri.c", "uri/sc_uri.h"], [("splitting", "sc_uri_create")])
prop("C15", "Command-line parsing maps each argument to its declared option and value",
 "For every option table and argument vector, each argument is reported as the option it names, by its single letter after one dash or by the full long name after two and never by a prefix or an extension of one, with the text after the first '=' as its value, the empty string when there is no '='. An argument that names no option of the table is reported as '?' and without a value; no table entry without a long name (or without a letter) is matched by one. Looking at an argument changes nothing and reads nothing outside it and the table.",
 ["inputs", "configurations"], "for every option table and every argument vector",
 "Matching rules interact (prefix names, '=' in values, missing values at the end of the vector); tests use one table.",
 ["option/sc_option.c", "option/sc_option.h"], [("matching", "sc_option_at, sc_option_value, is_equal / is_sep")])
prop("C16", "A condition hands each signal to a waiter and never loses or invents one",
 "A wait returns only after a signal that no other wait has consumed, immediately if one is already pending, and returns the data of the most recent such signal; a signal that comes while one is still pending replaces it, and one that has been delivered is consumed. No signal is lost and none is invented under any interleaving of threads and any spurious wake-ups, so that a waiter is never left sleeping while a signal is pending.",
 ["schedules", "histories"], "for every interleaving of any number of signalling and waiting threads, including spurious wake-ups",
 "The outcome depends on the scheduler; a test observes a few schedules.",
 ["condition/sc_cond.c", "condition/sc_cond.h"], [("handoff under lock", "sc_cond_signal, sc_cond_wait, sc_cond_finish")])
prop("C17", "Mutexes exclude, threads run once, and join returns the thread's result",
 "At most one thread is between lock and unlock of a mutex at any time, and a thread that waits for it proceeds once it is released. A started thread runs its function exactly once with its argument, join returns after it finished and yields what it returned, stopping or terminating an object twice is harmless, and every failure of the underlying call is reported by a negative or non-zero result with an error text, never by a hang or a fake success.",
 ["schedules", "fault_sequences"], "for every interleaving of threads and every failing underlying call",
 "Interleavings and failing calls at each step are not sampled by the tests.",
 ["mutex/sc_mutex.c", "thread/sc_thread.c"], [("locking", "sc_mutex_init, sc_mutex_lock, sc_mutex_unlock"), ("start/join", "sc_thread_start, sc_thread_join, sc_thread_term")])
prop("C18", "Each log message reaches exactly the enabled sinks, whole, once, in order",
 "A message at or above the current level is delivered exactly once to every sink enabled at that time (standard output, file, callback) and one below it to none; the header carries the level and the thread's name, the text is the formatted message, and an unknown level name is rejected without effect. Lines written by concurrent threads are never interleaved, lost or duplicated, and each thread's lines keep their order in every sink.",
 ["histories", "schedules", "inputs"], "for every sequence of configuration changes and messages from any number of threads under any schedule",
 "The tests log from one thread with a few fixed configurations and do not compare the sinks' whole contents.",
 ["logger/sc_log.c", "logger/sc_log.h"], [("filter and dispatch", "sc_log_log"), ("configuration", "sc_log_set_level, sc_log_set_stdout, sc_log_set_file, sc_log_set_callback"), ("thread name", "sc_log_set_thread_name")])
prop("C19", "Log rotation bounds the file and never loses the latest lines",
 "Rotation keeps the current file at about the configured size and moves the full one, whole, to the previous-file name, so that (as long as that rename succeeds) previous followed by current is always a contiguous suffix of the lines logged, ending with the last one. Re-opening or switching the log file continues it and never truncates lines already written.",
 ["histories", "inputs"], "for every sequence of message sizes, file switches and restarts",
 "Rotation triggers only after megabytes, with a counter kept across reopen; tests trigger it once.",
 ["logger/sc_log.c"], [("size accounting and rename", "sc_log_file_append / sc_log_file rotation"), ("reopen", "sc_log_set_file")])
prop("C20", "Signal-safe formatting never overruns and renders each directive exactly",
 "For every buffer size and every combination of supported directives and values, the signal-safe formatter writes at most the given number of bytes including the terminator, and renders exactly the text that the C library would produce for the same supported directives (a NULL pointer is shown as 0x0); text that does not fit is cut at the buffer's end, terminated, and the number of characters placed is returned. Extreme integers, NULL strings and unsupported directives (reported as -1) are handled without touching memory out of bounds.",
 ["inputs"], "for every size, format string and argument values",
 "Truncation can occur at every position of every directive; tests check a few strings.",
 ["signal/sc_signal.c"], [("formatter", "sc_signal_vsnprintf, sc_signal_snprintf")])
prop("C21", "Shutdown and fatal signals follow the documented protocol",
 "The first termination signal makes the shutdown descriptor readable exactly by writing to it and lets the program run on; without a descriptor the process exits with status 0, and a second signal, or a write that fails, forces an exit with status 1. A fatal signal logs its report and then ends the process by that same signal; ignored signals have no effect, and the handlers preserve errno for the interrupted code.",
 ["schedules", "histories"], "for every sequence of signals delivered at any point of the program",
 "Handlers run at arbitrary points and in sequences; tests raise single signals.",
 ["signal/sc_signal.c", "signal/sc_signal.h"], [("handlers", "sc_signal_on_shutdown, sc_signal_on_fatal"), ("installation", "sc_signal_init")])
prop("C22", "A memory map reflects the file, syncs whole ranges and fails cleanly",
 "A successful map exposes exactly the requested file range, extends a shorter file when mapped writable, and stores made through a shared writable map are in the file after a sync of any sub-range that contains them; syncing and locking a sub-range covers every page it touches and none outside the map. Every failing step is reported with an error text and leaves no descriptor or mapping behind, an interrupted allocation of the file is retried, and termination releases both exactly once.",
 ["inputs", "fault_sequences"], "for every file length, offset, length, protection and sub-range, and every failing system call",
 "Sub-range alignment and the failing call can be anything; tests map one file a few ways.",
 ["memory-map/sc_mmap.c", "memory-map/sc_mmap.h"], [("mapping", "sc_mmap_init"), ("sync", "sc_mmap_msync"), ("release", "sc_mmap_term")])
prop("C23", "A poll reports exactly the ready, registered interest, with its data",
 "For every sequence of add, delete and wait on a poll set, an event is reported only for a descriptor currently registered, only for interest it is registered with (or for error/hang-up, which count as readable and writable), with the data given by the last add or delete that changed its interest; and a level-triggered readiness that persists is reported by every wait (when more descriptors are ready than the event array holds, each in its turn). Registered interest after any sequence, including failing kernel calls, is exactly the union of successful adds minus deletes.",
 ["histories", "schedules", "fault_sequences"], "for every history of add/del/wait over any number of descriptors, every readiness pattern and every failing kernel call",
 "Interest masks are updated incrementally, so wrong states need particular add/del sequences or a failing call in between.",
 ["socket/sc_sock.c", "socket/sc_sock.h"], [("interest bookkeeping", "sc_sock_poll_add, sc_sock_poll_del"), ("event translation", "sc_sock_poll_event, sc_sock_poll_wait")])
prop("C24", "A socket stream delivers exactly the bytes sent, with faithful results",
 "Between two connected sockets of any supported family, the bytes received are always a prefix of the bytes whose sending was reported as done, in order; end of stream, would-block and errors are reported as such and never as data, interrupted calls are retried transparently. Blocking mode, timeouts, options and addresses set or printed through the interface are the ones the kernel actually uses, names that do not fit are refused, and a service notification is sent whole to the address the environment names.",
 ["histories", "schedules", "fault_sequences", "configurations"], "for every sequence of send/recv sizes, every family and blocking mode, and every partial, interrupted or failing kernel call",
 "Partial transfers, EINTR and EAGAIN occur at kernel whim; tests see the lucky path.",
 ["socket/sc_sock.c", "socket/sc_sock.h"], [("transfer", "sc_sock_send, sc_sock_recv"), ("setup", "sc_sock_listen, sc_sock_accept, sc_sock_connect, sc_sock_set_*"), ("addresses", "sc_sock_local_str, sc_sock_remote_str, sc_sock_print")])
prop("C25", "Socket, pipe and poll failures never leak or double-close a descriptor",
 "Whichever system call fails during listen, accept, connect, poll or pipe set-up and use, the operation reports failure with an error text and every descriptor it opened is closed exactly once, either by the failing call or by the object's term. Term is safe after any failed initialisation and releases everything.",
 ["fault_sequences", "histories"], "for every operation and every choice of the failing system call",
 "Tests fail each wrapped call once and do not count descriptors.",
 ["socket/sc_sock.c"], [("error paths", "sc_sock_listen, sc_sock_connect, sc_sock_accept, sc_sock_pipe_init, sc_sock_poll_init"), ("release", "sc_sock_term, sc_sock_pipe_term, sc_sock_poll_term")])
prop("C26", "Pseudo-random bytes, power-of-two and size conversions obey their definitions",
 "The random generator's output is a function of its seed alone and equals the RC4 stream (as in SQLite) whose state and key are that seed, however the reads are split; power-of-two rounding gives the least power of two not below its argument (up to 2^63). Converting a byte count to text gives the count in the largest unit that keeps the number at least 1 (a number that would print as 1024.00 moves up a unit, one just below it may) with two decimals, or NULL when the buffer is too small, and converting text (a non-negative number, an optional blank, an optional unit letter with an optional 'b', in either case) to a byte count is exact; malformed or out-of-range text gives -1.",
 ["inputs", "histories"], "for every seed, every split of reads, every integer and every string",
 "Boundary values (unit borders, 64-bit limits, read splits) are not enumerable by examples.",
 ["sc/sc.c", "sc/sc.h"], [("keystream", "sc_rand_init, sc_rand_read"), ("rounding", "sc_to_pow2"), ("conversions", "sc_bytes_to_size, sc_size_to_bytes")])
prop("C27", "CRC32C equals its definition for any data, alignment, split and CPU path",
 "The checksum of any byte string with any initial value equals the CRC-32C defined by the reflected Castagnoli polynomial, whatever the alignment and length of the data. Computing it in pieces by passing each result on gives the checksum of the whole, and the table-driven and the hardware path agree.",
 ["inputs", "configurations"], "for every content, alignment, split and available CPU path",
 "The word-at-a-time paths have alignment heads and tails and large-block cases that depend on length classes.",
 ["crc32/sc_crc32.c"], [("software and hardware paths", "crc32c_sw, crc32c_hw, sc_crc32")])
prop("C28", "Clocks do not go backwards and sleeping lasts at least the time asked",
 "The monotonic clock functions return the system's monotonic clock and the wall-clock functions its real-time clock, in the named unit, for every value of the clock; so monotonic readings never decrease and agree with each other in unit. A sleep asks the system for exactly the time requested and, however often it is interrupted, for exactly what remained each time, so that it lasts at least the requested time, and it reports failure when the system call fails for another reason.",
 ["schedules", "fault_sequences", "inputs"], "for every duration and every sequence of interruptions and results of the underlying calls",
 "Interruptions never happen in the tests.",
 ["time/sc_time.c", "time/sc_time.h"], [("clocks", "sc_time_ms, sc_time_ns, sc_time_mono_ms, sc_time_mono_ns"), ("sleep", "sc_time_sleep")])
prop("C29", "Performance counters measure exactly the started intervals",
 "Between start and pause or end, and across any number of pauses, the counters are enabled exactly while measurement runs; every counter is opened once per measurement, disabled and for the calling process (its user and kernel work, and the threads it starts), read once at the end and then closed, and the report shows each counter's name with its value scaled by the share of time it was active, and the time that passed while measurement ran. When the kernel refuses to open, enable, disable or read a counter, or pause or end is called with no measurement, the process says so on standard error and stops instead of reporting numbers.",
 ["histories", "fault_sequences"], "for every sequence of start, pause and end and every failing system call",
 "The kernel interface is not available in test environments, so the existing tests do not run it at all.",
 ["perf/sc_perf.c", "perf/sc_perf.h"], [("counter life cycle", "sc_perf_start, sc_perf_pause, sc_perf_end")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
