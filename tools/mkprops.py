#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source of truth)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Queue bytes arrive intact and in order under every interleaving",
 "A sink's queue hands the background thread exactly the bytes the producing thread published, each byte once and in publication order, for every capacity, record size, counter value (including counter wrap-around) and interleaving of the two threads. Space offered to the producer never overlaps bytes the background thread has not yet released, and no space offered to either side extends outside the queue's memory. Each hand-over of bytes is ordered so that the receiving thread sees the bytes' final contents.",
 ["schedules","inputs","histories"], "every pair of 64-bit counters satisfying the queue invariant, every power-of-two capacity, every request size, every value the other thread's counter may hold at each load",
 "The soak tests sample a few schedules on one x86 machine, a handful of block sizes, and counters far from wrap-around; they cannot observe a missing acquire/release on strongly ordered hardware.",
 ["include/xtr/detail/synchronized_ring_buffer.hpp"],
 [("capacity clamp and span computation","include/xtr/detail/synchronized_ring_buffer.hpp: write_span, read_span, clamp"),
  ("release/acquire publication","include/xtr/detail/synchronized_ring_buffer.hpp: reduce_writable, reduce_readable")],
 [("written counter","bytes published by the producer","synchronized_ring_buffer"),("read counter plus capacity","bytes released by the consumer, offset by capacity","synchronized_ring_buffer")],
 ["spans returned by the queue operations","bytes read from the queue"])
prop("C02", "Every accepted log statement is one well-formed record in the queue",
 "For any argument types, sizes and alignments, any free space and any queue position, an accepted log statement is published as exactly one complete record lying inside the space the queue offered, with every argument stored at a suitably aligned address. The background thread decodes from it exactly the argument values, format, level and sink that were passed, destroys each stored argument exactly once, and continues at exactly the next record.",
 ["inputs","schedules","histories"], "every queue position and amount of free space, for representative argument lists (none, scalars, over-aligned, non-trivially destructible, mixed with strings), every interleaving with the background thread",
 "Tests use a few argument lists and mostly an empty queue; a producer/consumer disagreement about record size or padding only shows for particular positions, alignments and fill levels.",
 ["include/xtr/sink.hpp","include/xtr/detail/trampolines.hpp","include/xtr/detail/align.hpp"],
 [("record layout on the producing side","include/xtr/sink.hpp: log_impl, post, post_with_str_table, copy"),
  ("record layout on the consuming side","include/xtr/detail/trampolines.hpp: trampoline0/N/S"),
  ("padding arithmetic","include/xtr/detail/align.hpp")],
 [], ["bytes published per log statement","next-record position returned by the decoder","values passed to the formatter"])
prop("C03", "String arguments are captured whole at the call or shown as <truncated>",
 "Each string argument (C string, string view or string) is copied in full into the sink's queue during the log call, without allocating memory, and appears in the output byte for byte in its own argument position. If a string cannot fit in the queue (or, for non-blocking logging, in the space currently free) the marker <truncated> appears in its place, never part of it, and the other arguments and the following statements are unaffected. Nothing is written outside the space the queue offered.",
 ["inputs","schedules"], "every string length and content, every queue position and free space, every progress of the background thread while the producer waits for space",
 "Tests use a few lengths against an idle consumer; the boundary cases (string ending exactly at the limit, space growing while waiting, several strings where one overflows) are reached only for specific lengths and schedules.",
 ["include/xtr/detail/string_table.hpp","include/xtr/sink.hpp","include/xtr/detail/trampolines.hpp"],
 [("string copy with back-pressure","include/xtr/detail/string_table.hpp: build_string_table"),
  ("string recovery","include/xtr/detail/string_table.hpp: transform_string_table_entry")],
 [], ["bytes in the queue after the call","string views passed to the formatter"])
prop("C04", "String arguments cannot inject control characters or escapes into the log",
 "Whatever bytes a string argument contains (copied, by reference via nocopy, or moved in), the text written for it consists only of printable ASCII, in which a backslash occurs only as the start of a four-character \\xHH escape. Printable characters other than backslash appear unchanged and every other byte appears as the escape of exactly its value, so distinct arguments produce distinct text. An argument is taken up to its terminator for C strings and strings passed by reference with nocopy, and in full otherwise.",
 ["inputs"], "every byte value and every string of any length, for every kind of string argument",
 "Tests log two or three sample strings; the guarantee is over all 256 byte values (with signed char) in every position and every way of passing a string.",
 ["include/xtr/detail/sanitize.hpp","include/xtr/detail/string_ref.hpp","include/xtr/detail/string_table.hpp"],
 [("per-character escaping","include/xtr/detail/sanitize.hpp: sanitize_char_to"),
  ("string formatters","include/xtr/detail/string_ref.hpp: fmt::formatter<string_ref<...>>::format"),
  ("every string argument routed through the escaping formatter","include/xtr/detail/string_table.hpp: transform_string_table_entry")],
 [], ["characters emitted by the string formatters"])
prop("C05", "Dropped messages are counted exactly; blocking logging never drops",
 "A non-blocking log statement either publishes its whole record or, when the free space is insufficient, leaves the queue's contents unchanged and adds exactly one to the sink's drop count; a blocking statement never drops and never adds to the count. Every counted drop is handed to the background thread at most once; the background thread asks for the count whenever it has drained an open sink's queue, and the number it reports in the log, as a warning naming that sink, and adds to that sink's status total is exactly the number handed over.",
 ["inputs","schedules","histories"], "every free-space amount and record size, every interleaving of drops with the background thread's collection of the count",
 "The drop tests block the consumer and count a fixed number of drops; they do not cover drops racing with collection or free space one byte short or exactly enough.",
 ["include/xtr/detail/synchronized_ring_buffer.hpp","include/xtr/sink.hpp","src/consumer.cpp"],
 [("drop decision and counter","include/xtr/detail/synchronized_ring_buffer.hpp: write_span, dropped_count"),
  ("early return without publication","include/xtr/sink.hpp: log_impl, post, post_with_str_table"),
  ("report","src/consumer.cpp: consumer::run")],
 [("drop counter","drops not yet collected","synchronized_ring_buffer")], ["drop counter","'messages dropped' line","status reply"])
prop("C06", "Each record is processed once and closed sinks are left alone",
 "On each visit to a sink the background thread decodes consecutive records starting at the oldest unread one, only within the published bytes and the queue's first copy of memory, and then releases exactly the bytes it decoded. Once a record has closed a sink the thread makes no further access to that sink and removes exactly that sink from its list. The thread ends only when no sinks remain.",
 ["histories","schedules","inputs"], "every number of sinks, every published span, every record size sequence, every position of the close record",
 "Tests observe final output of a few runs; access to a sink after its close is acknowledged, or releasing a wrong byte count for one wrap position, needs a particular schedule to show.",
 ["src/consumer.cpp"],
 [("visit loop","src/consumer.cpp: consumer::run"),("registration","src/consumer.cpp: consumer::add_sink")],
 [("sink list","sinks being served","consumer::sinks_"),("close flag","set by the close record","consumer::destroy")],
 ["bytes released per visit","accesses to the sink's memory"])
prop("C07", "sync() and close() return only after earlier messages are processed",
 "sync() on a sink returns only after the background thread has processed everything the sink logged before, then flushed its output buffer, and then called the storage's sync, in that order. close() returns only after the background thread has processed everything logged before and has marked the sink for removal; afterwards the sink is closed and its queue is empty. The acknowledgement is made while holding the waiting thread's lock and nothing of the waiting thread is used after it.",
 ["schedules","histories"], "every schedule of the caller, the background thread and spurious wake-ups",
 "Tests check that data is present after sync in a few runs; a return on spurious wake-up, or flush and sync in the wrong order, or use of the waiter after the acknowledgement, needs a rare schedule.",
 ["src/sink.cpp","src/buffer.cpp"],
 [("request/acknowledge","src/sink.cpp: sink::sync_post"),("sync request","src/sink.cpp: sink::sync"),("close request","src/sink.cpp: sink::close")],
 [], ["order of flush, storage sync and acknowledgement","state of the sink on return"])
prop("C08", "Formatted output reaches the storage back-end complete, once and in order",
 "The bytes passed to the storage back-end, in submission order, are exactly the concatenation of the formatted lines, for every line length and every sequence of buffer sizes the back-end returns, as long as the back-end reports no error. A buffer is submitted with the pointer it was allocated with and a size between one and its capacity, no buffer is allocated while another is outstanding, and a flush submits whatever is outstanding before asking the back-end to flush. A line whose formatting fails contributes nothing and does not disturb other lines.",
 ["inputs","histories","fault_sequences"], "every line length, every buffer state, every sequence of buffer capacities returned by the back-end",
 "Tests use large buffers and short lines, so lines spanning buffers, exact fits and tiny buffers are hardly sampled.",
 ["src/buffer.cpp","include/xtr/detail/buffer.hpp","include/xtr/detail/print.hpp"],
 [("copy into back-end buffers","src/buffer.cpp: append, append_line, next_buffer"),("flush","src/buffer.cpp: flush, ~buffer"),("format error handling","include/xtr/detail/print.hpp: print")],
 [("output cursor","next free byte of the outstanding buffer","buffer")], ["submit_buffer/allocate_buffer/flush calls on the back-end"])
prop("C09", "POSIX storage writes every byte exactly once despite short writes",
 "Submitting a buffer to the POSIX file back-end writes its bytes to the file descriptor in order, each exactly once, for every sequence of short writes and interrupted system calls. A write error other than an interruption is reported to the caller as a system error carrying that error number, with no bytes past the failure written.",
 ["inputs","fault_sequences"], "every buffer size and every sequence of write(2) results",
 "write(2) to a regular file practically never returns short or EINTR in the tests.",
 ["src/posix_fd_storage.cpp","include/xtr/detail/retry.hpp"],
 [("write loop","src/posix_fd_storage.cpp: submit_buffer"),("EINTR retry","include/xtr/detail/retry.hpp")],
 [], ["write(2) calls"])
prop("C10", "io_uring storage writes each buffer once, in place, and never reuses it early",
 "For every sequence of completions (full, short, EAGAIN, error, close) the io_uring back-end writes each submitted buffer's bytes at file offsets continuing exactly where the previous buffer's bytes end, resubmitting exactly the unwritten remainder after a short write or EAGAIN, and no buffer's write is started before the writes queued earlier have completed (a file opened for appending ignores offsets). A buffer is handed out again only after its last write has completed, the count of outstanding operations always equals the operations queued and not yet completed, sync() returns only when that count is zero and the file has been synced, and the back-end waits for a completion only while a submitted operation is outstanding. A construction that fails releases the ring and the descriptor.",
 ["inputs","fault_sequences","histories"], "every buffer size, every completion result, every submission/completion order allowed by the ring",
 "Tests fake one short write and one EAGAIN; combinations (short then EAGAIN, several short writes, full submission queue during reopen) are not reached.",
 ["src/io_uring_fd_storage.cpp","include/xtr/io/io_uring_fd_storage.hpp"],
 [("submission","src/io_uring_fd_storage.cpp: submit_buffer, get_sqe, flush"),("completion handling","src/io_uring_fd_storage.cpp: wait_for_one_cqe, resubmit_buffer, free_buffer"),("buffer pool","src/io_uring_fd_storage.cpp: allocate_buffers, allocate_buffer"),("sync","src/io_uring_fd_storage.cpp: sync")],
 [("pending count","queued operations without a completion","io_uring_fd_storage"),("file offset","bytes submitted so far","io_uring_fd_storage")],
 ["queued write operations (fd, address, length, offset)"])
prop("C11", "Reopening a log never loses the old file's data or the working descriptor",
 "A reopen first hands all buffered output to the back-end, then opens the configured path for appending, creating it if needed. If there is no path or opening fails the current descriptor stays in use and the error number is reported; if it succeeds, subsequent writes go to the new descriptor and the old one is closed exactly once, not before writes already queued on it.",
 ["fault_sequences","histories"], "every result of open(2) including interruption, every state of queued output, both file back-ends",
 "Tests cover one successful reopen and a null path; failure of open with a working descriptor and interrupted opens are not sampled.",
 ["src/fd_storage_base.cpp","src/io_uring_fd_storage.cpp","src/consumer.cpp","src/file_descriptor.cpp"],
 [("reopen","src/fd_storage_base.cpp: reopen, replace_fd"),("queued close","src/io_uring_fd_storage.cpp: replace_fd"),("flush before reopen","src/consumer.cpp: reopen_handler")],
 [], ["open/close calls","reply sent to the client"])
prop("C12", "Log statements are emitted exactly when their level permits",
 "A levelled log statement is emitted exactly when its level is at least as important as the sink's current level, and its arguments are evaluated only in that case; a statement without a level is always emitted. A fatal statement additionally synchronises the sink after logging and then terminates the program, whatever the sink's level. The level names, and the prefixes of both built-in styles, map to the documented values for every level and any other name is rejected.",
 ["inputs","programs"], "every sink level value, every level, every macro family (blocking/non-blocking, plain/timestamp/rtc/tsc), every string for name conversion",
 "Tests sample the macro/level grid and names.",
 ["include/xtr/log_macros.hpp","include/xtr/sink.hpp","src/log_level.cpp","include/xtr/log_level.hpp"],
 [("level test","include/xtr/log_macros.hpp: XTR_LOGL_TAGS"),("level storage","include/xtr/sink.hpp: set_level, level"),("names and styles","src/log_level.cpp")],
 [], ["calls that enqueue a message","process termination"])
prop("C13", "Any bytes on the command socket are handled safely and answered in order",
 "For every datagram received on the command socket, of any length and content, the logger either dispatches it to the handler of its message id, only when its length is exactly that message's length, or queues one error reply; it never reads past the received bytes and never lets a handler's exception escape. Replies are sent to the connection that made the request, whole and in the order produced; after the last one, or on a send error other than would-block, that connection alone is closed and its pending replies are discarded. For every command path, the socket is either bound to exactly that path and listening, or nothing is left open; only a path that was bound is removed on destruction.",
 ["inputs","histories","fault_sequences"], "every received length and content, every set of registered message ids, every sequence of send results, every number of connections",
 "Tests send three malformed frames; partial sends, would-block in the middle of several replies and several clients at once are barely sampled.",
 ["src/command_dispatcher.cpp","include/xtr/detail/commands/command_dispatcher.hpp","include/xtr/detail/commands/recv.hpp","include/xtr/detail/commands/send.hpp"],
 [("frame validation","src/command_dispatcher.cpp: process_socket_read"),("reply queue","src/command_dispatcher.cpp: process_socket_write, send, send_error, disconnect"),("poll loop","src/command_dispatcher.cpp: process_commands")],
 [], ["handler invocations","replies queued and sent","connections closed"])
prop("C14", "Commands act on exactly the sinks whose names match",
 "A set-level command with a valid level and pattern sets that level on every sink whose name matches and on no other sink, then replies success; with a level outside the defined levels or an invalid pattern it changes nothing and replies with an error. A status command replies with one entry for each matching sink and only those, carrying that sink's own name, level, capacity, used bytes and drop total. The logger's internal control sink is never affected or reported, and pattern text is always terminated before use.",
 ["inputs","histories"], "every request content (level value, pattern type, pattern bytes), every number of sinks and every matching outcome",
 "Tests use a few names and patterns; out-of-range level values and unterminated pattern text are sampled once or never.",
 ["src/consumer.cpp","src/matcher.cpp","src/regex_matcher.cpp","src/wildcard_matcher.cpp"],
 [("handlers","src/consumer.cpp: status_handler, set_level_handler"),("pattern matching","src/matcher.cpp, src/regex_matcher.cpp, src/wildcard_matcher.cpp")],
 [], ["levels of the sinks after the command","replies"])
prop("C15", "Text copied into fixed-size fields is bounded and terminated",
 "Copying text of any length into a fixed-size message or socket-address field writes only inside the field, stores the longest prefix of the text that leaves room for a terminator, and always terminates it. A socket path too long for the address is rejected rather than shortened, both when serving and when connecting, and any other path is used exactly.",
 ["inputs"], "every source length and content, every field size used",
 "Tests use short names; lengths equal to, one below and above the field size matter.",
 ["include/xtr/detail/strzcpy.hpp","src/command_dispatcher.cpp","include/xtr/detail/commands/connect.hpp"],
 [("bounded copy","include/xtr/detail/strzcpy.hpp"),("path length checks","src/command_dispatcher.cpp: constructor; include/xtr/detail/commands/connect.hpp: command_connect")],
 [], ["bytes of the destination field and around it"])
prop("C16", "Queue memory is two adjacent views of the same pages, with no leak on failure",
 "A mirrored mapping of a page-multiple length consists of two adjacent shared views of that length onto the same memory, so that byte i and byte i+length are the same byte; any other length is rejected. If any step of the construction fails, an error is raised and nothing stays mapped; destroying or overwriting a mapping unmaps both views exactly, and moving or swapping transfers ownership without unmapping.",
 ["inputs","fault_sequences","histories"], "every length, descriptor, offset and flag combination allowed, every failing system call",
 "Tests map one size and never fail mmap/mremap midway.",
 ["src/mirrored_memory_mapping.cpp","src/memory_mapping.cpp","include/xtr/detail/memory_mapping.hpp","include/xtr/detail/mirrored_memory_mapping.hpp","src/pagesize.cpp"],
 [("construction","src/mirrored_memory_mapping.cpp: constructor"),("destruction","src/mirrored_memory_mapping.cpp: destructor; src/memory_mapping.cpp: reset"),("page rounding","src/pagesize.cpp, include/xtr/detail/align.hpp")],
 [], ["mmap/mremap/munmap calls"])
prop("C17", "Every file descriptor is closed exactly once by its owner",
 "A descriptor wrapper closes the descriptor it owns exactly once, when destroyed or given another one, and never closes one it has released, moved out or never owned; move construction, move assignment, swap, release and reset transfer ownership accordingly. Opening by path retries interrupted calls and raises an error carrying the error number on failure. The file back-ends work on their own duplicate of the caller's descriptor and never close the caller's.",
 ["inputs","histories","fault_sequences"], "every descriptor value, every sequence of wrapper operations (by composing per-operation contracts), every open/dup result",
 "Tests exercise one sequence per operation.",
 ["src/file_descriptor.cpp","include/xtr/detail/file_descriptor.hpp","src/fd_storage_base.cpp"],
 [("ownership operations","include/xtr/detail/file_descriptor.hpp, src/file_descriptor.cpp"),("descriptor duplication","src/fd_storage_base.cpp: constructor")],
 [], ["close/open/dup calls"])
prop("C18", "All logger functions may be called from any thread",
 "Every message that a logger function places on the logger's internal control queue is placed while holding the logger's lock, and the lock is released again on every path, so that concurrent calls of logger functions from any threads never corrupt the control queue; the default level is read and set without a data race. Each call enqueues exactly the requested change, and functions that wait return only after the background thread has applied it.",
 ["schedules"], "every schedule of concurrent logger calls",
 "Tests call logger functions from one thread.",
 ["include/xtr/logger.hpp","src/logger.cpp"],
 [("control lock","include/xtr/logger.hpp: logger::post"),("callers","src/logger.cpp: register_sink, set_command_path, set_log_level_style")],
 [], ["lock state at each control-queue write"])
prop("C19", "Timestamps are well-formed and denote the clock's reading",
 "For every reading of the configured clock, before or after the epoch, the timestamp used denotes exactly that instant at nanosecond resolution with a nanosecond part between 0 and 999,999,999. A timestamp taken from the CPU counter always has a nanosecond part in that range, the first conversion of each thread is anchored to the wall clock, and determining the counter frequency never faults and yields crystal clock times ratio as the processor enumerates them, or zero. Messages without a timestamp of their own carry the clock's reading of the background thread's current pass over the sinks. A timestamp is printed as the UTC date and time of its seconds followed by its microseconds in six digits.",
 ["inputs"], "every clock reading representable, every counter value and frequency, every CPUID answer",
 "Tests use a few fixed dates and the host CPU.",
 ["include/xtr/logger.hpp","src/tsc.cpp"],
 [("clock conversion","include/xtr/logger.hpp: make_clock"),("counter conversion","src/tsc.cpp: to_timespec, read_tsc_hz")],
 [], ["timespec produced"])
prop("C20", "Copying, assigning and re-registering sinks preserves level and membership",
 "Assigning to a sink first closes it, then gives it the source's level and, exactly when the source is open, registers it with the source's logger under the source's name; self-assignment changes nothing. A sink obtained from or registered with a logger is open and carries the requested name, and (when obtained) the logger's default level; closing a closed sink does nothing, and a closed sink has an empty queue ready for re-registration.",
 ["histories","inputs"], "every combination of open/closed source and target and every level",
 "Tests cover a handful of copy/assign sequences.",
 ["src/sink.cpp","src/logger.cpp"],
 [("copy and assignment","src/sink.cpp: copy constructor, operator="),("registration","src/logger.cpp: register_sink, get_sink"),("close","src/sink.cpp: close")],
 [], ["open state, level, registration requests"])
prop("C21", "Processed output is flushed when the sinks go idle, and sinks are served in turn",
 "After the background thread has processed a message, reported drops or removed a closed sink, it flushes its output buffer no later than when it has found every remaining sink empty once, even if nothing further is logged; so no processed message stays unwritten while all sinks are idle. While no sink is added or removed it visits the sinks in turn and does not serve one twice before every other has had its turn, and it ends only with everything flushed or handed to the buffer's destructor.",
 ["schedules","histories"], "every number of sinks, every sequence of arrivals, closings and registrations",
 "Tests log and then call sync(); an idle flush that comes one visit too late or never, or a sink starved by another, is not observed.",
 ["src/consumer.cpp"], [("idle flush countdown and visiting order","src/consumer.cpp: consumer::run")],
 [("idle countdown","visits left before the flush","consumer::run")], ["flush calls on the output buffer","order of sinks visited"])
prop("C22", "Containers, pairs and tuples are formatted element by element",
 "Formatting a container with the provided formatters yields its elements' own formatting, each once and in order, separated by \", \" and enclosed in [ and ]; a map's entries appear as key: value enclosed in { and }, and a pair's or tuple's members are enclosed in ( and ). An empty container yields just the enclosing characters. Everything goes to the output position of the message being formatted.",
 ["inputs","programs"], "every number of elements and every element value, for representative container, element and tuple types",
 "Tests format a few small containers.",
 ["include/xtr/formatters.hpp"], [("formatters","include/xtr/formatters.hpp")])
prop("C23", "Every default command path is fresh, in a writable directory",
 "Each call of default_command_path(), from any thread, returns <directory>/xtrctl.<pid>.<N>, where N starts at 0 and increases by one with each call in the process, so that no two calls return the same path. The directory is $XDG_RUNTIME_DIR (or /run/user/<uid> if unset) when it is writable and otherwise $TMPDIR (or /tmp if unset). This holds whenever the result fits a socket address, and nothing is ever written outside the buffers used.",
 ["inputs","schedules"], "every environment, user and process id and every interleaving of calls",
 "Tests do not call it concurrently and see one environment.",
 ["src/command_path.cpp"], [("path construction","src/command_path.cpp: default_command_path, get_rundir, get_tmpdir")],
 [("path counter","calls so far","default_command_path")], ["the path returned"])
prop("C24", "xtrctl sends exactly the command given and reports its outcome truthfully",
 "For every command line the client either sends exactly one request, which carries the command, level, pattern type (basic regular expression unless another was asked for, none without a pattern) and pattern (cut to fit its field) given, to exactly the socket path given, or it sends nothing and exits with failure (success only after printing help). It exits with success only if the request was sent and the server ended the connection after well-formed replies none of which is an error, with every status entry received shown once and every success reported; a failed connection, send or receive, an error reply (whose reason is shown) or a malformed reply makes it exit with failure.",
 ["inputs","histories"], "every command line and every sequence of replies and socket errors",
 "The client is not covered by the unit tests.",
 ["src/xtrctl.cpp","include/xtr/detail/commands/send.hpp","include/xtr/detail/commands/recv.hpp"], [("argument processing","src/xtrctl.cpp: main"),("reply processing","src/xtrctl.cpp: main, frame_cast")],
 [], ["request sent","output and exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
