#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

# ---------------------------------------------------------------- mailboxes
p("M01", "Fixed-size mailbox delivers each accepted message once, whole, in order",
  "Whatever the interleaving of pushes and reads from any number of threads, the messages returned by successful reads of a fixed-size mailbox are exactly the successfully pushed ones, each delivered once, byte for byte, in an order in which the pushes could have taken effect. A push that reported an error, including one interrupted or refused because the mailbox was full, leaves no trace in the mailbox.",
  ["schedules", "inputs", "histories"],
  "every interleaving of push/push_block/peek calls of several producers and consumers, every message size from 1 to PIPE_BUF-1, every message content, signals arriving inside any call",
  "The tests push and read from one thread, with one message size at a time; no interleaving, interrupted call, or producer race is sampled (and the mailbox tests are not in the stable set).",
  ["src/mbox.c", "include/futils/mbox.h"],
  [("atomic pipe write of < PIPE_BUF bytes", "src/mbox.c mbox_push"), ("EINTR retry", "src/mbox.c mbox_push, mbox_peek")],
  ["mbox_push", "mbox_push_block", "mbox_peek return values and message bytes"],
  [("pipe", "queue of whole messages", "src/mbox.c struct mbox.fds")])
p("M02", "Fixed-size mailbox flow control: full, empty, blocking push, readiness",
  "Non-blocking push and read of a fixed-size mailbox never wait: a full mailbox answers -EAGAIN, an empty one answers -EAGAIN and always accepts a message, and the read descriptor is readable exactly when a message is queued. A blocking push returns 0 once PIPE_BUF bytes of room are available to it and -ETIMEDOUT only when its whole timeout has elapsed, not noticeably later (0 meaning never), however many producers compete for the room and however often signals interrupt the wait. Message sizes of 0 or at least PIPE_BUF, NULL arguments and timeouts beyond INT_MAX are refused without side effect.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of competing blocking producers with a consumer, every timeout value, every sequence of signal interruptions, every message size",
  "Tests use one blocking producer and one timeout with no interruption, so neither lost races for free room nor restarted timeouts are reached.",
  ["src/mbox.c", "include/futils/mbox.h"],
  [("O_NONBLOCK pipe ends", "src/mbox.c mbox_new"), ("poll + push", "src/mbox.c mbox_push_block")],
  ["mbox_* return values", "poll() on mbox_get_read_fd()", "virtual clock"])
p("D01", "Variable-size mailbox delivers each accepted message once, intact, in order",
  "For one producer thread and one consumer thread under any interleaving, the messages read from a variable-size mailbox are exactly those successfully pushed, each once, in push order, with their exact length and bytes, wherever their storage wraps and whatever their sizes (0 up to the maximum). A push that reports an error changes nothing.",
  ["schedules", "inputs", "histories"],
  "every interleaving of push/push_block with peek, every sequence of message sizes 0..max (so every position of the wrap-around), every content",
  "Tests use a handful of sizes and one schedule; the ring offset at which a header or payload wraps is one of 65,540 and most are never reached.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"],
  [("mutex around ring updates", "src/dynmbox.c dynmbox_push, dynmbox_push_block, dynmbox_peek"), ("two-chunk ring copy", "src/dynmbox.c rbuf_write, rbuf_read")],
  ["dynmbox_push/_push_block/_peek return values and bytes"],
  [("ring", "queued headers and payloads", "src/dynmbox.c struct dynmbox")])
p("D02", "Variable-size mailbox: read descriptor readable exactly when a message waits",
  "Whenever no call on a variable-size mailbox is in progress, its read descriptor polls readable if and only if at least one message is queued, whatever interleaving of producer and consumer led there. So a consumer sleeping in poll() is always woken for a queued message and never spins on an empty mailbox.",
  ["schedules", "histories"],
  "every interleaving of one producer and one consumer (including a consumer that drains until -EAGAIN), every message size sequence",
  "The window between making a message visible and signalling it is a few instructions wide: a test only hits it by luck, and the tests are sequential.",
  ["src/dynmbox.c"],
  [("notification byte per message", "src/dynmbox.c push_notify, pop_notify")],
  ["poll() on dynmbox_get_read_fd()", "dynmbox_peek results"])
p("D03", "Variable-size mailbox flow control: capacity, blocking push, wake-up, timeout",
  "An empty mailbox accepts any message up to its maximum size, and any push that does not fit is refused (-EAGAIN when non-blocking) without waiting; messages beyond the maximum, NULL arguments and oversize mailboxes are refused with -EINVAL (NULL for creation). A blocking push that does not fit sleeps, is woken by a read that makes room and then succeeds; it returns -ETIMEDOUT only after its whole timeout (any unsigned millisecond value; 0 waits for ever) has elapsed, whatever spurious wake-ups occur and however the system time is set meanwhile, and does not sleep past its deadline.",
  ["schedules", "inputs", "fault_sequences"],
  "every interleaving of a blocking producer and a reading consumer, spurious condition wake-ups, every timeout up to UINT_MAX ms, every fill level and message size",
  "Tests use two short timeouts and real time; lost wake-ups, spurious wake-ups and large timeouts are out of their reach.",
  ["src/dynmbox.c"],
  [("condition variable signalled by peek", "src/dynmbox.c dynmbox_peek"), ("absolute deadline", "src/dynmbox.c dynmbox_push_block")],
  ["dynmbox_* return values", "virtual clock", "blocked/runnable state"])

# ---------------------------------------------------------------- safe write
p("S01", "Safe write replaces a file atomically at every crash point",
  "At every instant of an open/write/commit sequence of the safe-write API, and after a process kill or power loss at any of them, the target path holds either its complete previous content (or absence) or the complete new content, never a mixture or a truncation. Once commit has returned success the target holds the complete new content, also after a process kill.",
  ["crash_points", "inputs", "histories"],
  "a kill or power cut before/after every file-system operation of the sequence (for power loss: every outcome in which un-synced data may be missing, truncated or torn), every content and write pattern, previous file present or not, leftovers of earlier crashes present or not",
  "Unit tests never crash in the middle of a write; they only look at the end result of complete runs.",
  ["src/safew.c", "include/futils/safew.h"],
  [("write to .tmp, fsync, rename", "src/safew.c futils_safew_fopen, safew_fclose_commit")],
  ["sequence of file-system calls and their effect on the target path", "return values"],
  [("target", "bytes at the target path", "file system"), ("tmp", "bytes at path.tmp", "file system")])
p("S02", "Safe write: honest commit, harmless failure and rollback",
  "If any write, flush, sync, close or rename of a safe-write session fails, commit reports failure and the target file (and, for commits with a checksum, the pair the target and its checksum file form) stays usable: the previous version is still there, or the new version is complete and recoverable by the check function. If commit reports success the target holds exactly the bytes the caller wrote, in order, and no temporary file is left; rollback leaves the previous content untouched and removes the temporary file.",
  ["fault_sequences", "inputs", "histories"],
  "a failure (EIO, ENOSPC, EMFILE, ENOMEM, short write) injected at every file-system operation of open/write*/commit, commit_with_crc or rollback, with and without a previous version, for small and buffer-exceeding contents",
  "Tests run on a healthy file system; the error paths of commit are not executed at all.",
  ["src/safew.c"],
  [("failure flag", "src/safew.c futils_safew_fwrite, futils_safew_fprintf"), ("error path of commit", "src/safew.c safew_fclose_commit")],
  ["return values", "directory content after the call"])
p("S03", "Checksummed safe write: a crash never loses both versions",
  "If a valid payload/checksum pair exists and a checksummed commit of a new version is interrupted by a kill or power loss at any point, the next check returns 0 and leaves one of the two versions complete together with its matching checksum file and no temporary file; if that check is itself interrupted, at any point and any number of times, a later one still does. When there was no previous version the outcome is the complete new version or nothing.",
  ["crash_points", "histories"],
  "every operation boundary of commit_with_crc and of the recovery check, nested crashes during recovery, kill and power-loss outcomes of un-synced data, previous version present or not, repeated commit/crash/check cycles",
  "The tests create hand-made directory states and run one check to completion; no crash inside the commit or inside the recovery is simulated.",
  ["src/safew.c"],
  [("ordered renames and recovery table", "src/safew.c safew_fclose_commit, futils_safew_file_check")],
  ["directory content after crash and after recovery", "futils_safew_file_check return value"])
p("S04", "Safe-write check decides every directory state as documented, and is idempotent",
  "For each of the sixteen combinations of payload, payload.tmp, crc and crc.tmp files and each combination of matching, mismatching, truncated or empty contents, the check function returns 0 exactly when its documented table designates a valid pair, in which case that pair is left as payload and crc with no temporary file, and otherwise it returns -1 and removes all four files. Running it again returns the same result and changes nothing, and a file it could not open or read because of a transient error is never taken as a reason to delete data.",
  ["inputs", "histories", "fault_sequences"],
  "all 16 presence combinations x content validity (valid pair, stale pair, truncated or empty checksum), path lengths up to the limit, payloads of any size, and an I/O error (EMFILE, EACCES, EIO) at every file operation of the check",
  "Tests cover about a dozen of the combinations with healthy checksum files and never a failing open or read.",
  ["src/safew.c", "include/futils/safew.h"],
  [("recovery table", "src/safew.c futils_safew_file_check")],
  ["futils_safew_file_check return value", "directory content"])

# ---------------------------------------------------------------- containers
p("H01", "Hash map: lookups agree with the history of insertions and removals",
  "For every sequence of insert, insert_const, remove, remove_all and lookups over arbitrary 32-bit keys and any requested table size, a key is found exactly when it was inserted (by a function or its alias of the earlier interface) and not removed since, with the data pointer it was inserted with; inserting a present key returns -EEXIST and changes nothing, removing or looking up an absent key returns -ENOENT, a mutable lookup of a const entry returns -EPERM. Failed operations, including allocation failures (-ENOMEM) and NULL tables (-EINVAL), leave the map unchanged.",
  ["inputs", "histories", "fault_sequences"],
  "every operation sequence, every key (colliding or not), every initial size, data pointers including NULL, allocation failure at any insertion",
  "There is no hash test at all in the stable set, and collisions chains of every shape cannot be enumerated by examples.",
  ["src/hash.c", "include/futils/hash.h"],
  [("bucket chains", "src/hash.c futils_hash_insert_entry, futils_hash_lookup_entry, futils_hash_remove")],
  ["futils_hash_* return values and out parameters"],
  [("map", "key -> (data, const?)", "src/hash.c struct hash.buckets")])
p("H02", "Hash map: release callback and iteration list match the live entries",
  "The public list of entries always contains exactly the live entries, each once, in insertion order. The release callback supplied at creation is called exactly once for each entry when it is removed, cleared or destroyed, with that entry's data pointer, and never for a failed insertion or an entry still in the table; clear and destroy release every entry and leave no allocation behind.",
  ["inputs", "histories"],
  "every operation sequence ending in remove_all/destroy, every table size and key set, allocation failures",
  "No test observes the callback or the entry list.",
  ["src/hash.c", "include/futils/hash.h"],
  [("entries list and hfree", "src/hash.c futils_hash_insert_entry, futils_hash_remove, futils_hash_remove_all")],
  ["hfree calls", "walk of hash.entries", "allocation balance"])
p("L01", "Linked list operations implement the sequence they document",
  "After any sequence of list operations (add, add before/after, delete, delete-init, replace, replace-init, move before/after, push, pop) the list read forwards is exactly the sequence those operations denote, reading it backwards gives the reverse, and length, emptiness, first, last, next, previous and is-last queries agree with it. Deleted and popped nodes read as unreferenced, replaced or re-initialised nodes as self-linked, and other lists are not affected.",
  ["histories", "inputs"],
  "every operation sequence over any number of nodes and several lists, including positions at the head, the tail and a node's own neighbours",
  "Five scripted list tests exercise one position each; combinations (moving a node before its neighbour, replacing the tail...) are not covered.",
  ["include/futils/list.h"],
  [("circular doubly linked list", "include/futils/list.h")],
  ["list_* queries", "forward and backward walks"],
  [("lists", "sequence of nodes of each list", "include/futils/list.h struct list_node")])
p("L02", "List walks visit every element once and tolerate removal of the current one",
  "Each walk macro (node or entry, forward or backward), given the list by any expression, visits exactly the elements of the list once each in list order; the _safe variants do so even when the body deletes, moves to another list or frees the element being visited, for any subset of visited elements. Entry macros return the containing object wherever the link field lies in it.",
  ["inputs", "histories"],
  "lists of any length, any subset of elements removed during the walk, removal by delete, pop, move or free, any offset of the link field",
  "Tests walk one three-element list and remove either nothing or everything.",
  ["include/futils/list.h"],
  [("walk macros", "include/futils/list.h list_walk_*"), ("container_of", "include/futils/list.h FUTILS_CONTAINER_OF")],
  ["visited elements"])

# ---------------------------------------------------------------- time
p("T01", "Timespec arithmetic is exact and normalised",
  "For all normalised timespecs, difference, signed difference in microseconds, range test, comparison and addition of micro/nanoseconds (negative ones included) return the mathematically exact result, and every timespec they produce has 0 <= tv_nsec < 1e9. Results satisfy the identities users rely on: start plus the difference is the end, comparing agrees with the sign of the difference, adding and subtracting the same delta is neutral, and output aliasing an input is harmless where the output has the same type.",
  ["inputs"],
  "all pairs of normalised timespecs whose result fits the type, all 64-bit deltas whose result fits, in particular equal or neighbouring nanosecond fields, borrow and carry boundaries",
  "Tests check a few pairs; the borrow boundary with equal nanoseconds is not among them.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("borrow/carry handling", "src/timetools.c time_timespec_diff, time_timespec_add_ns, time_timespec_add_us")],
  ["time_timespec_* results"])
p("T02", "Time unit conversions are exact, truncating, and invert each other",
  "Converting a timespec or timeval to ns/us/ms gives the exact count rounded towards zero, converting a 64-bit count of ns/us/ms to a timespec gives the exact instant with a normalised nanosecond field, and converting there and back returns the original count. NULL arguments are refused with -EINVAL without writing.",
  ["inputs"],
  "every 64-bit count and every non-negative timespec/timeval whose count fits the result type (32-bit milliseconds for timeval)",
  "Tests convert a few constants; 32-bit intermediate overflow shows only for large values.",
  ["src/timetools.c"],
  [("unit multiplication and division in 64 bits", "src/timetools.c")],
  ["time_*_to_* results"])
p("T03", "Clock readers and sleep honour the system clocks in every situation",
  "Clock readers return the respective system clock's value or its error; elapsed time is now minus the given instant; sleeping lasts at least the requested duration, and not noticeably longer, even when signals interrupt it. Translating a monotonic timestamp to real time yields timestamp plus (realtime now - monotonic now) for past and future timestamps alike, within the time the call took; with libputils a simulator's property, where set, gives that distance.",
  ["inputs", "fault_sequences", "schedules"],
  "all clock values and clock errors, all timestamps (past and future), all durations, all signal interruption sequences",
  "Tests use the real clocks, which never fail, never sit at a boundary, and are never interrupted.",
  ["src/timetools.c"],
  [("clock_gettime wrappers, nanosleep loop", "src/timetools.c")],
  ["results under a virtual clock"])
p("T04", "Calendar formatting and parsing round-trip for every instant and offset",
  "For every instant between 1970 and 9999 and every UTC offset of whole minutes within +/-14 h, broken-down time agrees with the proleptic Gregorian calendar, and each supported format (ISO 8601 short and long, RFC 1123) renders it exactly; parsing the rendered text returns the same instant and offset. Output buffers that are too small give an error, never a truncated success.",
  ["inputs", "configurations"],
  "all epoch seconds of years 1970..9999, all whole-minute offsets, every format, every buffer size, any process time zone and locale",
  "Tests cover a dozen dates; leap years, century rules, offset sign and minute handling near zero are unbounded families.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("tm_mkepoch_local, time_local_format, time_local_parse", "src/systimetools.c")],
  ["time_local_to_tm, time_local_format, time_local_parse results"])
p("T05", "Time parsing accepts exactly well-formed text and leaves no half result",
  "A string is accepted by the date, hour, and date-time parsers only if it follows one of the documented formats with digits in every numeric field and in-range field values (month, day, hour, minute, second, offset); anything else returns an error and does not write the outputs. No input makes parsing read outside its tables or return an instant other than the one the text denotes.",
  ["inputs"],
  "all strings: every single-character corruption, truncation and field substitution (signs, blanks, out-of-range values) of valid texts",
  "Tests try a few malformed strings; numeric fields that a lenient converter accepts are not among them.",
  ["src/systimetools.c"],
  [("fixed-width field parser", "src/systimetools.c parse_*")],
  ["return codes and outputs of time_local_parse, time_ctx_set_*"])
p("T06", "Two-step time setting completes once per date+hour pair in either order",
  "For any sequence of init, set-date, set-hour and set-time calls with valid and invalid strings, the context reports in progress after the first of date/hour, success once both are known, already-set for a repeated part and invalid for malformed text without changing state; the resulting local time is the one denoted by the last accepted strings, whatever their order. Reading before completion reports in progress and writes nothing.",
  ["histories", "inputs"],
  "all call sequences of the context API with all classes of strings",
  "Tests follow two or three scripted orders.",
  ["src/systimetools.c"],
  [("fields bitmask", "src/systimetools.c time_ctx_*")],
  ["time_ctx_* return codes, time_ctx_get_local"],
  [("ctx.fields", "which parts are set", "include/futils/systimetools.h struct time_ctx")])

# ---------------------------------------------------------------- varint
p("V01", "Varint encoding round-trips and is the minimal LEB128/zig-zag form",
  "For every 16/32/64-bit signed or unsigned value, writing produces the minimal little-endian base-128 encoding (zig-zag mapped for signed types) and reading it back returns the same value and the same length, whatever bytes follow and wherever the buffer ends. A destination shorter than the type's longest encoding (3, 5 or 10 bytes) is refused with -EINVAL and left untouched.",
  ["inputs"],
  "all values of all six types, all destination and source buffer lengths, all trailing bytes",
  "Tests round-trip sampled values in generous zero-filled buffers, so a decoder that looks at the byte after the encoding, or an encoder that overruns, goes unnoticed.",
  ["src/varint.c", "include/futils/varint.h"],
  [("7-bit groups with continuation bit, zig-zag", "src/varint.c")],
  ["futils_varint_{read,write}_* results and buffers"])
p("V02", "Varint decoding is total: it rejects what does not encode a value of the type",
  "Given any byte string, decoding either returns the value denoted by its leading base-128 groups and the number of bytes they occupy, or an error when the string ends inside the number, the number has more groups than the type allows, or its value does not fit the type. It never reads beyond the given length and never returns success with a truncated value.",
  ["inputs"],
  "all byte strings up to the maximum encoding length plus one, for each of the six types, every declared length",
  "Tests try one or two malformed encodings; reads past the declared length are invisible without memory guards.",
  ["src/varint.c"],
  [("length and overflow checks", "src/varint.c")],
  ["futils_varint_read_* results", "guard page after the source buffer"])

# ---------------------------------------------------------------- random
p("T07", "System time is set and read exactly, with every failure reported",
  "Setting the local time sets the system clock once, to exactly the given number of seconds, and reports the failure to do so. Reading it returns seconds and milliseconds of one and the same instant between call and return (the milliseconds belong to that second) and the zone's UTC offset at that instant (with libputils: the offset last set); outputs passed as NULL are skipped, asking for neither seconds nor offset is refused, and a failing clock is reported.",
  ["inputs", "fault_sequences"],
  "all clock values (all 64-bit seconds, every sub-second part), all zones, all clock failures, all combinations of requested outputs",
  "Tests do not exercise these functions; a mismatch of second, millisecond or offset shows only when a second ends or the zone's offset changes during the call.",
  ["src/systimetools.c"],
  [("time_local_set", "src/systimetools.c"), ("time_local_ms_get", "src/systimetools.c")],
  ["system clock calls and results under a virtual clock"])
p("R01", "Bounded random values stay in range and reach all of it evenly",
  "For every maximum of every width the bounded generators return a value in [0..maximum], every value of that range occurs, and none is favoured beyond what chance allows; unit-interval generators return multiples of 2^-53 (double) or 2^-24 (float) in [0,1). A NULL output of the pointer variants is refused with -EINVAL.",
  ["inputs", "histories"],
  "every maximum (0, powers of two and their neighbours, type maximum), all widths, any seed",
  "Tests draw a few values for a few maxima; a biased or off-by-one range needs the whole range and many draws.",
  ["src/random.c", "include/futils/random.h"],
  [("rejection / masking", "src/random.c futils_randomr*_maximum")],
  ["outputs of futils_randomr*_maximum, futils_randomrd, futils_randomrf"])
p("R02", "Random text generators honour length, alphabet and termination",
  "For every buffer length and count, random string, base16, base32 and base64 return the length the full text would have, write min(that, len-1) characters of the documented alphabet followed by NUL (nothing at all when len is 0) and never touch a byte beyond. Every position of the full text takes every alphabet character independently of its neighbours, for every count, including counts that are not a multiple of the group size.",
  ["inputs", "histories"],
  "all (len, count) pairs around each other, every alphabet, any seed, NULL buffer with zero length",
  "Tests check some lengths, but neither bytes past the end for every (len,count) nor the independence of the characters in the last group.",
  ["src/random.c"],
  [("bit slicing of random words", "src/random.c futils_random_string/base16/base32/base64")],
  ["returned length, buffer and its surroundings"])
p("R03", "Shuffle permutes: it neither loses nor duplicates items and reaches every order",
  "For every item count and item size, shuffling leaves a permutation of the original items with each item's bytes intact and nothing outside the array touched; every permutation is reachable and none is favoured beyond chance. Invalid arguments are refused without touching the array.",
  ["inputs", "histories"],
  "all item counts and sizes (including sizes larger than any internal buffer), any seed",
  "Tests shuffle one or two arrays once.",
  ["src/random.c"],
  [("Fisher-Yates", "src/random.c futils_random_shuffle")],
  ["array content"])
p("R04", "Reseeding makes every thread and forked child leave its old stream",
  "Each thread produces its own stream, different from every other thread's. After any thread calls the reseed function, every thread's (and a forked child's) next generated output derives from entropy fetched after that call, however calls of several threads interleave with it.",
  ["schedules", "histories"],
  "all interleavings of generate and reseed calls of several threads, fork with reseed in the child, any amount of buffered output",
  "Tests are single-threaded and cannot tell old buffered output from new.",
  ["src/random.c"],
  [("reseed generation counter checked on each request", "src/random.c futils_random_reseed and pool refill")],
  ["outputs", "entropy requests issued"],
  hook=None)
p("R05", "Strong random fills the whole buffer from the kernel, or reports an error",
  "Strong random returns 0 only when all requested bytes came from the operating system's generator, whatever sequence of partial reads and interruptions the system answers with and whichever source (system call or device) is available; otherwise it returns a negative errno. NULL buffer or zero length is refused with -EINVAL, and no descriptor is leaked.",
  ["fault_sequences", "inputs"],
  "every length, every sequence of short reads/EINTR/EAGAIN/ENOSYS/EPERM/open failures from the entropy system calls",
  "On a healthy kernel the first call returns everything; no test injects a short or interrupted read.",
  ["src/random.c"],
  [("getrandom loop with device fallback", "src/random.c")],
  ["buffer bytes vs bytes supplied by the (interposed) kernel"])
p("R06", "Pseudo-random output is exact in length and never repeats consumed bytes",
  "Every request for random bytes or words fills exactly the requested bytes and nothing else, and bytes handed out once are not handed out again: across any sequence of request sizes, consecutive outputs are fresh, without stale, constant or duplicated stretches. All bits of each word type vary.",
  ["inputs", "histories"],
  "all sequences of request sizes (0, 1, odd, larger than the internal buffer) and word types, any seed",
  "Tests make a few requests of one size; reuse of pool bytes needs specific size sequences crossing the pool boundary.",
  ["src/random.c"],
  [("pool with consumption index", "src/random.c")],
  ["output bytes and surroundings"])

p("R07", "Seeding takes a whole key of fresh kernel entropy, or fails loudly",
  "Whatever pieces, interruptions and errors the entropy sources answer with, every pseudo-random output depends on at least 256 bits handed out by the kernel, all of them after the last reseed of that process began. A reseed returns 0 only when it obtained a whole new key and a negative errno otherwise, after which the old stream is not continued; a request for output that can get no entropy ends the process instead of returning bytes.",
  ["fault_sequences", "histories"],
  "every sequence of requests and reseeds, also in a forked child, every sequence of short reads, EINTR, EAGAIN, ENOSYS, open failures of the entropy system calls at any of them",
  "On a healthy kernel seeding always works at once; a key half filled with stack bytes still looks random to a test.",
  ["src/random.c"],
  [("seed key fetch and era update", "src/random.c pool_seed, pool_seed_if_needed, pool_reseed"), ("entropy fetch", "src/random.c rand_fetch")],
  ["outputs as a function of the entropy bytes supplied", "futils_random_reseed result", "process end"])

p("R08", "What the generator handed out is gone from its memory",
  "Once pseudo-random bytes have been handed out, the static, thread-local and heap memory of the process (stacks and the caller's own copies excluded) holds neither those bytes nor anything from which the generator's keystream would yield them again: the bytes are wiped as they are consumed, and the key they came from is replaced and wiped before or as they are delivered. A seed taken from the system remains at most until the next output of that thread.",
  ["inputs", "histories"],
  "every sequence of request sizes (below, at and above the size of the buffer), word requests, text requests and reseeds, in one or several threads, memory captured after any of them",
  "Tests look at what comes out; a key or a stretch of buffer that is not wiped changes no output.",
  ["src/random.c"],
  [("wiping on consumption", "src/random.c pool_buffer_consume"), ("new key at every reload (backtracking protection)", "src/random.c pool_reload, pool_stir"),
   ("wiping of seed keys", "src/random.c pool_seed")],
  ["writable memory of the process after each call"])

p("R09", "Pseudo-random output is ChaCha20 keystream that depends on every seed bit",
  "The bytes the pseudo-random generator hands out are ChaCha20 keystream (the block function of RFC 8439 with its 20 rounds and counter) under keys and nonces that are bytes of the kernel's entropy or of such keystream, whatever requests are made, and no stretch of keystream serves twice. Two seeds that differ in a single bit give outputs that differ in about half of their bits, in every word of every block.",
  ["inputs", "histories"],
  "every seed, every sequence of requests and sizes around the limits of the buffer and of the keystream blocks",
  "Output of a weakened cipher (fewer rounds, a key word that is dropped, no counter, no final addition) looks as random to any test as that of the right one.",
  ["src/random.c"],
  [("block function", "src/random.c chacha_block, chacha_quarterround"), ("key, counter, nonce", "src/random.c chacha_init, chacha_get"),
   ("keys taken from keystream", "src/random.c pool_reload, pool_stir")],
  ["outputs as a function of the entropy bytes supplied"])

# ---------------------------------------------------------------- strings
p("U01", "UTF-8 check accepts exactly well-formed strings within the given limits",
  "The UTF-8 check returns 0 exactly when the string is well-formed UTF-8 (Unicode table 3-7: shortest forms, no surrogates, nothing above U+10FFFF) containing no forbidden character (the exFAT set offered is: 1 to 31 and \"*/:<>?\\|), no longer in bytes (with its terminator) and characters than the non-zero limits; otherwise it returns a negative error: -E2BIG for a limit, -EPROTO for a forbidden character. The answer does not depend on previous calls.",
  ["inputs", "configurations"],
  "all byte strings, every limit value around the actual length, every set of forbidden characters",
  "Tests use a few literals; the set of malformed sequences (overlong, surrogate, truncated, stray continuation) is combinatorial.",
  ["src/string.c", "include/futils/string.h"],
  [("iconv to wide characters, then limits and forbidden characters", "src/string.c futils_string_check_utf8")],
  ["return code"])
p("U02", "UTF-8 sanitizing replaces forbidden characters and nothing else, within bounds",
  "On success the sanitized output is the input with each forbidden character replaced by the replacement and all others unchanged, cut to the longest prefix of whole characters that fits, with its terminator, in the given size; the returned count is the length of that text without terminator. A malformed input, a replacement that is needed and is no encodable character, or an output size below 2 gives a negative error. No byte beyond the given size is ever written.",
  ["inputs", "configurations"],
  "all inputs, every output size around the needed one, every forbidden set and replacement (including multi-byte ones)",
  "Tests use a few literals and sizes.",
  ["src/string.c"],
  [("iconv to wide characters and back with the remaining size", "src/string.c futils_string_sanitize_utf8")],
  ["return code, output buffer and its surroundings"])

# ---------------------------------------------------------------- files, fds
p("F01", "Directory size is the sum of its regular files, or an error",
  "For every directory tree the reported size is the sum of the sizes of the regular files in it, including those in sub-directories at any depth if and only if the recursive flag is set, not following symbolic links and ignoring other file types; hidden files count. If anything cannot be listed or examined, or its path does not fit, a negative errno is returned instead of a partial sum, and no descriptor stays open.",
  ["inputs", "fault_sequences"],
  "all directory trees (depth, names, empty, links, fifos), both flag values, sizes beyond 4 GiB, an error at any directory or file operation",
  "Tests have none for this function in the stable set.",
  ["src/fs.c", "include/futils/fs.h"],
  [("readdir + fstatat recursion", "src/fs.c futils_fs_dir_size")],
  ["return value"])
p("F02", "Sync helpers flush the named file and folder and report every failure",
  "Success of a sync helper means the named file, folder, or file and its parent folder were each opened and synchronised to storage, the file before its folder; if any of those steps fails its negative errno is returned. No descriptor is left open in any case.",
  ["inputs", "fault_sequences"],
  "every path with a folder component, an error at every open/fsync of each helper",
  "No test covers the sync helpers.",
  ["src/synctools.c", "include/futils/synctools.h"],
  [("open/fsync/close, first error kept", "src/synctools.c")],
  ["system calls issued", "return value", "open descriptors"])
p("F03", "Descriptors: flag helpers, close-on-exec everywhere, nothing leaked",
  "The flag helpers set exactly the requested flag while preserving all others and return a negative errno for a bad descriptor. Every descriptor the library keeps open (mailboxes, inotify) is close-on-exec once the call that made it has returned, and creating then destroying any object, or failing to create it at any step, leaves the set of open descriptors and allocations as before.",
  ["inputs", "fault_sequences", "histories"],
  "all combinations of existing flags and added flags, all object kinds, a failure at each system call or allocation of each constructor",
  "One test checks one flag on one descriptor; leaks after failed construction and inheritance over exec are not observed.",
  ["src/fdutils.c", "src/mbox.c", "src/dynmbox.c", "src/inotify.c", "src/random.c"],
  [("fcntl get/modify/set", "src/fdutils.c"), ("constructors' error paths", "src/dynmbox.c dynmbox_new; src/mbox.c mbox_new; src/inotify.c inotify_create")],
  ["fcntl flags", "open descriptor set before/after"])
p("I01", "Inotify processing hands every pending event to the callback once, in order",
  "Processing an inotify descriptor calls the callback once for each event pending at the call, in order, with its own mask, cookie and name, whatever the number of events and the lengths of their names, and does not block or call back when none is pending. Events are neither lost nor repeated over any sequence of file operations and processing calls.",
  ["histories", "inputs"],
  "all batches of events (none, few, more than any internal buffer holds), all name lengths up to NAME_MAX, any split of file operations and processing calls",
  "No inotify test exists; the switch between stack and heap buffers depends on the total batch size.",
  ["src/inotify.c", "include/futils/inotify.h"],
  [("FIONREAD-sized read and record walk", "src/inotify.c inotify_process_fd")],
  ["callback invocations vs the events the kernel queued"])
p("C01", "C++ string and path helpers match their reference meaning for every input",
  "startsWith and endsWith hold exactly for prefixes and suffixes, case conversion maps exactly the ASCII letters (in the C locale), and dirname and basename split every path, whatever its separators, dots and empty components, as POSIX defines. The arguments are never modified.",
  ["inputs"],
  "all pairs of strings over a small alphabet up to a bounded length, all paths built from separators, dots and names",
  "Tests list some strings per helper.",
  ["src/string.cpp", "src/fs.cpp", "include/futils/string.hpp", "include/futils/fs.hpp"],
  [("std::string helpers", "src/string.cpp; src/fs.cpp")],
  ["return values"])
# ---------------------------------------------------------------- not claimed
# ---------------------------------------------------------------- macros
p("G01", "Minimum, maximum and bound macros are exact and evaluate arguments once",
  "FUTILS_MIN, FUTILS_MAX and FUTILS_BOUND (and their short names) yield the smaller, the larger, and the nearest value within the given bounds, for arguments of any, also of different, arithmetic types whose values C's common type can represent, nested or among other operators, in C and in C++ (arguments using no identifier that starts with an underscore). Each argument expression is evaluated exactly once, whatever the outcome. FUTILS_SIZEOF_ARRAY counts the elements of any array and FUTILS_TOSTRING spells the expansion of its argument.",
  ["inputs"],
  "all argument values and combinations of arithmetic types, all side effects in the arguments, all nestings",
  "Tests bound three ints without side effects; a second evaluation of the winning argument or a temporary of the wrong type shows only for arguments with side effects or of different widths.",
  ["include/futils/futils.h"],
  [("statement-expression temporaries", "include/futils/futils.h")],
  ["value of the macro, evaluation counts of the arguments"])
p("G02", "Compile-time helpers accept and refuse exactly what they should",
  "A program using FUTILS_STATIC_ASSERT or STATIC_ASSERT is accepted by the compiler exactly when every asserted constant condition is non-zero, whatever the form of the condition, at file scope, in blocks, in classes, several at one place, in every version of C from C99 and of C++ from C++11. A class with FUTILS_DISABLE_COPY can be created, referred to and pointed to, and no copy of it or of a class derived from it can be made or assigned from outside; TYPEOF_STRUCT_MEMBER names the type of the given member. With format warnings as errors, calls of futils_safew_fprintf and of functions declared with FUTILS_ATTRIBUTE_FORMAT_PRINTF are accepted exactly when the arguments match the format.",
  ["inputs"],
  "all constant conditions, all places and language versions, all uses of a class",
  "No test contains a program that has to be refused; an assertion that never fails, or fails only for some forms of condition or some language versions, passes everything.",
  ["include/futils/futils.h", "include/futils/futils.hpp", "include/futils/safew.h"],
  [("FUTILS_STATIC_ASSERT", "include/futils/futils.h"), ("FUTILS_DISABLE_COPY", "include/futils/futils.hpp")],
  ["whether the compiler accepts the program"])
p("P01", "Calls on separate objects do not disturb each other",
  "Functions of the library working on separate objects can be used at the same time and in any order: whatever other threads do meanwhile with objects of their own, and whatever calls came before, a call returns and writes what it does when made alone in a fresh process (random values and clock readings aside). No function changes the working directory, environment, locale, umask, signal handling or other settings of the process, not even for a while.",
  ["schedules", "histories"],
  "every interleaving of calls of any functions of the library made by several threads on objects of their own, every order of calls made before, all arguments",
  "Tests call one function at a time in one thread; a static scratch buffer, a table filled on first use, a remembered result or a working directory changed for a while shows only between two particular steps of another call.",
  ["src/timetools.c", "src/systimetools.c", "src/string.c", "src/safew.c", "src/synctools.c", "src/hash.c", "src/fs.c", "src/inotify.c", "src/random.c", "src/mbox.c", "src/dynmbox.c", "src/varint.c", "src/fdutils.c"],
  [("reentrant time conversions", "src/systimetools.c time_local_to_tm, time_local_format"), ("scratch on the stack", "src/safew.c, src/fs.c, src/inotify.c"),
   ("generator state per thread", "src/random.c")],
  ["results and written buffers of concurrent calls", "settings of the process"])
p("X01", "Random output is unpredictable",
  "An observer of any amount of past pseudo-random output can predict its future output, or tell it from uniformly random bytes, with feasible effort.",
  ["inputs", "histories"], "all outputs and observers",
  "Cryptographic strength is not testable by examples.",
  ["src/random.c"], [("ChaCha-style generator with fast key erasure", "src/random.c")], ["outputs", "process memory"])
p("X02", "No API use within contract causes undefined behaviour in memory",
  "No call within the documented contract makes the library read or write memory it does not own or race on it.",
  ["inputs", "schedules"], "all calls and interleavings",
  "Tests run without memory checking.",
  ["src"], [("bounds checks throughout", "src/*.c")], ["sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
