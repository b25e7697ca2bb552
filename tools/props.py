"""The properties, the suite that decides each, and what its check assumes.
tools/gen.py writes properties.jsonl and MANIFEST.json from this."""

PROPS = []
NOT_CLAIMED = []

TECH = "TLA+ specification checked with TLC; its behaviours replayed on the real code"
TECH_H = ("TLA+ specification checked with TLC; its behaviours replayed on the real code and "
          "recorded concurrent histories checked against it with TLC")
AW = "src/async_waiter.rs"
SMF = "src/runtime/stream_manager.rs"


def prop(id, title, statement, over, text, why, files, mech, suite, note, technique=TECH,
         level="model_checking"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, suite=suite, note=note, technique=technique, level=level))


# ------------------------------------------------------------------ the turn queue
prop("A01", "One request at a time owns an isolate's turn",
     "The turn of a multiplexed isolate is owned by at most one request at any moment: an attempt to take it "
     "succeeds only while nobody owns it, and exactly one of several simultaneous attempts succeeds. It becomes "
     "available again only when its owner releases it.",
     ["schedules", "histories"],
     "Every sequence and every thread interleaving of attempts and releases by any number of requests.",
     "The unit tests try one fixed sequence on one thread; mutual exclusion is about all interleavings.",
     [AW], [("compare-and-exchange of the turn flag in the attempt", AW), ("release", AW)], "aw",
     "All sequences for 3 requests within bounds (queue length), and thread schedules within a preemption bound, "
     "under sequentially consistent atomics.", TECH_H)
prop("A02", "Releasing the turn wakes exactly the longest-waiting request",
     "When the turn is released and requests are waiting for it, the one that has been registered longest is woken, "
     "exactly once, and no other; when nobody waits, nobody is woken. Nothing but a release wakes a waiting request.",
     ["histories", "schedules"],
     "Every order of arrivals, repeated attempts, releases and wakeups of any number of requests.",
     "The FIFO test enqueues three wakers once; repeated attempts, re-registration and interleavings are not sampled.",
     [AW], [("waiter queue, oldest first", AW)], "aw",
     "All sequences for 4 requests with a bounded queue.", TECH)
prop("A03", "A request waiting for the turn is never forgotten",
     "A request that failed to get the turn is registered or has been told to try again until it gets it: whenever "
     "the turn is free and requests are waiting, at least one of them has been woken. This holds whichever way "
     "attempts and releases overlap on different threads and however often a request retries on its own.",
     ["schedules", "histories"],
     "Every interleaving of attempts and releases on several threads, and every sequence with retries.",
     "A lost wakeup needs a registration that falls between two steps of a release; no test runs two threads.",
     [AW], [("registration and release under one lock", AW), ("removal of the new owner's registrations", AW)], "aw",
     "All sequences for 3-4 requests within bounds and thread schedules within a preemption bound; sequentially "
     "consistent atomics. Requests that are dropped while registered are outside this property (see DESIGN.md).",
     TECH_H)

# ------------------------------------------------------------------ streams
prop("S01", "Streams deliver every accepted chunk once and in order",
     "A stream's consumer receives exactly the chunks that writes reported as accepted, in the order they were "
     "accepted, each once and unchanged, whether it reads through the manager or takes the receiving end. A write "
     "that is abandoned before it completes, or that fails, neither loses nor duplicates another chunk; a consumer that "
     "abandons a read is gone.",
     ["histories", "schedules"],
     "Every sequence of writes (waiting or not), reads, abandoned operations and closes, with several writers.",
     "The tests write and read two chunks in a row; waiting writers, cancellation and interleavings are not covered.",
     [SMF], [("bounded channel per stream", SMF), ("receiver lent to one read at a time", SMF)], "sm",
     "Exhaustive over the operations within bounds: capacity 2, 2-3 waiting writers, 1-2 readers.")
prop("S02", "Stream buffers are bounded and writers wait only for room",
     "A stream never holds more undelivered chunks than its high-water mark (16 by default). A write without waiting "
     "fails while there is no room and succeeds when there is; a waiting write is admitted as soon as the consumer "
     "makes room, in order of arrival, and is woken for it.",
     ["histories", "configurations"],
     "Every capacity, number of writers and order of writes, reads and abandoned writes.",
     "One test fills a buffer of two; it has no waiting writer, no cancellation and no other capacity.",
     [SMF], [("bounded channel with the high-water mark as capacity", SMF)], "sm",
     "Exhaustive within bounds for capacities 1-4; the default capacity with one writer and reader.")
prop("S03", "A terminal chunk ends a stream",
     "Once a stream's consumer has been given the end-of-stream or error chunk through the manager, every further read "
     "of that stream is refused and further writes report that the consumer is gone. Every chunk accepted before the "
     "terminal one is delivered before it.",
     ["histories"], "Every sequence of writes of data, end and error, and of reads, by several readers and writers.",
     "The tests read up to the end of one stream and stop there.",
     [SMF], [("receiver not put back after a terminal chunk", SMF)], "sm",
     "Exhaustive within bounds: capacity 3, 1 waiting writer, 2 readers, 3-5 writes.")
prop("S04", "A closed stream stays closed",
     "After a stream is closed, or all streams are cleared, writes to it are refused, no new read of it is served, and "
     "it no longer counts as active, even when a read or write was in flight at that moment. A consumer that has gone "
     "away is noticed by the next write, which reports it and drops the stream's writing side.",
     ["histories", "schedules"],
     "Every interleaving of close, clear and a consumer's departure with reads and writes in flight.",
     "The test closes an idle stream; a close during a read or write is never exercised.",
     [SMF], [("close and clear", SMF), ("in-flight read checks before putting its receiver back", SMF)], "sm",
     "Exhaustive within bounds: capacity 1, 2 writers and 2 readers in flight.")
prop("S05", "Stream identifiers are never reused",
     "Each stream gets an identifier no earlier stream of the manager had, also after the manager was cleared for the "
     "next request. What is written to, read from or closed under one identifier never affects another stream, so no "
     "data of one request can appear in another.",
     ["histories"], "Every sequence of creations, writes, reads, closes and clears across requests.",
     "The tests create one stream per manager and never clear it.",
     [SMF], [("identifier counter", SMF), ("clear", SMF)], "sm",
     "Exhaustive within bounds: 2-3 streams over any number of clears.")
prop("S06", "A request body reaches its own request, completely",
     "What a request reads from its body stream is exactly what the host sent for that body, in order; the stream ends "
     "with end-of-stream only after the whole of a complete body, and with exactly one terminal chunk, the error if the "
     "body failed. The forwarding ends when the consumer goes away, and never writes to another request's stream.",
     ["histories", "schedules", "fault_sequences"],
     "Every interleaving of the host's sends, the end or failure of the body, reads, cancelled reads, closes and the "
     "start of the next request.",
     "No test runs the body pump.",
     [SMF], [("request body pump task", SMF)], "sm",
     "Exhaustive within bounds: one body of up to 5 chunks, two bodies of 1-2 chunks, small capacities; the pump runs "
     "on a single-threaded executor to quiescence between steps.")

# ------------------------------------------------------------------ garbage collection
GC = "src/gc/"
prop("G01", "Every isolate is told exactly the memory its own objects hold",
     "The external memory an isolate has been told of, plus what is deferred for it, is at every moment the sum of the "
     "amounts of the live guards that belong to it. A guard belongs to the isolate that was locked by its thread when it "
     "was made (or first changed, if none was); all its later changes and its end are reported there and nowhere else, "
     "at once when that isolate is the one being worked on, deferred otherwise. A guard no isolate knows of is never "
     "subtracted from one.",
     ["histories", "schedules"],
     "Every sequence of locking, making, changing and dropping guards on any thread with any isolate locked.",
     "The tests use one isolate at a time and drop guards with the same lock or none; mixing isolates and threads is "
     "not sampled.",
     [GC + "external_memory.rs", GC + "js_lock.rs"],
     [("report to the guard's own isolate, direct or deferred", GC + "external_memory.rs"),
      ("deferred amount per isolate", GC + "js_lock.rs")], "gc",
     "Exhaustive within bounds: 2 isolates, nested locks of depth 2, small amounts; 2 threads with 2 guards; thread "
     "schedules within a preemption bound.", TECH_H)
prop("G02", "The innermost lock of a thread is its current one",
     "On each thread the current isolate is the one locked last and not yet unlocked, or none; releasing a nested lock "
     "makes the enclosing one current again; other threads' locks do not matter. Taking the lock of an isolate applies "
     "what was deferred for that isolate exactly once and for no other.",
     ["histories"], "Every nesting of locks of several isolates on several threads.",
     "The tests lock one isolate, or two one after the other; they never nest three or use two threads.",
     [GC + "js_lock.rs"], [("thread-local current state, saved by nested locks", GC + "js_lock.rs")], "gc",
     "Exhaustive within bounds: 3 isolates to depth 4 on one thread; 2 isolates on 2 threads to depth 3.")
prop("G03", "A deferred V8 handle is destroyed once, under the lock, and never forgotten",
     "A handle handed to an isolate's queue is destroyed exactly once: by the next processing of that queue, on the thread "
     "that processes it, and at no other moment; handing it over never destroys it. Processing destroys everything whose "
     "hand-over had completed. The reported number of waiting handles is zero exactly when none waits, also while other "
     "threads hand over handles.",
     ["schedules", "histories"],
     "Every sequence and thread interleaving of hand-overs and processing.",
     "The unit test checks an empty queue; no test defers a handle or uses two threads.",
     [GC + "deferred_destruction.rs"], [("queue and count under one lock", GC + "deferred_destruction.rs"),
                                        ("fast path on the count", GC + "deferred_destruction.rs")], "gc",
     "All sequences for 2 queues and for up to 9 handles in one; thread schedules of 3 threads within a preemption "
     "bound; sequentially consistent atomics; one thread processes a queue at a time (the isolate lock).", TECH_H)
prop("G04", "The reported size of a value is the memory it holds",
     "The size a value reports is the sum of what it holds outside itself: capacities of byte vectors and strings, the "
     "length of byte slices, capacity times element width plus contents for vectors, width plus contents for boxes, and "
     "for shared pointers only the sole owner's; a derived struct counts exactly its tracked fields. A tracked value's "
     "guard stands for the size measured last and goes with the value.",
     ["all_inputs", "histories"], "Every nesting of these types, and every order of tracking, changing and measuring.",
     "The tests measure six fixed values and one derived struct.",
     [GC + "traceable.rs", "gc-derive/src/lib.rs"], [("size of each type", GC + "traceable.rs"),
                                                     ("derived sum over tracked fields", "gc-derive/src/lib.rs")], "gc",
     "All terms to nesting depth 2 over small sizes and two element widths; all lives of one tracked value.")

# ------------------------------------------------------------------ limits
SEC = "src/security/"
prop("M01", "Array buffers stay within their quota and use all of it",
     "The bytes of live array buffers never exceed the isolate's quota, whatever threads allocate and free. An "
     "allocation succeeds exactly when it fits into what the live buffers leave of the quota at that moment; a refused "
     "one takes nothing and raises the memory flag, which nothing else raises. What is freed can be allocated again, "
     "and fresh buffers are zeroed unless asked otherwise.",
     ["histories", "schedules", "all_inputs"],
     "Every sequence and thread interleaving of allocations and frees of any sizes, up to the largest.",
     "The unit tests do one or two allocations on one thread; boundaries, refusals and races are not sampled.",
     [SEC + "array_buffer_allocator.rs"], [("byte count reserved in one atomic step", SEC + "array_buffer_allocator.rs"),
                                           ("free", SEC + "array_buffer_allocator.rs")], "sec",
     "Exhaustive for 3 buffers over boundary sizes in bytes and megabytes; thread schedules of 2-3 threads within a "
     "preemption bound; sequentially consistent atomics.", TECH_H)
prop("M02", "Reaching the heap limit ends the execution, not the process",
     "When V8 reports that an isolate's heap is near its limit, that isolate's execution is terminated, its memory flag "
     "is raised, and V8 is told a limit above the current one so that it can unwind. This happens each time it is "
     "reported, and neither the flag nor the execution of another isolate is touched.",
     ["histories", "all_inputs"], "Every sequence of reports, for any current limit, on any number of isolates.",
     "The module has no test that reaches the callback.",
     [SEC + "heap_limit.rs"], [("near-heap-limit callback", SEC + "heap_limit.rs")], "sec",
     "Exhaustive for 2 isolates and 6 limits up to 4 GB, 3-4 reports each; V8 is the one that calls back only in "
     "production (see DESIGN.md).")
prop("T01", "A wall-clock limit ends its isolate's execution once, and on time",
     "A wall-clock guard terminates the execution of its own isolate, exactly once, when its limit has passed and not "
     "before, and reports that it did. A guard that is dropped earlier never terminates anything; a limit of 0 is no "
     "limit; guards do not affect each other.",
     ["histories", "schedules"], "Every order of making and dropping guards of several isolates and passing time.",
     "The tests check one guard that fires and one that is dropped.",
     [SEC + "timeout_guard.rs"], [("watchdog thread and its cancellation", SEC + "timeout_guard.rs")], "sec",
     "Exhaustive for 2 guards on 2 isolates over 3 units of 100 ms; real time, confirmed by repetition.")
prop("T02", "A CPU limit counts its own thread's work and ends one execution",
     "A CPU limit terminates its isolate's execution once, when the thread that set it has itself used that much CPU "
     "time since it was set or last reset, and reports that it did. Waiting, and work of other threads, do not count. A "
     "dropped limit never terminates anything; a limit of 0 is none; limits do not affect each other.",
     ["histories", "schedules"], "Every order of setting, resetting and dropping limits on several threads that work or wait.",
     "The tests check one limit on one thread.",
     [SEC + "cpu_enforcer.rs"], [("per-thread CPU timer with the limit's identity", SEC + "cpu_enforcer.rs"),
                                 ("registry of live limits", SEC + "cpu_enforcer.rs")], "sec",
     "Exhaustive for 2 limits on 2 threads over 3 units of 40 ms; real CPU time, confirmed by repetition; Linux only.")

# ------------------------------------------------------------------ JavaScript streams
RSF = "src/runtime/streams.rs"
prop("R01", "A ReadableStream's reads get its chunks once, in order, then the end",
     "The reads of a ReadableStream, in the order they were made, get the chunks its source enqueued, in order, each "
     "once and as the very value enqueued (whatever it is), and the end only after the last of them; every read after "
     "the end gets the end. It does not matter whether chunks come before or after the reads, from start, from pull "
     "(at once or later) or from outside, or through how many readers one after the other.",
     ["histories", "all_inputs"],
     "Every order of enqueuing, pulling, reading, closing, locking and releasing, with chunks of every kind.",
     "The unit tests do not run a stream; the order in which reads and chunks arrive has no bound.",
     [RSF], [("controller queue and read requests", RSF)], "js",
     "Exhaustive within bounds: queues of 3, 3 waiting reads, 2 readers, 6 ways to pull, 4 ways to start; random "
     "behaviours with queues of 30 and 20 waiting reads. Runs the crate's own JavaScript in V8 12.4.")
prop("R02", "Every read of a ReadableStream settles once the stream has ended",
     "When a stream is closed, fails (by its controller, or because start or pull throws or rejects) or is cancelled, "
     "every read that waits settles: with the end after closing or cancelling, with the error after failing; so does "
     "every later read, and the reader's closed promise. A read waits only while its stream is open and has nothing for "
     "it, and is never settled twice; nothing is delivered after the end, an error or a cancellation.",
     ["histories", "fault_sequences"],
     "Every order of reads, releases, chunks, closes, failures and cancellations, and every way a source can fail.",
     "Whether some read hangs depends on what happened before it; the tests contain no such sequence.",
     [RSF], [("closing, failing and cancelling settle the read requests", RSF), ("failures of pull and start", RSF)], "js",
     "Exhaustive within bounds: queues of 2, 2 waiting reads, 2 readers, 11 outcomes of pull, 5 of start; random "
     "behaviours with 20 waiting reads.")
prop("R03", "A ReadableStream has one reader, and its source learns of cancellation",
     "A locked stream gives out no second reader and stays locked until the lock's holder releases it (not while it has "
     "reads waiting) or the stream is cancelled; releasing another reader never unlocks it. Cancelling an open stream "
     "tells its source exactly once, with the reason, and aborts the controller's signal; so does a failure for the "
     "signal, and the departure of the client the stream is answering, which the next enqueue reports.",
     ["histories"], "Every order of locking, releasing, reading, cancelling, failing and the client's departure.",
     "The tests do not lock or cancel a stream.",
     [RSF], [("lock", RSF), ("cancel", RSF), ("controller signal", RSF)], "js",
     "Exhaustive within bounds: 2 readers, queues of 1, sources with and without pull and cancel, whose cancel works, "
     "throws or rejects.")
prop("R04", "Both branches of a tee get the whole stream, independently",
     "Each branch of a split stream gets exactly the source's chunks, in order, then its end or error, however the two "
     "branches' reads interleave and whether or not the other branch is read or cancelled. A branch that is read waits "
     "only while the source has nothing for it. What one consumer writes into a byte chunk the other does not see. The "
     "source is cancelled, once, when both branches have been, and not before.",
     ["histories", "schedules"],
     "Every interleaving of the branches' reads and cancellations with the source's chunks, end and failure.",
     "The tests do not split a stream; several reads of a branch in progress at once need such an interleaving.",
     [RSF], [("shared read of the split", RSF), ("copy for the second branch", RSF), ("joint cancellation", RSF)], "js",
     "Exhaustive within bounds: queues of 2-3, 2 waiting reads per branch, 9 outcomes of pull; random behaviours with "
     "queues of 30. Splitting a branch again is not covered.")

# ------------------------------------------------------------------ text
TE = "src/runtime/text_encoding.rs"
prop("X01", "Decoding bytes follows the Encoding Standard for every input",
     "Decoding gives, for every sequence of bytes, the text the Encoding Standard defines: each maximal invalid part "
     "becomes one U+FFFD, or with fatal the whole call throws a TypeError; a leading byte order mark is dropped unless "
     "ignoreBOM is set. The result depends only on the bytes, not on the kind, offset or length of the view they come "
     "in nor on earlier calls, and an unknown label is a RangeError. A decoder reports the name of its encoding and the flags it was made with.",
     ["all_inputs"], "Every byte sequence, kind of view, supported label and combination of flags.",
     "No unit test decodes anything; invalid sequences are combinations of boundary bytes.",
     [TE], [("native decode", TE), ("TextDecoder", TE)], "js",
     "All sequences of 24 boundary bytes up to length 3 (quick) or 4, of mark bytes up to length 5-6 and of UTF-16 "
     "bytes up to length 4-5, each in several views; random ones up to length 40; 27 labels of 4 encodings; the names of all 39 encodings and 64 combinations of flags. Decoding in "
     "pieces (stream: true) is not covered (see DESIGN.md).")
prop("X02", "Encoding text gives valid UTF-8 and loses nothing",
     "Encoding gives the UTF-8 of the text with every lone surrogate replaced by U+FFFD, so that decoding it gives the "
     "same text back. encodeInto writes the same bytes, never more than fit, never part of a character and nothing "
     "outside the destination, and reports exactly the code units and bytes it dealt with.",
     ["all_inputs"], "Every string and every size of destination.",
     "No unit test encodes anything.",
     [TE], [("native encode", TE), ("TextEncoder.encodeInto", TE)], "js",
     "All strings of 15 boundary code units up to length 3 (quick) or 4 with every destination size; random ones up to "
     "length 20.")

# ------------------------------------------------------------------ crypto
CR = "src/runtime/crypto/"
prop("C01", "Digests, MACs and derived keys have their standard values",
     "digest, HMAC signing and PBKDF2 deriveBits give the values the standards define for the algorithm named (in any "
     "case, as a string or an object) and exactly the bytes given at the call, whatever their length and the kind and "
     "offset of the view they come in. Whatever is not supported (an unknown hash, other data, keys, formats, lengths "
     "or iteration counts) is a rejected promise: never an exception, an answer or a crash.",
     ["all_inputs"], "Every algorithm, length and way to pass the bytes.",
     "The tests compare one SHA-256 value; block boundaries and views are not sampled.",
     [CR + "digest.rs", CR + "hmac.rs", CR + "pbkdf2.rs"],
     [("native digest", CR + "digest.rs"), ("native HMAC", CR + "hmac.rs"), ("native PBKDF2", CR + "pbkdf2.rs")], "js",
     "All lengths around the block sizes (thorough: 0 to 400), 9 (thorough: 260) key lengths, 3 kinds of view; the values "
     "come from Python's hashlib.")
prop("C02", "A signature verifies for exactly the key, hash and data it was made with",
     "verify answers true exactly when the signature was made with that secret or private key, that hash and that data, "
     "here or by another implementation, and has not been changed since; signatures made here verify there. This holds "
     "for HMAC, ECDSA P-256 with SHA-256 and RSASSA-PKCS1-v1_5, for imported keys in every accepted format and for "
     "generated ones, whatever was imported, signed and verified before. Other hashes are not silently replaced.",
     ["histories", "all_inputs"], "Every sequence of importing, generating, signing, changing and verifying.",
     "The tests sign and verify once per algorithm with one key.",
     [CR + "hmac.rs", CR + "ecdsa.rs", CR + "rsa.rs"], [("HMAC", CR + "hmac.rs"), ("ECDSA", CR + "ecdsa.rs"), ("RSA", CR + "rsa.rs")], "js",
     "All transitions of 2 key slots and 1 signature for HMAC, most of them (thorough: all) for ECDSA and RSA; random "
     "behaviours with 5 keys and 4 signatures. Independent judges: Python's hmac, OpenSSL signatures, P-256 arithmetic.")
prop("C03", "A key keeps the bytes, kind and algorithm it was imported with",
     "What a caller does to a buffer after importing it changes no key. A key works only for the algorithm it was "
     "imported for: used with another it is refused, so a public key is never an HMAC secret, and only secret and private "
     "keys sign. It reports the kind, algorithm, hash, usages and extractability it was imported or generated with. Importing, "
     "generating and using other keys changes nothing about a key.",
     ["histories"], "Every mix of keys, algorithms and changes of the callers' buffers.",
     "The tests use one key with its own algorithm and never touch the buffer again.",
     [CR + "hmac.rs", CR + "ecdsa.rs", CR + "rsa.rs", CR + "pbkdf2.rs"],
     [("importKey chain", CR + "pbkdf2.rs"), ("key checks of sign and verify", CR + "hmac.rs")], "js",
     "All transitions of 2 keys of 4 algorithms and of 3 HMAC keys; random behaviours with 6 keys.")
prop("C04", "Random values fill the whole array and nothing else",
     "getRandomValues fills every byte of an integer typed array of any element type, length and offset with fresh random "
     "bytes, touches nothing outside it and returns it; what it cannot fill it refuses with an error, so an untouched array "
     "is never taken for a random one. randomUUID gives well-formed version 4 UUIDs, all different.",
     ["all_inputs"], "Every type, length and offset of array.",
     "The tests fill one Uint8Array of 16 bytes.",
     [CR + "random.rs"], [("getRandomValues", CR + "random.rs"), ("randomUUID", CR + "random.rs")], "js",
     "9 element types, 11 (thorough: 134) lengths, 3 offsets; 500 UUIDs per run. The quality of the randomness is not judged "
     "beyond every byte varying.")

# ------------------------------------------------------------------ the runtime as a whole
BT = "src/runtime/bindings/timers.rs"
SCH = "src/runtime/scheduler.rs"
prop("E01", "Timers run when due, in order, and never once cleared",
     "A callback given to setTimeout runs exactly once and not before its delay has passed, one given to setInterval "
     "runs again and again, at most once per period; among those due, what was due first runs first and at the same "
     "time what was set first. A cleared timer never runs again, whether cleared by the script or by a callback in the "
     "same turn. Clearing what has run or never existed, a callback that throws and an odd delay (negative, fractional, "
     "NaN, missing, huge) affect nothing else, and no interval keeps the worker from doing anything else.",
     ["histories", "schedules"], "Every sequence of setting and clearing timers, from the script and from callbacks, and of passing time.",
     "No stable test runs a timer.",
     [BT, SCH, "src/event_loop.rs", "src/execution_context.rs"],
     [("timer wrappers", BT), ("event loop", SCH), ("callback processing", "src/event_loop.rs")], "rt",
     "All transitions of 3 timers of 3 delays with clearing; with callbacks that set, clear and throw a random part of "
     "112,000 (thorough: more of it); random behaviours with 60 timers and delays up to 5 s. The clock is tokio's, paused. A part through the isolate pool.")
FE = "src/runtime/bindings/fetch.rs"
CH = "src/runtime/callback_handlers.rs"
prop("E02", "Each answer of the host reaches the call it answers, with its body as sent",
     "A fetch, or a call on an assets, worker, storage, KV or database binding, settles exactly once: with the host's answer to "
     "this call (status, headers, value or error), whatever else is in flight and in whatever order the answers come. "
     "The body the script reads is the body the host sends to this answer: every chunk once and in order, its end only "
     "after the host has ended it, and an error where the host failed it; an answer without a body reads as empty. A "
     "body nobody reads is held back after a bounded number of chunks. When the worker ends, calls in flight are given "
     "up and the host's senders of bodies are told at the next chunk.",
     ["histories", "schedules"], "Every interleaving of calls, answers, chunks, reads, cancellations and the worker's end.",
     "No stable test performs a call.",
     [SCH, CH, FE, "src/runtime/bindings/web_api.rs", "src/runtime/bindings/streams.rs", "src/execution_context.rs"],
     [("event loop", SCH), ("callback values", CH), ("call wrappers", FE)], "rt",
     "All transitions of one call of each of 7 kinds with 3 chunks; a random part (thorough: more) of two calls in all "
     "orders; random behaviours of 1, 2 and 6 calls with up to 60 chunks; a part through the isolate pool.")
WK = "src/worker.rs"
prop("E03", "A request is answered once, with its whole body, and ends when its work is done",
     "However a fetch handler answers (respondWith, a returned promise, a module; bytes, a stream of its own, a stream "
     "of the host's passed on, the request's body sent back), the client gets one answer: this one, or a 500 when the handler "
     "fails. It reads the body's chunks in order and none is missing; it sees the end only if the source ended the body, and "
     "an error if the source failed or the worker ended first. exec() ends once: as soon as the answer is sent, the "
     "body complete and every promise passed to waitUntil settled, even if one of them rejects, and not before. When "
     "the client goes away the script is told at once, the host's senders at the next chunk, and exec() no longer waits "
     "for the body after a grace of 100 ms.",
     ["histories", "schedules"], "Every interleaving of answering, waitUntil, the body's chunks, the client's reads and its leaving, time, and the worker's end.",
     "No stable test executes a request.",
     [WK, "src/execution_context.rs", "src/execution_helpers.rs", SCH, "src/runtime/bindings/streams.rs", "src/runtime/stream_manager.rs"],
     [("request execution", WK), ("exit conditions and response reading", "src/execution_helpers.rs"), ("response stream bindings", "src/runtime/bindings/streams.rs")], "rt",
     "A random part (thorough: all) of 14,500 transitions of 7 ways to answer, 2 promises and 2 chunks, for each of 3 handler "
     "styles; all of 3 promises; random behaviours with bodies of up to 80 chunks and slow clients; a part through the isolate pool.")
prop("E04", "A task gets one result: what its handler answered, or its failure",
     "A task (invoked, or due by its schedule) reaches the script's task handler, or else its scheduled handler, with its id, "
     "attempt, payload and time as the host gave them. The host gets one result, when the handler has ended and every "
     "promise passed to waitUntil is settled, and not before: the result passed to respondWith last, or else the value "
     "returned; a failure with the error's message if the handler throws (an Error or any value) or such a promise is "
     "rejected, whatever was answered; a failure if there is no handler; none if the worker ends first. Data arrives as "
     "it was answered, as JSON.",
     ["histories", "inputs"], "Every order of answering, returning, throwing, settling promises and the worker's end; every kind of value.",
     "No stable test executes a task.",
     [WK, "src/execution_context.rs"], [("task execution", WK), ("handlers of both styles", WK)], "rt",
     "All orders of 2 answers, 2 promises, return or throw, and the worker's end, and all of 14 values and payloads, for 9 scripts: "
     "listeners and modules, task, scheduled, fetch only, none; a part through the isolate pool.")
PO = "src/pool.rs"
XC = "src/execution_context.rs"
prop("P01", "The pool gives every owner its isolates, reuses contexts, forgets no slot",
     "With the pinned pool, a thread keeps at most the configured number of isolates while any of them is free, and an owner has "
     "at most its share of them; a request is refused (\"Pool at capacity\") only when all of its owner's share is in use, and "
     "otherwise runs on its owner's isolate: never on one that another owner has used. To make room the free isolate used the longest ago "
     "goes. A finished request's context is kept (up to the configured number, for the configured number of requests) "
     "and serves later requests of the same owner, worker, version and environment only, with their own operations handle; "
     "a context whose request failed, was ended or was dropped never serves again. However a request ends (answered, late, "
     "failed at load, out of memory or processor time, or dropped by its caller) its slot is free again.",
     ["histories", "schedules"], "Every sequence of requests of several owners and workers, their ways to end, and their overlap.",
     "No stable test runs the pool.",
     [PO, XC], [("isolate pool", PO), ("kept contexts", XC)], "pool",
     "All or a random part (thorough: more) of 170 to 28,800 transitions of up to 3 requests, 3 owners, 5 kinds of workers, 6 "
     "configurations, incl. processor time; random behaviours of 5 requests and 5 owners.")
prop("P02", "Requests sharing an isolate run side by side, each to its own end",
     "Built for several requests on an isolate at a time, the pool admits up to the configured number to each of an owner's "
     "isolates and then a further isolate or a refusal. Requests waiting on the same isolate each get their own answer and end, in any "
     "order, each in a context of its own; dropping one changes nothing for the others; an isolate in use is never evicted.",
     ["histories", "schedules"], "Every interleaving of requests that share an isolate, their ways to end, and being dropped.",
     "No stable test runs the pool.",
     [PO, XC, "src/locker_managed_isolate.rs"], [("isolate pool", PO), ("kept contexts", XC), ("lock per poll", "src/worker.rs")], "pool",
     "A random part (thorough: more) of 79,900 transitions of 3 requests on an isolate and 16,000 of 4 on two; random behaviours of "
     "5 requests of 3 owners.")
prop("P03", "A reused context tells a request nothing of an earlier or another one",
     "Requests served by a kept context, one after the other, or by the same isolate side by side, see only what is theirs: an answer "
     "the host gives to a call (fetch, key-value), a chunk of a body and a timer reach the request that asked for them, once, and nothing "
     "at all if that request has ended by then, however many later requests the same context has served and whatever they have open.",
     ["histories", "schedules"], "Every interleaving of requests, their calls and timers, their ends, and what arrives late.",
     "No stable test runs the pool.",
     [PO, XC, SCH], [("reset of a kept context", XC), ("answers by number", "src/runtime/callback_handlers.rs")], "pool",
     "A random part (thorough: more) of 3 and 2 requests in a kept context with 1 and 2 calls each and of 3 requests side by side; random "
     "behaviours of 30 requests with 4 calls each.")
prop("E05", "Messages cross the boundary of script and host as they were made",
     "A request the script makes (by fetch or an assets or worker binding; from a string, a URL, a Request, or a Request overridden by "
     "options) reaches the host with its URL, its method, all its headers, and the bytes its body stands for, whatever form that was "
     "given in (string, number, buffer, view, part of a buffer, Blob, FormData, URLSearchParams, stream), with the content type "
     "that form implies unless one is given, as it was at the time of the call; one that cannot be made is refused, not sent as another. The same holds "
     "for the host's answers and requests on their way to the script, for the script's responses on their way to the client, and for keys, "
     "values, parameters and results of storage, key-value and database calls: JSON values arrive as equal values, and what "
     "JSON cannot express is refused or dropped as JSON does it.",
     ["inputs"], "Every form of message and every combination of method, headers and body, not the few a test samples.",
     "No stable test sends a message.",
     [FE, "src/runtime/bindings/web_api.rs", CH, "src/execution_helpers.rs", SCH, WK],
     [("requests of a script", FE), ("Request, Response, Headers, bodies", "src/runtime/bindings/web_api.rs"), ("responses", "src/execution_helpers.rs")], "msg",
     "All combinations of 3 callees, 4 kinds of input, methods, 11 kinds of headers and 18 of bodies; of binding calls and their values and "
     "results; of requests served and responses sent, through a Worker each and through the pool.")
WSK = "src/runtime/bindings/websocket.rs"
prop("E06", "A WebSocket opens and closes once, and what is sent between arrives in order",
     "A WebSocket, whether constructed or got by a fetch with an upgrade, asks the host for its URL, headers and protocols once. What the far "
     "end sends arrives once and in order as message and error events while the socket is open, and waits for accept() where the script "
     "has to call it; what the script sends reaches the far end in order with its bytes as they were, is refused before the socket "
     "is open and dropped after it closes. Whoever ends it (the script by close, at any stage; the far end by closing or "
     "disappearing; a failed handshake) there is exactly one close event, with the far end's code and reason or else 1006, and nothing is heard "
     "or sent after it; readyState tells the stage at every event. Listeners are all called, each once, even if one throws. "
     "When the request or the worker ends, pending handshakes are given up and the far ends are let go.",
     ["histories", "schedules"], "Every interleaving of what the script does, what the far end does, and the end of the request.",
     "No stable test opens a WebSocket.",
     [WSK, SCH, "src/runtime/mod.rs", FE, XC], [("WebSocket class", WSK), ("connection tasks", SCH)], "ws",
     "A random part (thorough: all) of 60,800 transitions of one socket and of those of two; random behaviours of 4 sockets with up "
     "to 60 messages each; a part through the isolate pool.")
prop("E07", "What exceeds its limits is ended, at every stage, and nothing else is",
     "A script that runs without end (in whatever way it loops: also where it catches what is thrown, in microtasks, in callbacks of the "
     "runtime and of the engine, while it is loaded) is ended by its limit on CPU time or on time on the wall, whichever comes first; one "
     "that waits without end by its limit on the wall; one that exhausts the heap by the limit on memory. The execution ends with that "
     "limit as its reason, at any stage of the request (before or after the answer, while the body streams, in background work), nothing "
     "of the script runs any more, an answer that was given stays, a body cut short is not taken for a whole one, and the isolate serves "
     "the next request as before. An array buffer beyond the limit is a RangeError in the script and the execution is reported as over its memory. "
     "A request within its limits is not ended by them.",
     ["histories", "inputs"], "Every stage of a request, every way to run without end or to take memory, and every combination of limits.",
     "No stable test runs a script, and those in the repository try one loop per limit.",
     [WK, XC, "src/security/heap_limit.rs", "src/security/cpu_enforcer.rs", "src/security/timeout_guard.rs", PO],
     [("is_terminated, check_termination_reason", WK), ("the same, for the pool", XC), ("near_heap_limit_callback", "src/security/heap_limit.rs")], "rt",
     "All transitions of one request (and of the requests after it on the same isolate) against limits of one kind and of two, for a Worker "
     "and through the pool, 11 ways to run without end; real time, so a mismatch has to recur twice alone.")
prop("T03", "A CPU timer measures the work of its own thread, exactly",
     "The time a CPU timer reports is how far the CPU clock of its thread has come since it was started, to the nanosecond and however "
     "long that is: waiting, time passing and the work of other threads do not count, it never goes back, and several timers do not "
     "affect each other. Where the clock cannot be read, no time is known, and a timer reports none rather than a wrong one.",
     ["histories", "inputs"], "Every sequence of work, waiting and readings, on any number of threads, and any amount of time.",
     "No stable test uses a CPU timer.",
     ["src/security/cpu_timer.rs"], [("thread CPU clock", "src/security/cpu_timer.rs")], "sec",
     "All sequences of up to 6 steps of 2 threads and 2 timers; random behaviours of 4 threads and 6 timers with times of "
     "up to 10^7 seconds. The clocks are moved by the check (libc's clock_gettime is replaced); a timer is read on the thread that started it.")
prop("V01", "An ArrayBuffer made of bytes has those bytes, its own, for as long as it lives",
     "A buffer made for a script from a vector has exactly the vector's length and bytes, of whatever size and with whatever spare capacity; "
     "it can be written and transferred; what happens to one buffer shows in no other; its bytes stay until it is collected, and "
     "their memory is then given back once.",
     ["histories", "inputs"], "Every size and every order of making, writing, transferring, dropping and collecting buffers.",
     "No stable test makes such a buffer.",
     ["src/v8_helpers.rs"], [("create_array_buffer_from_vec", "src/v8_helpers.rs")], "sec",
     "All transitions of 2 buffers of 4 sizes and 3 spare capacities, up to 3 made; random behaviours of 6 buffers of 14 sizes. "
     "Without the sandbox feature of V8.")
WA = "src/runtime/bindings/web_api.rs"
prop("W01", "Headers, URLSearchParams, FormData and a URL's query keep the pairs put in",
     "A list of names and values (Headers, URLSearchParams, FormData, the searchParams of a URL) answers get, getAll, has, size, keys, values, "
     "entries and forEach with the pairs put into it, in order: append adds one, set leaves exactly one of its name in the place of the first, "
     "delete removes all of a name and no other, sort orders by code units and keeps equals in order. Headers have no case and join "
     "their values with a comma, except cookies and challenges, which stay apart. A list made from another one, from pairs, a record, "
     "a Map, its text or a message has the same pairs and shares nothing with it; what a list hands out can be changed without changing "
     "the list. A query that is written and parsed is the same list, any text parses (with what is no escape standing for itself), and a "
     "URL whose query changes keeps all else.",
     ["histories", "inputs"], "Every sequence of operations on two lists, every name and value, and every text of a query.",
     "No stable test touches these classes.",
     [WA], [("Headers, URLSearchParams, URL, FormData", WA)], "web",
     "All sequences of up to 4 operations on two lists of up to 3 pairs; random behaviours with 40 pairs and unusual names and values; all "
     "query texts of up to 4 pieces.")
prop("W02", "An abort signal aborts once, for the first reason, and tells who still listens",
     "A signal (of a controller, aborted from the start, or with a time limit) aborts at most once, with the first reason it is given, "
     "whatever value that is, or an AbortError or TimeoutError where none is given; aborted, reason and throwIfAborted agree at all times. Each "
     "listener there is at that moment is called once, in the order they were added, whatever the others do (throw, abort again, "
     "add others, remove some); one removed before its turn is not called, nor is one added meanwhile; signals do not affect each other.",
     ["histories", "schedules"], "Every history of listening, aborting and time passing, and everything a listener may do.",
     "No stable test aborts anything.",
     [WA], [("AbortSignal, AbortController", WA)], "web",
     "All sequences of up to 5 steps of one signal with up to 3 listeners of 8 kinds; random behaviours of 5 signals with up to 12.")
prop("W03", "structuredClone copies a value whole, and shares nothing with it",
     "A clone is made of new objects only, one for each object the value reaches, each of the same kind (record, array with its gaps, Map, Set, "
     "Date, RegExp, Error, boxed primitive, ArrayBuffer, typed array, DataView) with the same content, order and keys, referring to each "
     "other exactly as those do: what is shared is shared once, a cycle is a cycle, views of one buffer are views of one buffer, at "
     "their place in it. What happens to one later does not show in the other, cloning changes nothing and runs no constructor, and a value "
     "that reaches something without a copy (function, symbol, promise, weak map) is refused whole with a DataCloneError.",
     ["inputs", "histories"], "Every graph of objects, and everything that can be done to original and clone afterwards.",
     "No stable test clones anything.",
     [WA], [("structuredClone", WA)], "web",
     "All graphs of up to 3 objects with up to 2 entries, by kind of link, of content and of view; random behaviours of up to 24 (thorough 50) objects. "
     "Not: transfer lists (the code says it ignores them), properties set on arrays and maps besides their entries, detached buffers.")
prop("W04", "A Blob or File keeps the bytes it was made of, whatever happens to them",
     "A Blob has the bytes of its parts in order, as they were when it was made (texts as UTF-8, buffers, exactly the window of a view, other "
     "blobs), with their number as its size; a slice has exactly the bytes between its ends, counted from the end where negative and kept "
     "within the blob, with the type given; a File has its name and date besides. However it is read (arrayBuffer, text, stream, as the body of a "
     "message) one gets those bytes, and nothing done to the sources or to what was read changes the blob or what others read.",
     ["histories", "inputs"], "Every list of parts and every slice, and everything done to sources and results.",
     "No stable test makes a Blob.",
     [WA], [("Blob, File", WA)], "web",
     "All blobs of up to 2 parts of 12 forms with what happens next; all slices by 10 ends of one blob, of slices; random behaviours of 3 "
     "blobs made of each other.")
prop("W05", "btoa and atob are exact inverses, and refuse what has no encoding",
     "btoa gives the base64 of a text of bytes, and atob gives back exactly that text, whatever its length and content; spaces in between and missing "
     "padding do not matter to atob, and it takes the URL alphabet too; a text with a character beyond a byte has no encoding, and one with a "
     "character that is none of base64's, with padding elsewhere than at its end, or of impossible length no decoding: both are an "
     "InvalidCharacterError. What is no text is made one.",
     ["inputs"], "Every text.",
     "No stable test encodes anything in base64.",
     [WA], [("btoa, atob", WA)], "web",
     "All texts of up to 3 of 7 units (btoa) and 14 characters (atob; thorough: 4); random ones of up to 40 bytes, their encodings, encodings spoilt in one place, noise.")
prop("W06", "The body of a message is read whole, once, and a clone has all of it too",
     "Reading the body of a Request or Response (text, json, arrayBuffer) gives the bytes of all its chunks in order, of whatever form they "
     "are (texts, buffers, windows of views) and however they arrive, once its source ends; if the source fails, so does the reading. What "
     "was read before, in whole or in part, by whatever reader, fetch or message made of this one, or is being read, is refused with a "
     "TypeError and not given as less; bodyUsed tells. A clone has all that is left when it is made and arrives later, independently of "
     "what is read of the original or done with its chunks.",
     ["histories", "schedules"], "Every history of reading, cloning, sharing and feeding bodies.",
     "No stable test makes a message.",
     [WA, "src/runtime/streams.rs"], [("Request, Response", WA), ("tee", "src/runtime/streams.rs")], "web",
     "All behaviours of up to 4 steps of two messages of one body, by form of body and with live sources; random behaviours of 8 messages with up "
     "to 30 bodies. Reading no body twice, and making a message of one that was read, are left open.")
prop("W07", "A form sent as a body and read back has the same entries",
     "A FormData given as the body of a Request or Response and read back by formData() has the same entries in the same order: every name, "
     "every value and every file with its name, type and bytes, whatever they contain. What other clients write is read the same (parts' "
     "headers in any order and case, names without quotes, a preamble, an epilogue, a quoted boundary, contents that resemble the "
     "delimiter), as is a form in URL encoding; a body that is cut off, malformed or no form at all is refused with a TypeError, not read "
     "as fewer entries.",
     ["inputs"], "Every form, and every text that calls itself one.",
     "No stable test makes or reads a form.",
     [WA], [("FormData, formData()", WA)], "web",
     "All forms of up to 2 entries over names, contents and files with the characters that matter to the syntax; all ways to write and to spoil "
     "a text in one or two places; random forms of up to 8 entries. Names that contain a literal %22, %0A or %0D, which the standard itself "
     "confuses with the characters they stand for, are left out.")
prop("E08", "What is sent is whole: a body that was read is refused wherever it goes",
     "A request the script sends (fetch, a bound worker or assets, storage) and the response it gives carry the whole body of what they were "
     "made of. A body that was read before, in whole or in part, by a reader or a method, that was cancelled, sent before, or is locked to a "
     "reader, is refused: the call is a rejection and the host is asked nothing, the response is an error of status 500; it is never sent as "
     "what is left of it. A clone, read or not, takes nothing from what is sent; nor does a lock that was released unread. This is so for "
     "what the script made and for what it was given by fetch, in every style of handler.",
     ["histories"], "Every history of what is done to a message before it is sent.",
     "No stable test runs a script.",
     [WK, WA, FE, "src/runtime/streams.rs"], [("__streamResponseBody", WK), ("__bufferBody, __normalizeFetchInput", WA)], "msg",
     "All transitions of one message between what is done to it and how it is sent, over the forms of messages and bodies, and long walks "
     "through them, through the pool as well.")
prop("W08", "A URL's parts are those of its text, relative or not, and follow what is changed",
     "The parts of a URL (protocol, username, password, host, hostname, port, pathname, search, hash, origin, searchParams) are those of the "
     "text it is made of, whatever characters its path, query and fragment contain, with host and protocol in lower case, no default port "
     "and no . or .. in its path; a text given with a base is resolved against it (RFC 3986), the base being left as it is. A part that is "
     "assigned is changed, so are the parts made of it (host, origin, href, searchParams, which stays the same object), and no other; "
     "href is a text of just these parts, so that a request made of the URL goes there. What is no URL is refused with a TypeError, and "
     "leaves what it was assigned to as it was.",
     ["inputs", "histories"], "Every text, every base, every history of assignments.",
     "No stable test makes a URL.",
     [WA], [("URL", WA)], "web",
     "21 texts, 10 that are none, 23 references against each other and their results, all parts assigned, to 2 steps (thorough: 3); random "
     "behaviours of 100 steps. URLs without an authority (mailto:), and which characters are written as escapes, are left open.")
