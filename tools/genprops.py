#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": None}})
S = "src/arpc/"
p("S01", "Binary serialization round-trips every value of every supported type",
  "For every supported type (arithmetic and enum scalars, strings, sequences, arrays, sets and maps of every kind, tuples, pairs, plain aggregates, optionals, unique pointers, chrono durations and time points, classes with declared fields, base classes or custom save/load) and every value, decoding what an encoder of the same byte order wrote yields an equal value and consumes exactly the bytes that were written. "
  "It holds for any number of values written back to back with one encoder, whatever the target object held before, and whichever input stream the bytes come from.",
  ["inputs", "programs", "histories"], "All values of all types composed of the supported ones (including containers with 128 or more elements), both byte orders, any sequence of values on one stream.",
  "The suite has no serialization test at all: only type hashes and traits are asserted; the examples encode one value each and decode none.",
  [S+"binary_codecs.h", S+"serializable_base.h", S+"traits/container_traits.h", S+"traits/type_traits.h", S+"string_adapters.cpp", S+"iostream_adapters.cpp", S+"io_adapters.cpp"],
  [("binary_encoder / binary_decoder overload sets", S+"binary_codecs.h"), ("read_variant / write_variant", S+"binary_codecs.h")],
  ["value handed to the encoder vs value produced by the decoder", "input stream position after decoding"])
p("S02", "Serialized bytes follow one portable, documented wire format",
  "The bytes an encoder writes depend only on the value and its structure: scalars in the encoder's byte order at their natural width, container sizes and object/class ids as 7-bit little-endian groups with a continuation bit, no size for arrays/tuples/pairs/aggregates, one-byte presence flags, chrono types as 64-bit tick counts, classes as bases first, then declared fields in order, then custom data. "
  "The two byte orders differ only in the order of the bytes of multi-byte scalars, and values whose types share a structure (vector/list/deque/string-like, set kinds, map kinds, pair/tuple/aggregate/struct-with-the-same-elements) encode to the same bytes.",
  ["inputs", "programs"], "All values of all types composed of the supported ones, both byte orders.",
  "No test looks at encoded bytes, so a change made symmetrically to encoder and decoder passes everything while breaking every stored file and every peer that was not rebuilt.",
  [S+"binary_codecs.h", S+"serializable_base.h", S+"config.h"],
  [("write_block / write_variant / save_fields / save_base_classes", S+"binary_codecs.h"), ("little/big endian codec selection", S+"binary_codecs.h")],
  ["bytes on the output stream, against an independent reference encoder"])
p("S03", "Pointer graphs keep their shape, sharing and dynamic types",
  "Serializing any graph of objects reached through shared, weak and unique pointers - with nulls, sharing, self references, cycles and pointers to registered polymorphic classes through base-class pointers - and decoding it yields an isomorphic graph: two decoded pointers are equal exactly when the originals were, each object has its original dynamic type and field values, and each object is stored once and created once. "
  "A weak pointer to an object that some decoded strong pointer owns refers to that object, and all decoded objects are released when the last owner goes away.",
  ["inputs", "programs", "histories"], "All finite object graphs over static and polymorphic node classes, any size and sharing pattern, one or many roots per encoder, both byte orders.",
  "No test encodes a pointer; isomorphism over all graphs cannot be sampled by hand-written examples.",
  [S+"binary_codecs.h", S+"registry.h", S+"registry.cpp", S+"dynamic_base_class.h", S+"serializable.h"],
  [("shared_object_map_ / shared_object_vector_ object ids", S+"binary_codecs.h"), ("class_info_map_ / class_info_vector_ class ids", S+"binary_codecs.h"), ("dynamic_object_factory, dynamic_subclass_registry", S+"registry.h")],
  ["pointer equality classes and dynamic types of decoded graph", "constructor/destructor counts of node classes", "encoded bytes"])
p("S04", "Decoding arbitrary bytes is safe: a value or an exception, nothing else",
  "For every byte string and every supported target type, decoding either produces a well-formed value or throws a C++ exception; it never reads or writes out of bounds, never triggers undefined behaviour, never creates an object whose dynamic type does not fit the pointer it is stored in, never reports success when the input ended early, and leaves the target destructible and reusable.",
  ["inputs", "fault_sequences"], "All byte strings (truncations, bit flips, spliced and random streams, hostile ids, sizes, flags and class names) times all supported target types and both byte orders.",
  "Tests never decode anything, and memory safety over all inputs is not observable without instrumentation.",
  [S+"binary_codecs.h", S+"registry.h", S+"io_adapters.cpp", S+"result_holder.h"],
  [("id range checks, class name / subclass / hash checks, read_fully", S+"binary_codecs.h"), ("is_subclass, check_dynamic_compatibility", S+"registry.h")],
  ["sanitizer reports", "exception type or resulting value, against a reference decoder"])
p("S05", "Structure verification accepts exactly the structurally identical types",
  "The type hash is a fixed function of a type's serialized structure - scalar kind, signedness and width, container kind, element types, field and base order and count, function signature and constness - and never of names, container implementation or byte order. "
  "A value written with structure verification decodes under every type with the same structure and is refused with a data mismatch, before any of the value is decoded, under types of a different structure (and so is a polymorphic object whose class's recorded hash differs).",
  ["programs", "inputs"], "All types composed of the supported ones, pairs of writer and reader types, both byte orders.",
  "type_hash_test.cpp pins hashes of about thirty fixed types; nothing checks the verified encode/decode path, and the space of types is unbounded.",
  [S+"type_hash.h", S+"binary_codecs.h", S+"traits/serialization_traits.h", S+"traits/container_traits.h"],
  [("type_hash / new_type_hash", S+"type_hash.h"), ("verify_structure overloads", S+"binary_codecs.h")],
  ["hash values against an independent model over generated types", "result of verified decode for writer/reader type pairs"])
p("S06", "Streams deliver exactly the bytes, in order, and report end of input",
  "Bytes written through any output stream (block or single-byte writes, in any mix) come out of any input stream over the same data as the same sequence under any mix of block and single-byte reads, with the position advancing by exactly what was delivered. "
  "A short read happens only at end of input and returns the bytes that were left, reading exactly n bytes or one byte when fewer are left throws eof, positioning past the end is refused without moving, and a failing underlying stream surfaces as an io error; implementations that provide only single-byte or only block operations get the other with the same meaning.",
  ["inputs", "histories", "fault_sequences"], "All byte contents (including NUL and 0xff), all operation sequences, all stream implementations and positions, faults of the underlying iostream.",
  "There is no test of any stream adapter.",
  [S+"io_adapters.h", S+"io_adapters.cpp", S+"string_adapters.h", S+"string_adapters.cpp", S+"iostream_adapters.h", S+"iostream_adapters.cpp"],
  [("default read/getc and write/putc in terms of each other; read_fully", S+"io_adapters.cpp"), ("string and iostream streams", S+"string_adapters.cpp")],
  ["bytes, counts, positions and exceptions per operation against a reference byte sequence"])
p("S07", "Results and errors survive serialization with value, class and message",
  "A result (value, void, error or empty) that is serialized and decoded in another place behaves like the original: a value is delivered unchanged, an error of any registered class is rethrown as that same class with the same message, a foreign standard exception arrives as an unknown error with its message, an error class the receiver does not know arrives as an unknown error, and an empty result is refused as invalid when accessed. "
  "Class names and registration are one-to-one, and holding, moving, swapping and resetting results never mixes up, duplicates or loses value and error.",
  ["inputs", "histories"], "All registered error classes and foreign exceptions, all messages, all value types, all operation sequences on result holders, both byte orders.",
  "No test touches errors, the error registry or result holders.",
  [S+"errors.h", S+"errors.cpp", S+"result_holder.h"],
  [("error_factory::throw_error / analyze_exception / register_error_class", S+"errors.cpp"), ("result_holder save/load", S+"result_holder.h")],
  ["outcome of accessing decoded results against a model of value/error/empty"])
p("F01", "flat_set and flat_map behave as ordered unique associative containers",
  "After any sequence of operations (construct from range or list, insert single/hint/range, emplace, operator[], at, erase by key/iterator/range, clear, reserve, find, count, bounds, equal_range, copy, move, swap) a flat_set or flat_map holds exactly what std::set or std::map would hold under the same comparator, iterates in strictly increasing key order, and every return value (found position, inserted flag, erased count, next position, exception) agrees. "
  "This includes lookup values that convert to the key, hints that are wrong, and arguments that alias elements already in the container where the standard containers allow them.",
  ["histories", "inputs"], "All operation histories, key multisets, initial orders and comparators.",
  "flat_set_test and flat_map_test run a few fixed short histories with small integers and the default comparator.",
  [S+"container/detail/flat_tree.h", S+"container/flat_set.h", S+"container/flat_map.h"],
  [("sorted vector + lower_bound insertion, sort+unique on bulk construction", S+"container/detail/flat_tree.h")],
  ["return values and full contents after each operation, against std::set/std::map"])
p("F02", "flat_multiset and flat_multimap keep every duplicate, ordered by key",
  "After any sequence of operations a flat_multiset or flat_multimap holds exactly the same multiset of elements as std::multiset or std::multimap would, sorted by key under its comparator, and lookups (find, count, bounds, equal_range) delimit exactly the elements with an equivalent key. "
  "Erasing by key removes all equivalents and returns how many, erasing by position or range removes exactly those, and insertion returns a position holding the inserted element.",
  ["histories", "inputs"], "All operation histories, key multisets with many duplicates, initial orders and comparators.",
  "flat_multiset_test and flat_multimap_test run a few fixed short histories.",
  [S+"container/detail/flat_tree.h", S+"container/flat_set.h", S+"container/flat_map.h"],
  [("lower_bound/upper_bound/equal_range over a sorted vector", S+"container/detail/flat_tree.h")],
  ["return values and contents after each operation against a reference multimap, per-key groups compared as multisets"])
p("F03", "Flat containers are regular values: copy, move, swap, comparator, exceptions",
  "Copying a flat container gives an equal and fully independent one, moving transfers the contents (also of move-only elements) without copying them, swap and assignment exchange or replace contents together with the comparator that ordered them, and each container keeps ordering by the comparator it was given. "
  "Elements are never leaked, destroyed twice or used after destruction, also when an element's copy, move or comparison throws in the middle of an operation.",
  ["histories", "inputs", "fault_sequences"], "All histories of value operations between containers with different comparators states and element types, with a throw injected at any element operation.",
  "Existing container tests use integers and stateless comparators, never move-only or throwing elements, and never look at a container after copy, move or swap with its own comparator state.",
  [S+"container/detail/flat_tree.h", S+"container/flat_set.h", S+"container/flat_map.h"],
  [("copy/move/swap of data and comparator", S+"container/detail/flat_tree.h")],
  ["contents and comparator behaviour after each value operation", "live-object ledger of instrumented elements", "sanitizer reports"])
p("K01", "COBS framing is a zero-free, bounded-overhead, invertible encoding",
  "For every byte string, COBS-encoding produces no zero byte, is at most one byte plus one byte per started 254-byte block longer than the input, equals the standard COBS encoding, and decoding it returns the original string. "
  "Decoding any other byte string either throws a data mismatch or yields a string no longer than its input, without touching memory outside the data.",
  ["inputs"], "All byte strings: all lengths around multiples of 254, all zero patterns, arbitrary and truncated decoder inputs.",
  "The packet codecs have no tests.",
  [S+"packet_codecs.h", S+"packet_codecs.cpp"],
  [("in-place backward encode with run counts; forward decode", S+"packet_codecs.cpp")],
  ["encoded bytes against a textbook COBS encoder", "decode result against a reference decoder", "sanitizer reports"])
p("K02", "MAC-protected packets are accepted exactly when they are untouched",
  "A packet protected with the message authentication codec is the original data followed by the 64-bit keyed HighwayHash of that data in little-endian order, and decoding it with the same key returns exactly the original data. "
  "Any truncation, extension, bit flip or reordering of the packet, and any packet protected under a different key, is refused with a data mismatch.",
  ["inputs", "fault_sequences"], "All payloads (including empty), all keys, all single and multiple modifications of the protected packet.",
  "The packet codecs have no tests; the quantifier is over all payloads and tamperings.",
  [S+"packet_codecs.h", S+"packet_codecs.cpp", S+"highway_hash.cpp"],
  [("mac_codec::encode / decode", S+"packet_codecs.cpp")],
  ["bytes against independent hash", "accept/refuse outcome for each tampered packet"])
p("K03", "Packet protocols deliver each packet intact, in order, and resynchronise",
  "Over any byte stream, the sequence of packets received equals the sequence sent, with their boundaries, for every packet content (including empty, zeros and large packets), and no packet is delivered that was not sent. "
  "On the serial-line protocol a corrupted or garbage frame is refused with an error and the next intact frame after its zero delimiter is delivered normally, and a packet over the configured maximum is refused; on either protocol a stream that ends inside a packet reports end of file rather than a short packet.",
  ["inputs", "fault_sequences", "histories"], "All packet sequences and contents, all corruptions, truncations and garbage between frames, all chunkings of the underlying stream.",
  "The packet protocols have no tests.",
  [S+"packet_protocols.h", S+"packet_codecs.cpp", S+"binary_codecs.h"],
  [("serial_line_packet_protocol: MAC inside COBS, NUL delimiter", S+"packet_protocols.h"), ("protected_stream_packet_protocol: length prefix", S+"packet_protocols.h")],
  ["sequence of sent packets vs received packets/errors, byte stream between them"])
p("K04", "HighwayHash results equal the published algorithm for all inputs and chunkings",
  "For every key and every message the 64-, 128- and 256-bit hashes equal those of the published HighwayHash algorithm, they depend only on key and message bytes, and feeding the message in any split of appended pieces (including empty ones) gives the same result as hashing it at once. "
  "Hashing reads exactly the message bytes and nothing outside them.",
  ["inputs", "histories"], "All keys, all message lengths modulo the 32-byte packet size and all remainders, all append splits.",
  "There is no hash test; an error confined to particular remainder lengths or append splits is invisible to packet round-trips because both ends share it.",
  [S+"highway_hash.h", S+"highway_hash.cpp"],
  [("update_packet / update_remainder / finalize / append", S+"highway_hash.cpp")],
  ["hash outputs against an independent implementation anchored in published test vectors", "sanitizer reports on exact-size buffers"])
p("M01", "Compile-time sequence algorithms agree with their run-time meaning",
  "For every sequence (types, integers, values, tuples, pairs, aggregates) the meta-programming toolkit's size, element access, conversion, transform, for_each, accumulate, range/subset, cat/insert/filter/find/count operations return what the same operation on the list of elements returns, visit every element exactly once in order, and forward references and values with the right category. "
  "Preprocessor iteration and conditionals expand to exactly one expansion per element, in order, with separators only between elements, and declared enum and field names map to their members.",
  ["programs"], "All sequences of supported kinds up to the supported arity and all operations on them.",
  "Only container/type/serialization traits and type hashes are asserted statically; mpt and the preprocessor toolkit have no tests of their own.",
  [S+"mpt.h", S+"preprocessor.h", S+"enum.h", S+"serializable_base.h", S+"traits/trait_factories.h"],
  [("mpt algorithms", S+"mpt.h"), ("ARPC_FOREACH / ARPC_FOR / ARPC_IF", S+"preprocessor.h"), ("enum traits", S+"enum.h")],
  ["values printed by generated programs, against the expected list computed by the generator"])
p("A01", "Flags: setting wakes every waiter, resetting holds them, nothing is lost",
  "A flag reads as set exactly when the last completed set or reset was a set; a wait completes only at a moment when the flag was set and every wait pending when the flag is set and stays set completes. "
  "Setting and resetting are idempotent, never block, and work in whatever context they are called from, including a cancelled or expired one.",
  ["schedules", "histories"], "All interleavings of set, reset, query, wait and asynchronous wait from many threads and contexts.",
  "flag_test.cpp runs one scripted sequence and is not built here; interleavings and cancelled contexts are never driven.",
  [S+"flag.h", S+"flag.cpp", S+"pipe.cpp", S+"channel.cpp"],
  [("bool under mutex mirrored by one byte in a pipe", S+"flag.cpp")],
  ["recorded call/return history checked against a boolean register", "sanitizer reports"])
p("A02", "Mutexes exclude each other and never lose a wake-up",
  "At most one holder is inside a mutex at any time whichever of the locking calls (blocking, try, maybe, asynchronous) acquired it, everything the previous holder wrote is visible to the next, and a free mutex is eventually granted to some waiter. "
  "A lock attempt that fails, times out or is cancelled leaves the mutex as it was; unlocking always releases, also from a cancelled context.",
  ["schedules", "fault_sequences"], "All interleavings of lockers and unlockers over threads, with timeouts and cancellations at any point.",
  "mutex_test.cpp runs one scripted sequence and is not built here.",
  [S+"mutex.h", S+"mutex.cpp", S+"select.h"],
  [("one token in a non-blocking pipe", S+"mutex.cpp")],
  ["critical-section occupancy counter and non-atomic data under the lock", "thread sanitizer with the lock as only synchronisation", "progress of waiters"])
p("A03", "Queues and semaphores deliver each item exactly once, in order, within bounds",
  "Every item put into a queue is obtained by exactly one get, items of one producer are obtained in the order it put them (and globally in the order the queue accepted them), and the queue never holds more items than its capacity; a semaphore likewise never grants more than its bound. "
  "A put or get that fails, times out or is cancelled has no effect on the queue, blocked operations proceed as soon as there is room or an item, and size, empty and full report the state.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of producers and consumers, all capacities, blocking/maybe/asynchronous operations in composed selects, timeouts and cancellations at any point.",
  "Queues have no tests.",
  [S+"queue.h", S+"semaphore.h", S+"flag.cpp", S+"select.h"],
  [("std::queue under a mutex with can_get/can_put flags", S+"queue.h")],
  ["put/get history with unique items checked for conservation, FIFO and bounds", "sanitizer reports"])
p("A04", "A future yields its promise's outcome exactly once",
  "The outcome stored through a promise - value or exception - is what the future delivers, to one get, once, after the transformations attached to the future in the order they were attached; before that, waiting blocks and polling says try again. "
  "A promise destroyed without an outcome delivers a broken-promise error, a second outcome or use of an empty future is refused as invalid, and neither side's destruction at any time leaks or touches freed state.",
  ["schedules", "histories"], "All interleavings of set, get, chained transformations, moves and destruction of both ends over threads and contexts.",
  "Futures have no tests.",
  [S+"future.h", S+"future.cpp", S+"function.h", S+"result_holder.h"],
  [("future_state_base reader/writer release", S+"future.cpp"), ("promise state handed over on first outcome", S+"future.h")],
  ["outcome per promise/future pair", "live-object ledger", "sanitizer reports"])
p("A05", "select reports exactly the ready events and runs each reaction at most once",
  "A select returns only when at least one of its inputs is ready, its timer has elapsed, or its context is cancelled or past its deadline; each returned slot holds the result or exception of that input's reaction if it was ready and is empty otherwise, every reaction runs at most once per completed event and never for an input that was not ready. "
  "Timers never fire early, an input that says try again is waited on further without disturbing the others, timeouts and deadlines still apply however often that happens, and a select that ends in cancellation has run no reaction whose result is lost.",
  ["inputs", "schedules", "histories"], "All combinations of readable/writable descriptors, timers, pollers, never/always, vectors of inputs, attached reactions and error handlers, in any context state.",
  "awaitable_test.cpp covers ten scripted cases, is not built here, and never cancels a context or makes several inputs ready under contention.",
  [S+"select.h", S+"awaitable.h", S+"function.h", S+"wait.cpp"],
  [("poll loop with cancellation and deadline awaitables appended", S+"select.h"), ("compose_pipe/compose_wrap/compose_catch", S+"function.h")],
  ["which slots are set, reaction invocation log, elapsed lower bounds, against a model of the prepared readiness"])
p("A06", "Cancellation and deadlines flow down the context tree and nowhere else",
  "Cancelling a context cancels all its descendants, present and future, and no other context; a descendant's deadline is never later than its ancestors' was when it was created and can only move earlier; a shield stops cancellation but keeps data and deadline; context data set in a context is seen by contexts created below it afterwards and not above or beside it. "
  "Any wait inside a cancelled or expired context throws cancelled or deadline exceeded promptly, new threads run in a child of the creator's context (or of the top one for daemons), the current context is restored when a scope ends, and a context's destruction waits for its children.",
  ["histories", "schedules"], "All context trees, orders of creation/cancel/deadline/data/destruction operations, across threads.",
  "Contexts have no tests.",
  [S+"context.h", S+"context.cpp", S+"thread.h", S+"select.h"],
  [("children set, parent links, cancelled flag", S+"context.cpp"), ("wait_cancelled/wait_deadline in every select", S+"select.h")],
  ["cancelled/deadline/data of every live context after each operation, against a tree model", "outcome of waits", "sanitizer reports"])
p("A07", "The thread pool runs every accepted task exactly once",
  "Every task a thread pool accepts is run exactly once on one of its workers while the pool lives, tasks submitted by one thread to a one-worker pool run in submission order, a task that throws harms neither the worker nor other tasks, and no more tasks run at once than there are workers. "
  "A bounded pool blocks submitters rather than dropping or running tasks itself, and destroying the pool ends its workers without running a task twice or touching freed state.",
  ["schedules", "histories"], "All interleavings of submitters and workers, worker counts, queue bounds, throwing and resubmitting tasks, destruction at any time.",
  "The executor has no tests.",
  [S+"executor.h", S+"executor.cpp", S+"queue.h", S+"future.h"],
  [("slots_/pending_ rendezvous under mutex", S+"executor.cpp")],
  ["per-task run counters, concurrency gauge, order log", "sanitizer reports"])
p("A08", "Channels own their descriptor once and move bytes intact",
  "Every descriptor a channel, pipe, file or socket helper opens is closed exactly once - when its last owner is destroyed, reset or assigned over - and never leaked, also on error paths; moved-from channels own nothing and release gives ownership away. "
  "Bytes written to a channel are read at the other end unmodified and in order whatever the chunking, partial transfers and would-block conditions, closing the writer yields end of file after the remaining bytes, failures surface as io errors (would-block as try again), and socket options, files and addresses do what their name says.",
  ["histories", "fault_sequences", "schedules"], "All operation histories over channels; short reads/writes, EAGAIN, EINTR-free syscall failures at any call; concurrent reader and writer.",
  "Channels, pipes, files and sockets have no tests.",
  [S+"channel.h", S+"channel.cpp", S+"pipe.cpp", S+"file.cpp", S+"socket.cpp"],
  [("RAII descriptor with swap", S+"channel.cpp"), ("throw_io_error errno mapping", S+"errors.cpp")],
  ["open/close ledger at the system-call boundary", "byte streams compared end to end", "getsockopt/stat after setting"])
p("A09", "Connections can be torn down at any moment without races or lost errors",
  "Disconnecting, reconnecting or destroying a connection while other threads read, write or wait on it makes those operations finish with an error, never with wrong bytes, a crash or use of freed state, and disconnect returns only when nobody uses the connection any more. "
  "After a successful reconnect operations work on the new connection only; connected() reports the state; bytes written on a live connection arrive complete and in order however large and however the peer drains them.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of use, connect, disconnect and destruction over threads, with peer closes and slow peers.",
  "Connections and usage locks have no tests.",
  [S+"connection.h", S+"connection.cpp", S+"usage_lock.h"],
  [("usage_lock drop waits for users", S+"usage_lock.h"), ("closing_ flag interrupts blocked I/O", S+"connection.cpp")],
  ["per-operation outcome history", "users-after-drop counter", "sanitizer reports"])
p("A10", "Addresses and endpoints denote the same host and port everywhere",
  "Converting between textual endpoints, resolved addresses, socket addresses and their printed form is lossless for IPv4, IPv6 and ports: addresses copy and move as independent values, an accepted or bound socket reports the address that was used, the peer's view agrees, and dialling an endpoint tries its addresses in order until one connects or reports the last failure. "
  "An endpoint that does not resolve produces an error, not an empty success.",
  ["inputs", "histories", "configurations"], "All numeric IPv4/IPv6 endpoints and ports, all value-operation histories on addresses and address lists, loopback sockets.",
  "Addresses, resolver and sockets have no tests.",
  [S+"address.h", S+"address.cpp", S+"address_resolver.h", S+"address_resolver.cpp", S+"socket.cpp", S+"channel.cpp"],
  [("address value type over sockaddr", S+"address.cpp"), ("getaddrinfo wrapper list", S+"address.cpp"), ("dial / listener", S+"socket.cpp")],
  ["getnameinfo/getsockname results vs inputs", "values of copies after mutation", "sanitizer reports"])
p("R01", "Every RPC returns its own result: arguments in, value or error out",
  "A call through a proxy runs the named method of the named object on the server with exactly the given arguments and returns exactly that invocation's result, or rethrows its error with class and message, however many calls from however many threads, proxies and connections are in flight and in whatever order they finish. "
  "Each call that returns a value was executed exactly once and no request is ever executed more than once; synchronous, asynchronous and inherited-interface methods agree.",
  ["schedules", "histories", "inputs"], "All interleavings of concurrent calls on shared and separate connections, all argument values, all method signatures of the generated interfaces, out-of-order completion.",
  "RPC has no tests, only an example making one call.",
  [S+"client.h", S+"server.h", S+"interface.h", S+"message_defs.h", S+"object_name.h"],
  [("request id -> promise map", S+"client.h"), ("(connection, request id) -> request wrapper", S+"server.h")],
  ["call history with unique arguments and tagged results", "server-side execution log"])
p("R02", "Calls that cannot be served fail with the right error and harm nobody else",
  "A call to an unknown or unregistered object, an unknown method or a changed signature fails with a not-found error and runs nothing, undecodable requests or frames cost at most their own connection, and other objects, calls and clients keep working. "
  "After unregistering an object no new call reaches it, and it can be destroyed once the calls already running on it end.",
  ["inputs", "fault_sequences", "histories"], "All wrong names/signatures, malformed frames and requests injected by hostile peers at any time, registration histories.",
  "RPC has no tests.",
  [S+"server.h", S+"client.h", S+"usage_lock.h"],
  [("object and method lookup in execute()", S+"server.h"), ("server_object usage lock", S+"server.h")],
  ["error class per bad call", "execution log", "health of concurrent well-behaved calls", "sanitizer reports"])
p("R03", "Deadlines, cancellation and context data follow the call to the server",
  "The remote method runs in a context that carries the caller's data items and a deadline no later than the caller's (or the configured request timeout), a caller whose deadline passes or which is cancelled gets deadline exceeded or cancelled without waiting for the server, and a cancelled synchronous call cancels the context of the running remote method and of no other call. "
  "Afterwards the connection remains usable and later responses are never mistaken for the abandoned call's.",
  ["schedules", "histories", "fault_sequences"], "All placements of cancellation and deadlines relative to sending, executing and answering, with concurrent unrelated calls.",
  "RPC has no tests.",
  [S+"client.h", S+"server.h", S+"context.h"],
  [("context serialized with each request", S+"context.h"), ("CANCEL_REQUEST message", S+"client.h"), ("request deadlines gc", S+"client.h")],
  ["context as observed inside the remote method", "caller outcome", "cancel events per request on the server"])
p("R04", "Connection and server failure fails every pending call, never hangs it",
  "When the connection or the server goes away in the middle of calls, every pending call completes with an error, no call ever returns another's or a fabricated result, and a later call reconnects if the server is reachable. "
  "Stopping or destroying servers, clients and proxies' connections at any moment with traffic in flight completes without crash, deadlock or use of freed state, and a stopped server can be started again.",
  ["schedules", "fault_sequences", "crash_points"], "All moments of connection reset, server stop/destroy and client destroy relative to in-flight requests; fault injection on sockets.",
  "RPC has no tests, and crash timing cannot be covered by examples.",
  [S+"client.h", S+"server.h", S+"connection.h", S+"connection.cpp"],
  [("broadcast_exception on receive failure", S+"client.h"), ("server stop(): acceptor, reactor, connections teardown", S+"server.h")],
  ["outcome of every call (none open at the end)", "sanitizer reports", "descriptor ledger after teardown"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
