#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after edits)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["src/arpc/"+f for f in files],
                               state=[dict(name=a, meaning=b, where="src/arpc/"+c) for a,b,c in (state or [])],
                               mechanism=[dict(name=a, where="src/arpc/"+b) for a,b in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("S01","Decoding an encoded value yields the value and consumes exactly its bytes",
 "For every serializable value (scalars, enums, strings, sequences, maps and sets, tuples, aggregates, optionals, durations and time points, unique pointers, and classes that list base classes, fields or custom save/load), encoding it to a stream and decoding that stream with the matching byte order yields an equal value, whatever the decoded-into object held before. The decoder consumes exactly the bytes the encoder produced, so values encoded one after another are read back one after another. This holds for every length and content, including empty, 128-element and longer containers.",
 ["inputs","programs"],"every serializable type and value, every container length, every previous content of the target, both byte orders",
 "no test encodes or decodes anything; the suite only pins type traits and type hashes",
 ["binary_codecs.h","serializable.h","serializable_base.h","mpt.h","traits/serialization_traits.h","traits/container_traits.h","traits/type_traits.h"],
 [("binary_encoder::operator()","binary_codecs.h"),("binary_decoder::operator()","binary_codecs.h"),("write_variant / read_variant","binary_codecs.h"),("for_each over bases and fields","mpt.h")],
 observe=["bytes on the output_stream","value in the decoded-into object","input_stream position"])

prop("S02","The wire format is fixed, portable and deterministic",
 "The bytes an encoder emits depend only on the value and the chosen byte order: each scalar occupies exactly its size in that byte order, each dynamic size or object number is a minimal base-128 little-endian number (seven bits per byte, high bit set on all but the last), fixed-size sequences and tuples add no bytes of their own, and flags are one byte 0 or 1. Elements, base classes, fields and custom data appear in declaration or iteration order. The little- and big-endian codecs produce the same bytes on every host.",
 ["inputs","configurations"],"every scalar value and width, every 64-bit size, both byte orders",
 "no test looks at encoded bytes",
 ["binary_codecs.h","config.h","traits/type_traits.h","mpt.h"],
 [("write_block (both variants)","binary_codecs.h"),("write_variant","binary_codecs.h"),("little_endian_/big_endian_ aliases","binary_codecs.h"),("target_is_little_endian","traits/type_traits.h")],
 observe=["bytes on the output_stream"])

prop("S03","Sharing between pointers survives serialization",
 "When several shared or weak pointers in the values given to one encoder refer to the same object, the object is written once and, after decoding with one decoder, the corresponding pointers again refer to one single object; pointers to distinct objects stay distinct, and null pointers stay null. Cycles through shared or weak pointers are reproduced. A reference to an object number that was not assigned yet, or through an incompatible pointer type, is rejected.",
 ["inputs","histories"],"every graph of objects, every order in which pointers are visited, every object number in the input",
 "no test serializes a pointer",
 ["binary_codecs.h","registry.h","container/flat_map.h"],
 [("shared_object_map_ numbering","binary_codecs.h"),("shared_object_vector_ numbering","binary_codecs.h"),("type_id check","registry.h")],
 state=[("shared_object_map_","address to object number, 0 is null","binary_codecs.h"),("shared_object_vector_","object number to object and type","binary_codecs.h")],
 observe=["addresses held by decoded pointers","bytes on the output_stream"])

prop("S04","Polymorphic objects come back as their own class or are rejected",
 "An object of a registered dynamic class encoded through a pointer to any of its registered base classes is decoded as an object of the same concrete class with the same contents. A class name that is not registered, a structure hash that differs from the local class, a class that is not derived from the pointed-to type, or a class number that was never assigned makes decoding throw, and no object of a wrong class is ever handed out. The class name and hash are written only the first time a class occurs in a stream.",
 ["inputs","histories","programs"],"every registered hierarchy, every order of class occurrences, every class number, name and hash in the input",
 "no test serializes a dynamic class",
 ["binary_codecs.h","registry.h","registry.cpp","dynamic_base_class.h","dynamic_base_class.cpp"],
 [("save_/load_dynamic_object_reference","binary_codecs.h"),("dynamic_object_factory, dynamic_subclass_registry, encoder and decoder registries","registry.h")],
 state=[("class_info_map_ / class_info_vector_","class numbering within one stream","binary_codecs.h")],
 observe=["dynamic type of decoded object","exception thrown"])

prop("S05","Truncated or malformed input is rejected without memory errors",
 "Decoding any byte string into any supported type either succeeds or throws an exception: a read that would pass the end of the input throws the end-of-file error, and a number that cannot be represented, an unassigned object or class number or a wrong hash throws the data-mismatch error. No input makes the decoder read or write outside its buffers and objects or shift out of range, and decoding ends after a number of steps bounded by the input for element types whose encodings are not empty.",
 ["inputs"],"every byte string as input",
 "no test feeds the decoder anything",
 ["binary_codecs.h","io_adapters.cpp","string_adapters.cpp","packet_codecs.cpp"],
 [("read_variant","binary_codecs.h"),("object_id / class_id range checks","binary_codecs.h"),("read_fully","io_adapters.cpp")],
 observe=["exception type","memory accesses"])

prop("S06","Structure verification accepts exactly matching structures",
 "A value written with structure verification is preceded by the four-byte structure hash of its type, and reading it with verification accepts it only if the stored hash equals the reader's hash for its own type; for every other stored hash the data-mismatch error is thrown before anything of the target is changed. The structure hash depends on the type's structure alone: integers count by size and signedness, equivalent containers and cv-qualified types agree, and the number, order and types of fields, base classes and elements, array lengths and the custom-serialization version each enter it.",
 ["inputs","programs"],"every stored hash value, every pair of types",
 "the tests pin some hash constants but never write or verify one in a stream, and cannot compare all pairs of types",
 ["type_hash.h","binary_codecs.h","traits/serialization_traits.h"],
 [("compute_type_hash","type_hash.h"),("operator()(T, verify_structure, ...)","binary_codecs.h"),("get_custom_serialization_version","traits/serialization_traits.h")],
 observe=["first four bytes","exception thrown"])

prop("S07","COBS framing removes zero bytes and is exactly reversible",
 "For every byte string, the COBS encoder yields a string without zero bytes, longer than the input by one byte plus one for every full run of 254 non-zero bytes, and the COBS decoder turns it back into exactly the original. The decoder throws the data-mismatch error for an empty packet and for one that ends inside a block. Neither direction reads or writes outside the packet, whatever it is given.",
 ["inputs"],"every packet, of every length and content, in particular runs around 254 bytes",
 "no test runs the codec, and run boundaries multiply beyond samples",
 ["packet_codecs.cpp","packet_codecs.h"],
 [("cobs_codec::encode","packet_codecs.cpp"),("cobs_codec::decode","packet_codecs.cpp")],
 observe=["encoded string","decoded string","exception thrown"])

prop("S08","MAC framing accepts exactly packets with the right keyed hash",
 "The MAC encoder appends the eight bytes of the little-endian keyed 64-bit hash of the packet and changes nothing else; the decoder accepts a packet if and only if its last eight bytes are that hash of the bytes before them under the same key, and then returns exactly those bytes. Packets shorter than eight bytes and packets with any other trailer make it throw the data-mismatch error. One codec object can be used for any number of packets in either direction without one affecting the next.",
 ["inputs","histories"],"every packet, every trailer, every key, every sequence of uses",
 "no test runs the codec",
 ["packet_codecs.cpp","packet_codecs.h","highway_hash.h"],
 [("mac_codec::encode","packet_codecs.cpp"),("mac_codec::decode","packet_codecs.cpp")],
 observe=["encoded string","exception thrown"])

prop("S09","The keyed hash is HighwayHash, for any split of the data",
 "For every 256-bit key and every byte string, the 64-, 128- and 256-bit results equal the published HighwayHash function of that key and string. The result does not depend on how the string was split over successive append calls, asking for a result neither changes later results nor stops further appending, and a copied or reset hash continues from its own state.",
 ["inputs","histories"],"every key, every byte string, every way of splitting it, every sequence of append and result calls",
 "no test computes a hash",
 ["highway_hash.h","highway_hash.cpp"],
 [("append / process_all","highway_hash.cpp"),("update_packet, update_remainder, permute_and_update, finalize","highway_hash.cpp")],
 state=[("buffered partial packet","bytes appended since the last full 32-byte packet","highway_hash.h")],
 observe=["result64 / result128 / result256"])

prop("S10","Packet protocols deliver the same packets in the same order",
 "Packets sent one after another through a packet protocol over a byte stream are received as exactly the same packets in the same order by the matching protocol, and every send ends with a flush. On a serial line each packet is one zero-terminated frame holding the zero-free encoding of packet plus keyed hash; a frame that was corrupted makes receive throw and leaves the reader at the start of the next frame, so later packets still arrive, and a frame longer than the configured maximum is rejected. A stream that ends inside a packet makes receive throw the end-of-file error.",
 ["inputs","histories"],"every sequence of packets, every corruption and every cut of the stream, every maximum size",
 "no test sends a packet",
 ["packet_protocols.h","packet_codecs.h","packet_codecs.cpp"],
 [("serial_line_packet_protocol::send / receive","packet_protocols.h"),("protected_stream_packet_protocol::send / receive","packet_protocols.h")],
 observe=["bytes on the stream","received packets","exception thrown"])

prop("S11","Flat containers behave as the ordered associative containers they stand for",
 "After any sequence of insertions, emplacements, erasures, lookups and bulk operations, a flat set, map, multiset or multimap holds the same elements, in key order by its comparator, as the standard associative container would; unique containers never hold two equivalent keys. find, count, contains-style lookups, lower_bound, upper_bound, equal_range, at and operator[] answer as that container would, insertions report whether something was inserted and where, and erase removes exactly what it names and returns what follows.",
 ["inputs","histories"],"every sequence of operations, every strict weak order, every key, every size",
 "the tests run fixed sequences on a few small containers",
 ["container/flat_tree.h","container/flat_map.h","container/flat_set.h"],
 [("flat_tree sorted-vector invariant","container/flat_tree.h"),("flat_map::operator[], at, try_emplace","container/flat_map.h")],
 state=[("underlying sequence","sorted by comparator, unique if required","container/flat_tree.h")],
 observe=["iteration order","return values"])

prop("S12","Flat containers are values: copying, moving and swapping carry the order along",
 "A copied, assigned, moved or swapped flat container holds the same elements under the same ordering as its source had, later changes to one never show in the other, and all later lookups and insertions in the result use the source's comparator.",
 ["inputs","histories"],"every container content, every stateful comparator, every copy, move and swap",
 "the tests use stateless comparators only, for which a lost comparator cannot be seen",
 ["container/flat_tree.h","container/flat_map.h","container/flat_set.h"],
 [("copy and move constructors and assignments, swap","container/flat_tree.h")],
 state=[("comparator","ordering of the container","container/flat_tree.h")],
 observe=["iteration order","lookups after copy or move"])

prop("S13","Stream adapters deliver bytes in order, once, and report the end",
 "Bytes written to an output adapter appear in its target in order and exactly once, however they were split into put and write calls; an input adapter returns the source's bytes in order and exactly once. read returns how many bytes it delivered and delivers fewer than asked only at the end of the input, and getc and read_fully throw the end-of-file error exactly when the input does not hold enough bytes; a read position past the end of a string is refused. A broken underlying stream surfaces as the I/O error rather than as data or as end of file.",
 ["inputs","histories","fault_sequences"],"every byte string, every split into calls, every point at which the input ends or the stream fails",
 "no test uses an adapter",
 ["io_adapters.cpp","io_adapters.h","string_adapters.cpp","string_adapters.h","iostream_adapters.cpp","iostream_adapters.h"],
 [("input_stream::read, getc, read_fully; output_stream::write, putc","io_adapters.cpp"),("string_input_stream, string_output_stream","string_adapters.cpp"),("istream_input_stream, ostream_output_stream","iostream_adapters.cpp")],
 observe=["bytes returned","return value of read","exception thrown"])

prop("S14","Errors keep their class and message across the wire",
 "Every error class reports its own stable portable name, and throwing an error by that name and a message throws that very class with that message; a name that is not registered yields the unknown-error class with the message. Analysing an exception gives its portable name and message, only the message for other standard exceptions, and neither for anything else. A failed system call's error number becomes try-again for would-block codes, nothing for a connection in progress or done, and otherwise the I/O error carrying the given message and the number.",
 ["inputs"],"every registered error class, every message, every errno value",
 "no test throws or rethrows an error by name",
 ["errors.h","errors.cpp","registry.h"],
 [("error_factory::throw_error","errors.cpp"),("throw_io_error","errors.cpp"),("portable_error_class_name","errors.h")],
 observe=["exception class","what()","portable class name"])

prop("S15","A result holder reports exactly what was stored in it",
 "A result holder tests true exactly if a value or an exception was stored in it; any way of accessing the value throws the stored exception if there is one, throws the invalid-state error if it is empty, and otherwise yields the value last stored. Moving, swapping and resetting transfer or drop that content as a whole, and default alternatives are used only when it is empty. Encoded and decoded, it arrives with the same content whatever the target held before, an exception arriving as the same error class and message.",
 ["inputs","histories"],"every sequence of operations, every value type including void, every stored exception",
 "no test uses a result holder",
 ["result_holder.h","errors.h"],
 [("result_holder<T>","result_holder.h"),("save / load","result_holder.h")],
 state=[("value_, exception_","stored content","result_holder.h")],
 observe=["has_value / has_exception","value()","constructions and destructions"])

prop("S16","Socket addresses are values",
 "An address object owns its own socket address: a copy holds the same family, type, protocol, size and bytes as its source and is independent of it, a move transfers them, and every allocation is released exactly once in the way it was made. An address list iterates over each resolved address exactly once, in order, agrees with its size and emptiness, and is released exactly once. An endpoint keeps the last value given for each of its attributes.",
 ["inputs","histories"],"every address family and content, every sequence of copies, moves and assignments",
 "no test uses an address",
 ["address.h","address.cpp"],
 [("address copy and move constructors, destructor","address.cpp"),("address_list iterators","address.cpp")],
 observe=["address_data / address_size","iteration","allocations"])

prop("S17","Registries answer exactly what was registered",
 "Looking up a registered key gives the value registered for it, independent of the order of registrations, and looking up anything else throws the not-found error. Registering a key twice is refused without changing the registered value. Lookups compare keys by content, not by identity.",
 ["inputs","histories","programs"],"every set and order of registrations, every lookup key",
 "no test registers or looks up anything",
 ["registry.h","registry.cpp","singleton.h"],
 [("function_registry / mapping_registry operator[]","registry.h")],
 observe=["lookup result","exception thrown"])

prop("A01","Every file descriptor is owned once and closed once",
 "A channel owns at most one file descriptor; it closes it exactly once, when closed, reassigned or destroyed, and not after it was released or moved away. Moving and swapping transfer ownership and never close or duplicate a descriptor, dup yields an independent one, and creating a channel pair or accepting a connection leaks none on failure.",
 ["histories","fault_sequences"],"every sequence of channel operations, every system-call failure",
 "the channel code is not built or tested here",
 ["channel.h","channel.cpp","pipe.cpp","file.cpp","socket.cpp"],
 [("channel::close, release, reset, swap, move","channel.cpp")],
 state=[("fd_","owned descriptor or -1","channel.h")],
 observe=["close() and dup() calls"])

prop("A02","Channel I/O reports exactly what the system did",
 "Channel read, write, connect, accept and option calls return the count the system call returned, turn end of input into an empty or short result, and throw the error class matching errno on failure; would-block and interrupted calls are never reported as data. A socket option call sets exactly the option it is named after to the requested value.",
 ["inputs","fault_sequences"],"every result and errno of every system call",
 "the channel code is not built or tested here",
 ["channel.h","channel.cpp","connection.cpp","errors.cpp"],
 [("throw_io_error mapping","errors.cpp"),("channel::read, write, connect, accept, option setters","channel.cpp")],
 observe=["system call arguments","return value","exception thrown"])

prop("A03","The queue is a bounded FIFO whose readiness flags tell the truth",
 "A queue hands out each element exactly once in the order put, never holds more than its capacity, and a put or get that cannot proceed has no effect when it fails. Whenever no operation is in progress, it is ready for get exactly when it is not empty and ready for put exactly when it is not full, and empty and size report its content.",
 ["schedules","histories"],"every sequence and interleaving of puts and gets, every capacity",
 "the queue is not built or tested here, and interleavings cannot be enumerated by tests",
 ["queue.h","flag.h","mutex.h"],
 [("put, get, maybe_put, maybe_get","queue.h")],
 state=[("data_, flags","content and its readiness flags, under one mutex","queue.h")],
 observe=["elements returned","readiness flags"])

prop("A04","Flags and mutexes synchronise as specified",
 "A set flag stays ready until reset, waking every waiter, and a mutex is held by at most one owner at a time, released exactly when its owner unlocks it, and ready exactly when free.",
 ["schedules"],"every interleaving of set, reset, lock, unlock and wait",
 "needs every interleaving", ["flag.h","flag.cpp","mutex.h","mutex.cpp"],
 [("flag::set / reset","flag.cpp"),("mutex::lock / unlock","mutex.cpp")], observe=["readiness"])

prop("A05","A future gets its promise's outcome, exactly once",
 "A future becomes ready exactly when its promise stored a value or exception or was abandoned, and get then returns that outcome once; an abandoned promise reports the broken-promise error. Continuations run once, on the outcome, after it is available.",
 ["schedules","histories"],"every interleaving of promise and future operations",
 "needs every interleaving", ["future.h","future.cpp"],
 [("future_state","future.h")], observe=["get()","continuation calls"])

prop("A06","Contexts cancel and expire downwards only",
 "Cancelling a context, or its deadline passing, cancels every descendant and no ancestor or sibling; a child's deadline is never later than its parent's and context data is inherited unless overridden.",
 ["schedules","histories"],"every tree of contexts, every order of creation, cancellation and destruction",
 "needs every history", ["context.h","context.cpp"],
 [("context parent/child lists","context.cpp")], observe=["is_cancelled","deadline"])

prop("A07","select returns only what is ready, and waits for it",
 "select returns results for exactly the awaitables that were ready when it returned, runs each ready awaitable's action once and no other, and returns without any result only on timeout.",
 ["schedules","fault_sequences"],"every set of awaitables and every interleaving of their becoming ready",
 "needs every interleaving and the poll system call", ["select.h","awaitable.h","awaitable.cpp"],
 [("select","select.h")], observe=["select results"])

prop("A08","Each RPC call gets its own response",
 "A client call completes with the response, or the error, that the server produced for that very call, whatever the order in which responses arrive, and every pending call fails when the connection is lost or its deadline passes.",
 ["schedules","histories","fault_sequences"],"every interleaving of calls, responses, cancellations and connection losses",
 "needs interleavings of threads and a connection", ["client.h","message_defs.h","connection.h"],
 [("request id to pending-call map","client.h")], observe=["call results"])

prop("A09","The server executes each accepted request once",
 "A server runs the addressed method of the addressed object once per accepted request with the request's arguments and answers with that method's result or error; unknown objects, methods and mismatched structure are answered with an error.",
 ["schedules","histories","inputs"],"every request sequence, every interleaving",
 "needs interleavings of threads and connections", ["server.h","interface.h","message_defs.h"],
 [("request dispatch","server.h")], observe=["method invocations","responses"])

prop("A10","Connections reconnect without mixing conversations",
 "A connection object is connected at most once at a time, a failed operation disconnects it, and no user of an old conversation ever reads from or writes to the new one.",
 ["schedules","fault_sequences"],"every interleaving of users, failures and reconnections",
 "needs interleavings", ["connection.h","connection.cpp","usage_lock.h"],
 [("usage_lock","usage_lock.h")], observe=["underlying connection calls"])

prop("A11","A thread pool runs every accepted task exactly once",
 "Each task accepted by an executor is run exactly once and its future gets the task's outcome, including when the executor is destroyed.",
 ["schedules"],"every interleaving of submissions, workers and destruction",
 "needs every interleaving", ["executor.h","executor.cpp","thread.h"],
 [("thread_pool","executor.cpp")], observe=["task executions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
