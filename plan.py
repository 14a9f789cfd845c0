"""Which proof tasks and which bounded harness decide each property."""
PROPS = {}
def P(id, proofs=(), level=None, **kw):
    PROPS[id] = dict(proofs=list(proofs), level=level or ("proof" if proofs else "exploration"), **kw)
P("S01", [("codec", "rt_size|get_size|put_size|scalar|flag|secs|nanos|tp"), ("compose", "^compose[.]")], note="encoding and decoding of sizes, scalars, flags, durations and time points are discharged byte for byte over an abstract stream; sequences, maps, sets, strings, views, scalar vectors, arrays, pairs, tuples, aggregates, class hierarchies, optionals and owning pointers are discharged over an arbitrary element, for every size and content")
P("S02", [("codec", "put_size|scalar|flag|secs|nanos|tp"), ("compose", "put_|optional|unique_ptr"), ("share", "put_")], note="every emitted byte of sizes, scalars, flags and times is a discharged obligation; so is what every composite emits around its elements, and their order")
P("S03", [("share", "."), ("flat", "^flat[.](find|emplace)_map$")], note="encoding and decoding of shared, weak and unique pointers, plain and dynamic, is discharged for every state of the coder, any pointer and any input: numbers, what is written once, what is refused and why; and one pointer through an encoder and the decoder of what it wrote keeps object numbers and identities in step (induction over nesting); the contents of objects are abstract")
P("S04", [("share", "b0|sub|start"), ("registry", "."), ("flat", "^flat[.](find|emplace)_map$")], note="which class is written, read, made and refused is discharged for arbitrary registries, class tables, class names, hashes and pointed-to types, for a class whose dynamic part is first and one where it is not; the contents of objects are abstract")
P("S05", [("codec", "get_size|scalar|flag"), ("compose", "get_|optional|unique_ptr"), ("share", "get_|start")], note="decoding of sizes, scalars and flags from any input, of any length, is discharged; so is decoding every kind of composite from any stream of numbers, bytes and elements")
P("S06", [("verify", "."), ("hash", ".")], note="verified reads and writes are discharged for every stored hash and value over abstract elements; every composite's hash is discharged as a function of unknown component hashes: equal for equivalent types, one to one in every component, different between constructors, counts and orders (order and count for components that are scalars)")
P("S07", [("cobs", ".")], note="encoding and decoding are discharged against a recursive block specification for every packet and every frame of any length; that the encoding has no zero byte, its length and the round trip follow as lemmas proved by induction")
P("S08", [("mac", ".")], note="encode, decode, every two-call history and the round trip are discharged for every packet, key and length over an uninterpreted keyed hash")
P("S09", [("highway", ".")], note="every step equals the published formula for every state, key and byte (multiplication as an uninterpreted symmetric function); whole strings, appends in any split, finishing and copies are discharged over those steps for strings of any length")
P("S10", [("serial", "."), ("compose", "^pstream[.]|[.](put|get)_str"), ("cobs", "."), ("mac", "encode|decode$")], note="send, receive and their composition are discharged over the contracts of the two codecs, which are themselves discharged (tasks cobs, mac)")
P("S11", [("flat", "^flat[.](?!val)")], note="every lookup, insertion, erasure, access and bulk operation of the four containers is discharged for arbitrary content, keys and comparators; the binary searches are verified through, std::vector, std::stable_sort and std::unique by contract; containers built by loops of insertions are discharged over the contract of insert")
P("S12", [("flat", "^flat[.]val")], note="copy, move, assignment and swap of the four containers are discharged for arbitrary content and comparator objects: content, comparator, every lookup, no shared storage")
P("S13", [("streams", ".")], note="every adapter operation is discharged for every length and content, loops by invariants")
P("S14", [("errors", "."), ("flat", "^flat[.](find|cfind|emplace|count)_map$")], note="throwing by name, analysing, registering and system errors are discharged for every name, message and code, and for arbitrary registrations as well as those made at program start")
P("S15", [("holder", "."), ("errors", "^errors[.](by_name|thrown|analyze_)")], note="every operation on a result holder, from every kind of content, with any value and any exception, is discharged, and the representation it leaves is that of a holder given the content directly, so histories of any length follow; saving and loading are discharged over any stream")
P("S16", [("address", ".")], note="construction, copy, move and destruction of addresses with any attributes, bytes and size, iteration, size and release of address lists of any length, and every endpoint setter are discharged; getaddrinfo's list is an arbitrary linked list by contract")
P("S17", [("registry", "."), ("flat", "^flat[.](insert|insertm|emplace|find|cfind|count)_(set|map)$")], note="lookup, registration and refusal are discharged for arbitrary previous registrations and any name, for every registry; the registrations of a class hierarchy at program start are discharged too")
P("A01", [("channel", "own|make")], note="every operation of a channel from every state, with every outcome of every system call: what it then holds, and which descriptors are open; destruction closes each once")
P("A02", [("channel", "io|opt|make")], note="every transfer, option, address and connection call is discharged for every argument, result and error number; the system calls are contracts over a log")
P("A03", [("queue", "."), ("sync", "^sync[.]flag")], note="the mutex is a monitor: every operation starts from any content others may have left and leaves the invariant, so every interleaving follows; for queues of any capacity, and semaphores")
P("A04", [("sync", ".")], note="the flag's mutex is a monitor with the invariant that the pipe holds a byte exactly if it is set; the mutex's pipe holds a token, and other threads may step before each system call")
P("A07", [("select", ".")], note="the loop of select is discharged for any readiness, time, error and outcome of the actions of one and two awaitables and the context's, of both kinds; longer and dynamic lists are bounded")
P("A06", [("context", ".")], note="a context's two mutexes are monitors; the children are an arbitrary list with an arbitrary member; a child's cancel is used by contract, by induction on the tree")
NA = {
 "A05": "a future's state is guarded by one lock, so the monitor contracts of A03 and A06 could express its own steps, but they are not done; that both ends together delete the state exactly once is about pairs of interleaved releases (future.h, future.cpp)",
 "A08": "the guarantee is about the interleaving of a client's callers with its receiving thread and the peer process (client.h): contracts of single functions do not express it, and no installed verifier has a concurrent program logic for C++",
 "A09": "the guarantee spans the server's receiving threads, its executor and the peer process (server.h): contracts of single functions do not express it, and no installed verifier has a concurrent program logic for C++",
 "A10": "the guarantee is about the interleaving of a connection's users with reconnections, over locks that are released between its steps (connection.cpp, usage_lock.h): contracts of single functions do not express it",
 "A11": "the guarantee is about the interleaving of workers, submissions and destruction and that each task's future is fulfilled (executor.cpp, future.h): contracts of single functions do not express it",
}
