"""Texts of DESIGN.md (tools/gen.py puts them together with the catalog)."""

INTRO = """# How static analysis decides the properties of cpp-async-rpc

`properties.jsonl`, `MANIFEST.json` and this file are written by
`tools/gen.py` from `rules/catalog.py` (statements, anchors, bounds),
`rules/design.py` (the texts here) and `seeded/*/meta.json`.

## The approach

Every check compiles *probe* translation units against the headers and sources
in /repo's working tree, at every run, and decides on what the compiler made of
them. No code of /repo is executed, and no path condition is handed to a solver.
Four deciding methods are used:

1. **Abstract interpretation of inlined IR** (most rules). `engine/irx.cpp`
   (LLVM 18 as a library) inlines everything that belongs to the repository,
   plus a short list of helpers of the standard library, into the probe, turns
   memory into SSA form where it can, and writes the result as JSON.
   `engine/absint.py` runs an abstract domain over it: integers whose bits each
   carry their provenance (constant, bit k of input i, negation, xor, ...),
   pointers as (object, offset), sized buffers (every access outside an object
   is reported), a symbolic heap (allocated, released, released twice), and
   trace partitioning: paths are kept apart wherever a branch depends on a
   partition (container size, which system call fails, which key compares less),
   and both sides of every other branch are followed. Exceptions follow the
   landing pads and the catch clauses in their order. Functions of the standard
   library, system calls and pthread functions are *named operations* with
   documented contracts (`model` functions in the rules).
   Loops run under the partition (a count, the width of a 64-bit value, a script
   of answers); a loop the domain cannot end is an error, never a verdict.
   Since the normal form is taken after inlining, extracting a helper,
   reordering independent statements, or rewriting a loop leaves it alone.
2. **Lock typestate and locksets** (the concurrent half). Every byte reached by
   more than one of the operations of an object is recorded with the locks held;
   a byte that is written must have a lock common to all of its accesses (or be
   of an atomic). Locks must be released on every path, waits must hold exactly
   their own lock, notifications must not come after the object may be gone,
   and locks are taken in one order. These do not depend on any schedule. Where
   an operation's *outcome* depends on interference, a second thread's whole
   operation is put in at every point where the first one takes or has released
   a lock (`asyncs.meanwhile`), and the outcome is compared with the two serial
   ones.
3. **Type-level witnesses** (`engine/witness.py`): claims are static assertions
   and must-compile / must-not-compile probes; clang's type checker and constant
   evaluator decide them.
4. **Token comparison** of macro expansions (every list length).

A violation names the construct: the probe (which states the use of the public
interface), the scenario, and the file, function and line it comes from.

### The half of the library that is not built here

The build in this sandbox has no `function2`, so everything that includes it
(contexts, futures, queues, select, channels, client, server, ...) is neither
compiled nor tested by the existing suite. `stub/function2/function2.hpp` is a
contract stub (owning, move-only, callable once per call; calls are named
events) that lets clang compile that half. Rules are layered: a layer is
analysed against *contract stubs* of the layer below it, and the layer below has
a rule of its own that checks it keeps that contract:

| rule | analysed | taken as contract (and checked by) |
|---|---|---|
| C33 | flag, pipe mutexes | pthread, poll/read/write |
| C34 | queues, semaphores | flag (C33) |
| C35 | futures | flag (C33), select |
| C30-C32 | channels, files, sockets | select (C36), address_resolver, flag (C33) |
| C36 | select | context (C37) |
| C37 | contexts | flat containers (C16), flag (C33) |
| C41 | executors, with the real queue and future | flag (C33), select (C36), threads (C47) |
| C47 | threads | contexts (C37), std::thread |

The planted bugs in that half are demonstrated with real programs too: the
demonstration brings its own copy of the stub, compiles /repo's sources, and
runs.

### Verdicts

Exit 0: every obligation discharged (known findings are printed). Exit 1 with a
VIOLATION line: a definite violation, or a probe (which uses the interface as
documented) that clang rejects. Exit 2: the analysis itself is broken; rules
have anchor guards, so a rule that no longer finds what it is about says so
instead of passing.

`proof` is claimed only where the partition is exhaustive and all values are
symbolic (C01, C02). Everything else is `other`: sound for all values within
each partition, partitions enumerated up to the bounds stated per property.
"""

HOW = {
"C01": "Encoder and decoder of a length prefix are run with a size whose 64 bits are symbols. Every emitted byte is compared bit by bit with the varint of that size, and decoding the emitted bytes has to give every bit back to its place; the tenth group, over-long groups and truncation are separate partitions. The domain ends the loop (64 bits), so nothing is bounded by hand.",
"C02": "20 scalar types in both byte orders: the emitted bytes must be the value's bytes in the declared order, the decoder must put them back, and the `native` codecs must be the same as the one of this machine's order. Arrays and contiguous sequences element by element.",
"C03": "The abstract byte sequence an encoder leaves is fed to the decoder of the same type; then the two objects are compared, directed by the type (scalars by provenance of each bit, containers by element, optionals by presence). The decoder's object is not fresh but holds other elements. Standard containers are modelled by their documented operations.",
"C04": "Each list macro is expanded by the preprocessor for every length 0..256 and the token sequence is compared with the specified one; field lists and enumerations are decided on types (descriptors, offsets, names) and the name functions on IR.",
"C05": "The decoder is run with the eight bytes of a type hash as symbols; it must compare all 32 bits with the type's hash: for each bit, a difference in that bit alone or with others must end in data_mismatch, before the object is touched.",
"C06": "The default implementations of read/write/putc/getc of the adapter base classes are run over streams that hold from 0 to l+2 bytes and then end or fail; a partly filled buffer must never be reported as full.",
"C07": "Steps of the shared-pointer protocol, for object tables of 0..3 known objects and symbolic ids: which id is written, when the object follows, which pointer is returned, and that type mismatches and ids out of turn are data_mismatch before anything is recorded.",
"C08": "Dynamic objects over tables of known classes: name and hash on the first occurrence, index afterwards, registry answers as symbolic facts; unknown classes, non-subclasses, different hashes and ids out of turn never produce an object nor are recorded.",
"C09": "Registration is run for a hierarchy of probe classes (none, one, several, indirect dynamic bases) against abstract maps: what is filed where, under which name; duplicates; lookups with the name present or absent, with and without a greater name.",
"C10": "The hashes of a universe of generated types (the values are read from the emitted constants) are compared pairwise; the oracle of what *should* differ is the structure of the types, not the published function. Recursive and mutually recursive classes are included.",
"C11": "The same universe against an independent rendering of the published function, and groups of types with equal encodings against one another.",
"C12": "For each of about 150 types, whether the encoder and decoder accept it is asked of the type checker, in both byte orders, and compared with the expected answer; the traits behind it likewise.",
"C13": "COBS: for every zero/nonzero shape of a packet up to a bound and runs around the 254-byte limit, encode then decode must give back every bit and the encoded form must not contain a zero; the decoder is run on every short group structure with terminators missing, early, or in the wrong place; all accesses are bounds-checked.",
"C14": "A packet is payload + 8 bytes of tag. The hash is an uninterpreted function; the tag must be its value of (payload, key), and a difference in any single tag bit must be data_mismatch; short packets too.",
"C15": "Sender composed with receiver over an abstract stream, for every pattern of zero bytes in the tag: packets must come back, in order, over limits, truncation and garbage.",
"C16": "Keys are symbols known only through the comparator; each operation is run for every weak order of the elements and the argument. Afterwards: sorted, unique, same elements, right position, comparator carried along; iterator arithmetic and comparisons.",
"C17": "For every error class found in errors.h: registered name, re-throwing by name, text kept, order of catch clauses (a subclass is never swallowed by an earlier base), and the table of I/O error codes by partition of the code's values.",
"C18": "iostreams are state machines over their documented bits; every way a read, write, flush or close can fail must be reported as the right error, and eof only at the end.",
"C19": "Strings of 0..n bytes, positions and lengths around each boundary and near 2^64; bounds-checked.",
"C20": "Heap-object typestate: each storage block is allocated once, released once, by the matching function and size, across copies, moves, assignments and failures; list iteration visits exactly the entries.",
"C21": "About 1100 constant expressions and type identities about mpt.h, decided by clang.",
"C22": "48 ways to bring a holder into a state, each followed by every accessor; encodings of each state decoded over each state.",
"C23": "20 scenarios of arming, using and dropping; wait conditions under their own lock; who may run between notification and return; locksets.",
"C24": "Global value numbering: the IR's computation and the published algorithm, written down independently, must reach the same value number for all key and message bits, in every way of splitting a message, finishing included.",
"C30": "Every creation, move, release, close, reset and destruction, with each system call failing in turn: each descriptor is closed exactly once, by its last owner, and never used afterwards.",
"C31": "For each operation the sequence of system calls, arguments and flags is compared with the documented one; each outcome (ok, short, EAGAIN, EINTR, other errors) maps to the documented result; retries wait on the right descriptor and direction.",
"C32": "setsockopt/getsockopt arguments and lengths; dialling over lists of addresses with the first failure at each call; listeners and acceptors with every readiness pattern.",
"C33": "The number of bytes in the flag's pipe is tracked: set makes it readable, reset empties it, in one critical section; pipe mutexes hand over exactly one token.",
"C34": "Operation sequences against a queue model; the flags that waiters see are compared with the state at every point where the lock is free.",
"C35": "69 scenarios for both ends; who frees the shared state, once, under which lock; what the other side may still touch.",
"C36": "select is run against scripts of answers (which descriptors are ready, what time it is, which reaction throws) and compared with a reference model that is written from the statement.",
"C37": "56 scenarios on trees of contexts; for pairs of operations the second one runs at each lock point of the first; locksets over 15 operations; parent-to-child lock order.",
"C41": "The workers' own function is interpreted, started and suspended by the analysis: select is a contract stub whose every look at a condition is a point where another thread may run. Scenarios have one story; for pairs (run/run, run/worker, worker/worker) the second thread's whole operation is placed at every lock, look and wait of the first, and each function must reach exactly one worker. This found the lost wakeup fixed in executor.h.",
"C42": "The client is interpreted against a scripted connection: each scenario says which connects, sends and receives fail, what arrives, how time passes and when the receiver and the deadline handler run (a thread only runs if what it waited for is ready). The story of what is sent, closed and how each future ends is compared with the specified one.",
"C43": "Requests made by an interpreted client are handed to an interpreted server over mailboxes; which job of the pool runs when, which receives and sends fail, and when requests are repeated, cancelled or handed to a second connection is scripted. Between two marks of a scenario only the order of events per connection counts, so the order of independent work is not part of it. This found two races with removal, a connection destroyed under a worker, and an accept slot lost on failure (all fixed).",
"C44": "Client and server are interpreted together: probe encoders write tokens, the transport is two mailboxes, workers and receiver run when the scenario says. The story of each scenario - what is sent, which method runs with which arguments under which deadline, what comes back - is compared with the specified one; internal order of contexts, locks and helpers is not part of it.",
"C49": "The real resolver is interpreted with its thread run where the scenario says, over a system resolver that records what it is asked and answers as scripted; every list handed out must be freed once.",
"C48": "The real connection classes are interpreted over a channel whose transfers are scripted (short, failing, blocked), with a second thread disconnecting, or a cancellation, at the wait. Order of closing flag, waiting for users and closing is part of the story. This found reconnection waiting for its own reference and disconnect() not interrupting users (both fixed).",
"C47": "20 programs over thread objects; the state handed to std::thread is run where the scenario says, over a model of the tree of contexts; detach and copies must not compile.",
"C46": "238 small programs over the composition functions and conditions; the functions and values passed are opaque and tell how they were called.",
}

TAIL_FALSE = """## False alarms met, and properties restated

* *Multi-key ownership of flat multi containers* (C12): `own_multi` was claimed
  insertable; it has no insert. The claim was dropped.
* *Flat multi containers insert at the lower bound*: looks wrong, but a test
  freezes it; C16 claims stability only as far as the test does.
* *Order of class initialisation of dynamic bases*: `dynamic_base_class` may
  stand anywhere among the bases; C08's pointer adjustment rule had assumed it
  first and found a genuine defect on the way (fixed, aa71603).
* *Option order before bind* (C32): the rule first demanded one order of the
  option-setting calls; any order before bind is accepted now.
* *`E&` in one branch of compose_catch*: harmless, accepted.
* Stopping at the first `AnalysisError` had hidden violations already found;
  `check.py` now reports those.

## Known not to be covered (and not claimed)

* Floating-point durations are encoded as whole counts; durations that do not
  fit in 64 bits; times near the limits of the clock; timeouts below one
  millisecond are truncated, negative ones never fire.
* `as_pack(integer_sequence / value_pack)` and `is_value` across types that
  convert do not compile or compare loosely; C arrays inside aggregates.
* The encoder of a string literal writes no size (it is a C array).
* A decoder reserves memory for as many elements as the stream announces.
* `bool` and enumerations are not validated when decoded.
* A class name is passed as C string to the error text (cut at a NUL).
* `future::maybe_get` a second time returns a moved-from value; it throws
  nothing.
* `listener::accept` drops connections that other acceptors already returned
  when one acceptor throws.
* A descriptor that is always ready can postpone expired timeouts in select.
* `context::get()` returns a reference that is only protected while unlocked;
  a deadline moved earlier on a parent does not reach children made before.
* `server::stop` while pool jobs are running; `queue_request` holding its lock
  across a pool that blocks; `channel::flush` turning no_delay off.
* Passing an lvalue function to compose_* (or then/except) moves from it.
* Heap-allocated singletons or `std::map` registries in place of the ones used
  would be flagged by C09/C17's models (a re-design, not a refactoring).

## Properties static analysis does not reach

Listed under `not_applicable` in MANIFEST.json: that waits end (liveness and
timing), that the hash and the authentication code are hard to forge, that
unrelated types have different 32-bit hashes, and memory exhaustion.
"""
