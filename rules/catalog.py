"""The catalogue: one entry per property.  tools/gen.py writes properties.jsonl
and MANIFEST.json from it; check.py takes the rule function from it."""

PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, rule=None, technique="", level="other", note="", na=None, state=(), observe=()):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, rule=rule, technique=technique, level=level, note=note, na=na, state=list(state), observe=list(observe)))


BC = "src/arpc/binary_codecs.h"

P("C01", "Length prefixes round-trip and reject only unrepresentable values",
  "The variable-length integer that precedes strings, containers, object and class ids is written in 7-bit groups, least significant group first, with the top bit set exactly on the groups that are followed by another. Decoding those bytes yields the original number for every 64-bit value, with big- and little-endian codecs alike. A prefix is rejected (data_mismatch) only when the number does not fit in 64 bits, and no prefix, however long, is accepted with bits silently dropped.",
  ["inputs"], "every 64-bit length and every byte sequence in prefix position",
  "No test touches the codecs, and a length of 128 or more is needed to see a second group; all 2^64 values and all byte strings cannot be sampled.",
  [BC], [("varint writer and reader", BC + " write_variant / read_variant")],
  ("serial", "c01"), "abstract interpretation (bit provenance, loop-iteration partitioning) of the inlined IR", "proof",
  "Every bit of every emitted and decoded prefix is traced to the size bit it comes from; loops end by the domain itself (64 bits). Trusts clang's IR, the inliner and the rule code; size_t is 64 bits.")

P("C02", "Scalars and contiguous sequences keep the declared byte order",
  "A scalar or enumeration of n bytes is encoded as exactly its n bytes, least significant first for the little-endian codec and most significant first for the big-endian one, and decoding consumes exactly n bytes and restores the same bits. Fixed-size arrays and resizable contiguous sequences of scalars are the same bytes for each element in order, after a length prefix for the resizable ones.",
  ["inputs"], "every value of every scalar type; sequences of every element type",
  "No test runs an encoder; a test would sample values on one host, while a byte-order slip shows only for particular types, endianness and values.",
  [BC, "src/arpc/traits/type_traits.h"], [("block read/write", BC + " write_block / read_block / write_sequence / read_sequence")],
  ("serial", "c02"), "abstract interpretation (bit provenance) of the inlined IR", "proof",
  "20 scalar types x 2 byte orders x encode/decode, all values at once (bits are symbolic). Sequences are partitioned by element count (0, 1, 3); other counts rest on the loop body being the same.")

P("C03", "Decoding an encoded value gives back the same value",
  "For every serializable category (strings, sequence, set and map containers, pairs, tuples, aggregates, arrays, optionals, unique pointers, durations and time points, classes with bases, fields and custom save/load, and nestings of these), decoding what the encoder wrote consumes exactly those bytes, never throws, and leaves the destination equal to the source: same elements in the same order, same engaged/empty state, nothing kept from what the destination held before.",
  ["inputs"], "every value of every serializable category, into a destination with any previous contents, in both byte orders",
  "The test suite never encodes or decodes anything; a mismatch between the two overload sets shows only for particular categories, sizes or previous contents.",
  [BC, "src/arpc/mpt.h", "src/arpc/serializable_base.h", "src/arpc/traits/serialization_traits.h"],
  [("encoder and decoder overload sets", BC), ("field and base walking", "src/arpc/mpt.h for_each / as_tuple")],
  ("roundtrip", "c03"), "abstract interpretation of the encoder composed with the decoder (bit provenance, abstract containers)", "other",
  "Element bits are symbolic, so a result covers all element values; element counts are partitioned (0..3 quick, 0..5 thorough) and categories are represented by ~50 probe types. Standard containers are modelled by their documented operations.")

PC = "src/arpc/packet_codecs.cpp"
AI = "abstract interpretation (bit provenance, sized buffers, trace partitioning) of the inlined IR"

P("C13", "COBS framing is lossless, zero-free and rejects malformed packets",
  "cobs_codec::encode turns any byte string, the empty one included, into a string that contains no zero byte and is at most n + 1 + n/254 bytes long, and decode gives exactly the original back. Decoding anything else follows the group definition (a code byte c stands for c-1 bytes and, below 255, a zero, the last one being the end of the packet) or throws data_mismatch for an empty packet, a zero code or a truncated group. No input makes either of them touch memory outside the packet.",
  ["inputs"], "every byte string handed to encode or decode",
  "No test touches the codec; the hard cases are runs of exactly 254 nonzero bytes next to zeros or the end, and malformed packets.",
  [PC], [("encoder and decoder", PC + " cobs_codec::encode / decode")],
  ("packets", "cobs"), AI, "other",
  "Byte values are symbolic (zero / any nonzero); strings are partitioned by their zero/nonzero shape: all shapes up to 5 bytes (7 thorough) plus runs around 254, 255, 508 and 509. Decoder inputs enumerate group codes over {0,1,2,3,4,128,254,255} with symbolic covered bytes.")

P("C14", "A packet is accepted only with the right message authentication code",
  "mac_codec::encode leaves the payload unchanged and appends the 64-bit HighwayHash of exactly the payload under the key given at construction, least significant byte first. decode returns the payload when all eight bytes match and throws data_mismatch when any bit of them differs or the packet is shorter than eight bytes; no other outcome exists.",
  ["inputs"], "every payload, key and tag",
  "No test touches the codec; that all 64 bits take part in the comparison, for every payload and key, cannot be sampled.",
  [PC], [("tagging and verification", PC + " mac_codec")],
  ("packets", "mac"), AI, "other",
  "Payload, key and tag bits are symbolic and the hash an uninterpreted function of (bytes, key), so results hold for all values; payload sizes are partitioned (10 sizes quick, 0..79 thorough). Rejection is decided per tag bit with the other 63 unconstrained.")

P("C24", "HighwayHash is computed as published, in one piece or in many",
  "hash64, hash128 and hash256 compute the published keyed HighwayHash of the given bytes, on every platform and for every length. Appending the same bytes in any split gives the same result as hashing them at once; finishing does not disturb the accumulated state, so it can be repeated, in any width, and followed by more data; reset starts afresh under the new key.",
  ["inputs", "histories"], "every message, key and way of splitting the message into appends",
  "No test touches the hash; a slip in the remainder handling or the buffering shows only for particular lengths and splits, and both ends of a link share the slip.",
  ["src/arpc/highway_hash.cpp", "src/arpc/highway_hash.h"], [("hash", "src/arpc/highway_hash.cpp")],
  ("packets", "highway"), "global value numbering by abstract interpretation: the inlined IR and the published algorithm get the same value number", "other",
  "All message and key bits are symbolic; message lengths and splits are partitioned (lengths 0..65 and some larger, 100 splits x 2 quick). The reference is written in rules/packets.py from the publication and reproduces its test vectors.",
  state=[("buffered bytes", "tail of the message not yet hashed", "src/arpc/highway_hash.h packet_ / buffered_bytes_")])

PP = "src/arpc/packet_protocols.h"
P("C15", "What a packet protocol sends is what the other end receives",
  "A serial_line_packet_protocol frame is a run of nonzero bytes closed by a single zero byte, written and then flushed; receiving it consumes exactly the frame and returns the packet that was sent. At most max_packet_size bytes are accepted before the closing zero: a longer frame is refused with out_of_range. A protected_stream_packet_protocol writes the length-prefixed packet and flushes, and receiving consumes exactly those bytes and returns the packet.",
  ["inputs"], "every packet, and every frame length against every limit",
  "No test touches the protocols; the end-to-end claim is about all packets, including those whose authentication code happens to contain zero bytes.",
  [PP, PC], [("framing", PP)], ("packets", "framing"), AI + "; sender composed with receiver", "other",
  "Packets are partitioned by zero/nonzero shape (0..2 bytes quick), each with all 2^8 zero patterns of the tag bytes; byte values symbolic, the hash uninterpreted. Limits: 12 against frames of 0..14 bytes, 300 against 255..302.")

IO = "src/arpc/io_adapters.cpp"
P("C06", "A short read is an end of file, never a partly filled buffer",
  "read_fully either fills the whole buffer with the next bytes of the stream or throws eof; errors of the underlying stream propagate unchanged. The default read built on getc returns what was available, in order, and treats only eof as the end; the default getc reads one byte. The default write passes every byte on once, in order, and the default putc writes exactly one.",
  ["inputs", "fault_sequences"], "every length, stream content and point at which the stream ends or fails",
  "No test uses a stream; the claim covers every point of failure inside a buffer.",
  [IO, "src/arpc/io_adapters.h"], [("stream defaults", IO)], ("streams", "defaults"), AI + " with exception edges", "other",
  "Byte values symbolic; lengths 0..5 (0..9 thorough) against streams holding 0..l+2 bytes and then end of file or an I/O error.")

P("C18", "iostream adapters report every failure of the iostream",
  "istream_input_stream::read returns what was available at end of file and throws io_error when the std::istream goes bad; getc returns the next byte or throws eof at end of file and io_error on any other failure. ostream_output_stream's write, putc and flush pass the bytes on in order and throw io_error when the std::ostream reports a failure. Its destructor flushes and never throws.",
  ["inputs", "fault_sequences"], "every stream content and every failing operation",
  "No test uses the adapters; failures of the underlying stream must be injected at each operation.",
  ["src/arpc/iostream_adapters.cpp", "src/arpc/iostream_adapters.h"], [("iostream adapters", "src/arpc/iostream_adapters.cpp")],
  ("streams", "iostreams"), AI + " with exception edges, iostreams as state machines", "other",
  "The std streams are modelled by their documented state bits; lengths 0..3 (0..7 thorough).")

SA = "src/arpc/string_adapters.cpp"
P("C19", "String streams read and write exactly the string",
  "string_input_stream reads the bytes of its string from the current position, never beyond its end, returning the number read and advancing by it; getc throws eof at the end; moving to a position past the end throws out_of_range and leaves the position unchanged. string_output_stream appends each byte to its string in order and changes nothing else.",
  ["inputs", "histories"], "every string, position and length",
  "No test uses the adapters; boundary positions and huge lengths cannot all be sampled.",
  [SA, "src/arpc/string_adapters.h"], [("string adapters", SA)], ("streams", "strings"), AI + " with exception edges", "other",
  "Byte values symbolic; string sizes 0..3 (0..6 thorough) x positions 0..n+1 and 2^64-1 x lengths 0..n+1 and 2^64-1.",
  state=[("position", "index of the next byte to read", "src/arpc/string_adapters.h pos_")])

RG = ["src/arpc/registry.h", "src/arpc/registry.cpp"]
AIX = "abstract interpretation of the inlined IR with exception edges, containers and registries as abstract objects"

P("C05", "Structure verification stops a value from being read as another type",
  "Encoding with the verify_structure tag writes the 32-bit type hash of the encoded type before its value, once per tag. Decoding with the tag compares the stored hash with the hash of the type being read before touching the destination: the value is decoded only when all 32 bits agree, and data_mismatch is thrown otherwise. Without the tag no hash is written or expected.",
  ["inputs"], "every serializable type and every stored hash value",
  "No test encodes anything; that every one of the 32 bits takes part, and that the destination is untouched on a mismatch, quantifies over all stored hashes.",
  [BC], [("verify_structure tag", BC + " operator() of encoder and decoder")],
  ("shared", "c05"), AIX + "; bit provenance", "other",
  "Per-bit: rejection is decided for a difference in each hash bit with the other 31 unconstrained. Types are represented by probes.")

P("C07", "Shared pointers keep their sharing structure through the codecs",
  "Within one encoder, a null shared or weak pointer is written as id 0; an object appearing for the first time gets the next id (1, 2, ...) followed by its body, and later appearances write only the id. A decoder with the same history gives a null pointer for id 0, makes and decodes a new object for the next unknown id, and otherwise gives the pointer already made for that id, sharing ownership of the very same object. Ids are recorded before the body is handled, so cyclic structures work. An id beyond the next one, or a known id whose object has another type, throws data_mismatch.",
  ["inputs", "histories"], "every history of pointers written to one encoder and read by one decoder",
  "No test encodes a pointer; sharing, cycles and mismatches depend on the history of the whole stream.",
  [BC], [("shared and weak pointers", BC + " save / load of std::shared_ptr and std::weak_ptr, get_id, update_pointer")],
  ("shared", "c07"), AIX, "other",
  "Histories are abstracted by the number of objects known before the step (0..3 and symbolic ids); ids and stored type hashes have symbolic bits. The object map and the pointer table are abstract containers.",
  state=[("objects seen", "address to id, resp. id to pointer, in order of first appearance", BC)])

P("C08", "Dynamic objects arrive as the class they were sent as, or not at all",
  "A pointer to a dynamic object is written as a class id counted from 0 in order of first appearance in the stream; only the first appearance carries the length-prefixed class name and its 32-bit type hash. A class that the registry does not know makes the encoder throw not_found before anything about that class is written or remembered. A decoder accepts a new class only when its id is the next one, its name is registered (not_found otherwise), the hash agrees in every bit and the class is a subclass of the one the pointer asks for (data_mismatch otherwise); in none of the refused cases is an object made or the class remembered. Otherwise it makes an object with that class's factory, and decodes it with that class's decoder. Sharing the object with a pointer of a different dynamic class checks the class as well.",
  ["inputs", "histories"], "every history of dynamic objects on a stream and every stored class id, name and hash",
  "No test encodes a dynamic object; the refusals concern malformed or foreign streams at every point of the history.",
  [BC] + RG, [("dynamic objects", BC + " encoder and decoder for dynamic_base_class, class tables")],
  ("shared", "c08"), AIX, "other",
  "Class tables of 0..2 known classes, name lengths partitioned, ids and hashes with symbolic bits; registry answers are symbolic facts (known/unknown, subclass or not).",
  state=[("classes seen", "class name to id, resp. id to class entry, per stream", BC)])

P("C09", "The class registries know exactly the classes registered with them",
  "Registering a class files its factory (which makes a new object of that class), its type hash, its own name and all its dynamic bases, direct and indirect, as classes it can stand for, and for each codec an encoder and a decoder that handle the object as that class. Registering a name twice throws invalid_state. Looking a name up gives exactly the entry registered under it and throws not_found for any other name. The subclass question is answered yes exactly for the recorded names. ARPC_REGISTER registers the class once, before main, under its name as written, for encoders and decoders of both byte orders, and ARPC_REGISTER_WITH_NAME under the name given; that is the name the class and its objects report. Objects can be destroyed as a dynamic_base_class.",
  ["inputs", "histories"], "every class hierarchy, registered set and name looked up",
  "The tests register a few classes once and look at one answer each; the claim is about every hierarchy and every name, duplicates and unknowns included.",
  RG + ["src/arpc/serializable.h", "src/arpc/dynamic_base_class.h", "src/arpc/dynamic_base_class.cpp", "src/arpc/config.h"], [("macros", "src/arpc/serializable.h ARPC_REGISTER"), ("registries", "src/arpc/registry.h object_registry / dynamic_encoder_registry / dynamic_decoder_registry")],
  ("registries", "c09"), AIX, "other",
  "Maps are abstract containers; presence of a name is a symbolic fact. Hierarchies are represented by probe classes with zero, one and several dynamic bases, direct and indirect.")

ER = ["src/arpc/errors.h", "src/arpc/errors.cpp"]
P("C17", "Errors travel by name and come back as the same class and text",
  "Every error class reports a unique portable class name, under which it is registered exactly once at start-up with a function that throws that very class with the given text; registering a name twice throws invalid_state. throw_error throws the class registered under the name with the text, and unknown_error with the same text when the name is unknown. analyze_exception gives (name, text) for the library's errors, (empty, text) for other std::exceptions and two empty strings otherwise. throw_io_error returns for EINPROGRESS, EALREADY and EISCONN, throws try_again for EAGAIN and EWOULDBLOCK, and io_error whose text is the message, a colon, a space and the code in decimal otherwise; without a code it takes errno. throw_with_code and throw_with_errno always throw the class they are given, with such a text.",
  ["inputs"], "every error class, name, text and error code",
  "The tests do not cross the factory with every class, nor all error codes; a swapped name shows only for that class on the remote side.",
  ER, [("error factory", "src/arpc/errors.cpp"), ("error classes", "src/arpc/errors.h")],
  ("errs", "c17"), AIX + "; exact catch-clause order from the type information", "other",
  "All error classes found in errors.h are enumerated; texts and names are abstract strings; error codes are partitioned by the values the code distinguishes plus one representative of all others.",
  state=[("factory map", "class name to throwing function", "src/arpc/errors.h error_factory")])

FT = "src/arpc/container/detail/flat_tree.h"
P("C16", "Flat containers stay sorted, unique and faithful to their comparator",
  "A flat_set, flat_map, flat_multiset or flat_multimap is at every moment sorted by the comparator it was given, and the unique ones hold at most one element per key: of several equal elements inserted or given in a range or list, the first stays. insert, emplace and their hinted forms return the element's position (and, for unique ones, whether it was added), whatever the hint; erase removes exactly the named element, range or key and returns the next position or the count; find, count, the bounds, equal_range, at and operator[] answer as for the sorted sequence, at throwing out_of_range for an absent key and operator[] adding one with a default value. Copies, moves, assignments and swap carry elements and comparator along; elements given as rvalues are moved, so they need not be copyable. No public operation changes the sequence otherwise.",
  ["inputs", "histories"], "every sequence of elements, every strict weak order and every operation",
  "The tests use a handful of small integer cases with the default comparator; stateful comparators, equal keys, large unsorted ranges and odd hints are not sampled.",
  [FT, "src/arpc/container/flat_map.h", "src/arpc/container/flat_set.h"], [("flat tree", FT), ("map access", "src/arpc/container/flat_map.h operator[] / at")],
  ("flat", "c16"), "abstract interpretation of the inlined IR under an order abstraction (one partition per weak order of the keys); type-level witnesses for the public interface", "other",
  "Keys are symbols known only through the (opaque, stateful) comparator; sizes 0..3 (0..4 thorough) with every weak order of the elements and the argument. std::sort is taken at its contract, equal elements in the least favourable order; std::vector and the other algorithms are analysed from their headers.",
  state=[("comparator", "comp_ and eq_ of the container", FT)])

TH = "src/arpc/type_hash.h"
HT = "the type checker and constant evaluator of the compiler decide the hashes of a generated universe of types (read from the emitted IR constants)"
P("C10", "Types that are encoded differently have different structure hashes",
  "Changing one thing in a type changes its 32-bit structure hash: the kind, signedness or size of a scalar or enumeration; the category of a container, unique or multi; its element, key or mapped type; the length of an array; the number, types or order of the members of a tuple or pair; the pointee of an owning, shared or weak pointer and the kind of pointer; the period of a standard duration or time point; the result, the arguments, their number and order, or the constness of a function; a field or base class of a serializable class being added, removed, reordered or retyped; custom serialization being present or not; the class a recursive reference leads back to.",
  ["inputs"], "every pair of types that differ in one respect",
  "type_hash_test freezes the hashes of some fifty types; a property that is dropped from the hash shows only for pairs it does not contain.",
  [TH, "src/arpc/traits/container_traits.h", "src/arpc/traits/serialization_traits.h"], [("hash of a type", TH + " new_type_hash")],
  ("hashes", "c10"), HT, "other",
  "About 360 generated types, all pairs compared. Hash collisions between unrelated types are not excluded (32 bits); pairs on which the published combination itself cancels are recorded as known findings by representatives.")

P("C11", "The structure hash of a type is the same in every build",
  "The structure hash is a compile-time constant that depends on the encoded structure only: reference and cv qualifiers, class and field names, unhashed members, the choice between list, vector and deque, between ordered, unordered and flat maps or sets, between tuple, pair and aggregate, array and std::array, the deleter of a unique pointer, the representation of a duration and the clock of a time point do not change it. Types that contain themselves, through pointers or containers, have one too. Its value is the published function of the structure, so two builds of the library agree on it.",
  ["inputs"], "every hashable type",
  "The tests freeze some fifty values; peers built separately compare hashes of arbitrary types.",
  [TH, "src/arpc/traits/container_traits.h", "src/arpc/mpt.h"], [("hash of a type", TH + " new_type_hash"), ("back references", TH + " type_hash::hash")],
  ("hashes", "c11"), HT + " and compare them with an independent rendering of the published function", "other",
  "About 450 generated types incl. recursive ones. The published function is written down in rules/hashes.py and agrees with the values frozen in the repository's test.")

WT = "type-level witnesses: the type checker decides each claim on the current sources (static_assert, must-compile and must-not-compile probes)"

P("C12", "Exactly the serializable types can be encoded and decoded",
  "For every type the encoders and decoders either have exactly one matching overload or do not compile. Accepted in both directions are arithmetic and enumeration types, strings, standard and flat containers, pairs, tuples, arrays, aggregates, optionals, smart pointers, durations, time points, classes that list fields or provide versioned save/load, and dynamic classes, with arbitrary nesting. Rejected are raw, function and member pointers, references, unions, synchronisation objects, std::function, variants, container adapters and the like, aggregates with bases or virtual functions, classes with private, reference or pointer parts, destinations that are const or cannot be default-constructed, and anything that contains a rejected type; view types and constant members can be encoded but not decoded. The introspection traits this rests on (iterable, associative, map, set, repeated keys, contiguous, reservable, resizable, static size, bindable aggregate, bit-transferrable scalar, writable value type, member pointer traits, declared fields, bases and custom version) answer according to their description for every such type; version zero is rejected.",
  ["inputs"], "every C++ type",
  "A test can only contain code that compiles, so it can never show that a type is refused; and it names only the few types it happens to use.",
  [BC, "src/arpc/traits/container_traits.h", "src/arpc/traits/type_traits.h", "src/arpc/traits/serialization_traits.h", "src/arpc/traits/trait_factories.h", "src/arpc/serializable_base.h"],
  [("overload conditions", BC + " encoder / decoder operator()"), ("traits", "src/arpc/traits/*.h"), ("mixin", "src/arpc/serializable_base.h serializable_mixin")],
  ("traits", "c12"), WT, "other",
  "Types are represented by about 90 accepted and 60 rejected ones in both byte orders and both directions, traits by about 1200 type/trait pairs; decided by clang, so each answer is exact for its type.")

P("C21", "Type-level sequences compute exactly what their names say",
  "Integer sequences, packs of types, packs of values, tuples and pairs behave as one family: size, element access, cat, subset, range, head, tail, for_each, transform, accumulate, find, filter_if, count_if, membership and insertion keep the order of the elements, pick exactly the elements asked for, visit every element once from the left, preserve values, types, references and value categories, and move from rvalues only. Generated sequences contain 0..n-1 (or the constant) exactly; arithmetic on sequences is elementwise with the result type of the operation; aggregates of up to 32 fields are taken apart into references to their fields in declaration order; a search that must have one result refuses to compile when it has none or several.",
  ["inputs"], "every sequence, length, index selection and element type",
  "Templates are checked per instantiation; the tests instantiate a handful of short sequences, and can not show that a wrong use is refused.",
  ["src/arpc/mpt.h"], [("sequence operations", "src/arpc/mpt.h")],
  ("mpts", "c21"), WT, "other",
  "About 1100 claims over all lengths and selections up to small bounds (sequences generated up to length 300, aggregates of every size 0..32), evaluated by clang's constant evaluator and type checker, not by running code.")

P("C04", "Declaration macros expand to exactly what was listed, in order",
  "For lists of any length up to 256, argument counting gives the exact number, the foreach macro applies its argument to every element once in order with a separator between each two and nowhere else, and the countdown loop does so for n down to 1, also when deferred inside another loop; emptiness, truth value and both conditional forms are right for every argument, parenthesised ones included. Hence the field list of a class is exactly the fields named, in the order named rather than declared, each with its own name; an enumeration declared by macro has the given base type and values, and the name function gives each value its enumerator and every other value the name for unknown ones.",
  ["inputs"], "every list length, argument shape and enumeration value",
  "The macros are 256 hand-unrolled cases each; tests use lists of a few elements, and nothing tests enumerations at all.",
  ["src/arpc/preprocessor.h", "src/arpc/serializable_base.h", "src/arpc/enum.h"],
  [("expansion", "src/arpc/preprocessor.h ARPC_FOREACH / ARPC_FOR / ARPC_ARG_COUNT"), ("fields", "src/arpc/serializable_base.h ARPC_FIELDS"), ("enumerations", "src/arpc/enum.h")],
  ("macros", "c04"), "macro expansion compared with the specified token sequence; type-level witnesses; abstract interpretation of the name functions", "other",
  "Every length 0..256 of every list macro, so that part is exhaustive; field lists of six lengths up to 40; enumerations of 1, 2, 3 and 10 entries.")

P("C20", "An address owns its storage; address lists and endpoints keep what was given",
  "Copying an address, also one in an address list, makes an independent deep copy with the same family, socket type, protocol and socket address, of the same length, that belongs to no list; moving hands the storage over and leaves the source without any. A new address is zeroed and has room for any kind of socket address. All storage is released exactly once, as what it was allocated as. Accessors give access to the field they name, and the text form is numeric host:port, the host in brackets for IPv6. An address list visits every address once, in order, and is released once. Each endpoint setter changes its own field only, the last one wins, and defaults are as documented.",
  ["inputs", "histories"], "every address family and length; every sequence of copies and moves; every list",
  "A double release, a shallow copy or a wrong length shows only under a memory checker or for the family and field a test does not use.",
  ["src/arpc/address.h", "src/arpc/address.cpp"], [("ownership", "src/arpc/address.cpp"), ("list and endpoint", "src/arpc/address.h")],
  ("addrs", "c20"), "abstract interpretation with heap-object typestate (allocated/released, allocation kind and size) over inlined IR", "other",
  "Partitioned by the operation sequences listed in rules/addrs.py, with field contents symbolic; list lengths 0..3. getaddrinfo/getnameinfo are opaque.")

P("C22", "A result holder gives back exactly the value or exception put in",
  "A result holder has a result exactly when a value or an exception was put in and not reset since. Each accessor gives the value last put in, or rethrows the exception last put in, which takes precedence over a value, or throws invalid_state when there is neither; value_or falls back to the default only when there is neither. Values are moved only from arguments given up as rvalues, and value_or of a holder given up moves the value out. Moves, assignments and swaps carry the whole state over. The encoding is the value, whether there is an exception, and if so its type and message; decoding replaces the old state with that, raising the exception by type and message. Every exception reference taken is given back. All of this also for void results.",
  ["inputs", "histories"], "every way to build, overwrite, move, swap, reset or decode a holder, with each accessor",
  "Holders carry every remote call's outcome; the precedence, stale-state and moved-from cases are combinations tests do not enumerate.",
  ["src/arpc/result_holder.h"], [("state", "src/arpc/result_holder.h value_ / exception_"), ("wire form", "src/arpc/result_holder.h save / load")],
  ("results", "c22"), "abstract interpretation of the inlined IR with models of exception references and of the archive", "other",
  "48 ways of reaching a state, 13 accessors each, encoding, and decoding of each of 4 encodings over each state; the element type is opaque.")

AS = "symbolic heap and lock typestate over the inlined IR (abstract interpretation), with a lockset analysis over every byte the operations share"
P("C23", "Nothing is given up while a usage lock's user still has it",
  "While anybody holds a reference obtained from a usage lock, drop and destruction wait: they return only when the last reference to whatever was armed, now or before, is gone, and at once when there is none. The last user wakes the waiter before giving up the lock, so the usage lock may be destroyed right after. From drop on, until armed again, get throws the lock's exception type with its message and get_or_null gives null; when armed, both give the pointer last armed. Everything the operations share is accessed under a common lock, locks are balanced on every path including exceptional ones, and the bookkeeping is freed once.",
  ["schedules", "histories"], "every interleaving and every sequence of arm, drop, get and release",
  "usage_lock_test drops a lock in one thread order; a lost wakeup, a reference escaping a re-arm or an unlocked read shows only in rare interleavings.",
  ["src/arpc/usage_lock.h"], [("waiting and waking", "src/arpc/usage_lock.h arm / drop"), ("shared state", "src/arpc/usage_lock.h ptr_, live_")],
  ("usage", "c23"), AS, "other",
  "20 scenarios of arming, using, re-arming and dropping; the lockset rule covers any interleaving of the four operations. That a waiter is eventually scheduled is not decided.")

SY = "abstract interpretation of the inlined IR with a model of the system calls, each call able to fail at each point, and descriptor typestate"
P("C30", "Descriptors are owned by exactly one object and closed exactly once",
  "A channel closes its descriptor exactly once: on destruction, close, reset to another one or assignment over, and never after it was released, moved away or swapped into another channel. Empty channels close nothing; moving leaves the source empty; self-assignment and self-swap change nothing; dup, accept, opening files, pipes and mutexes own each descriptor they make. When a system call fails at any point, every descriptor opened until then is still closed exactly once and the error is reported.",
  ["inputs", "histories", "fault_sequences"], "every sequence of owning operations, and every system call in it failing",
  "Channel, file, pipe and mutex are not even compiled by the tests here, and leaks or double closes on error paths need injected faults.",
  ["src/arpc/channel.h", "src/arpc/channel.cpp", "src/arpc/pipe.cpp", "src/arpc/file.cpp", "src/arpc/mutex.cpp"],
  [("ownership", "src/arpc/channel.h channel"), ("makers", "src/arpc/{file,pipe,socket,mutex}.cpp")],
  ("channels", "c30"), SY, "other",
  "22 sequences of owning operations, each also with every single system call failing. Compiled against contract stubs of function2 and select.")

P("C31", "Each channel operation makes the right system call and reports its outcome",
  "Every channel operation passes its own descriptor and arguments unchanged to the system call it stands for and gives back its result. A failing call is an io_error carrying errno; a read of nothing is eof; would-block is try_again from the maybe_ forms and waited for by the blocking ones, which first wait for the direction they need. Async forms wait for that direction and act when ready. A connection in progress is waited for and its outcome, read from the socket, is what is reported. Changing blocking mode keeps the other status flags; each file mode opens with the access, creation and truncation it names and usual permissions; own and peer addresses report family, type and protocol.",
  ["inputs", "fault_sequences"], "every operation, argument and outcome of each system call",
  "None of it is compiled by the tests here; a wrong flag, direction or swallowed error shows only against particular kernel answers.",
  ["src/arpc/channel.h", "src/arpc/channel.cpp", "src/arpc/file.cpp", "src/arpc/socket.cpp"],
  [("calls", "src/arpc/channel.cpp"), ("file modes", "src/arpc/file.cpp"), ("error mapping", "src/arpc/channel.cpp")],
  ("channels", "c31"), SY, "other",
  "Every operation with every one of its system calls succeeding, failing and being asked to try again. The kernel's answers are modelled as any value in the documented range.")

P("C32", "Socket options, dialling and listening do what was asked",
  "Each socket option setter sets the option it is named after, at its level, to the given value or the documented default, and returns the channel; flush never fails. Dialling resolves the endpoint and tries its addresses in order, each with an equal part of the time left, returning the first that connects in the blocking mode asked for, raising the last error when all fail and invalid_argument when there is none, and leaving no descriptor open for failed ones. A listener resolves passively and listens on every address with the options and backlog asked for; accept hands out every connection accepted on any of its sockets exactly once, in the blocking mode asked for.",
  ["inputs", "fault_sequences", "schedules"], "every option and value, number of addresses, pattern of failing calls, and set of sockets that become ready",
  "Not compiled by the tests here; picking the right address among failing ones and keeping simultaneous connections need faults and timings.",
  ["src/arpc/channel.h", "src/arpc/channel.cpp", "src/arpc/socket.cpp", "src/arpc/socket.h"],
  [("options", "src/arpc/channel.cpp"), ("dial", "src/arpc/socket.cpp dial"), ("listener", "src/arpc/socket.cpp listener")],
  ("channels", "c32"), SY, "other",
  "Lists of 0..3 addresses with the first failure at every call of each attempt; listeners with 1..3 sockets and every pattern of one or two being ready. The resolver and select are contract stubs.")

P("C33", "Flags and pipe mutexes: what waiters see is the state that was set",
  "A flag is readable exactly while it is set, however often set and reset are called and in whatever order, so a waiter never misses a set and never wakes for a flag reset; waiting does not change it, and a waiter that finds it unset tries again. A mutex starts unlocked; locking takes the one token, waiting for it when it is taken; try_lock says whether it got it; unlock puts it back. Setting, resetting and unlocking are never cut short by cancellation. Each change of a flag is one critical section, with all shared bytes under a common lock.",
  ["schedules", "histories"], "every sequence of set, reset, wait, lock and unlock, and any interleaving of the flag's operations",
  "Not compiled by the tests here; a byte left over in the pipe or a race between state and pipe shows only for particular sequences or interleavings.",
  ["src/arpc/flag.h", "src/arpc/flag.cpp", "src/arpc/mutex.h", "src/arpc/mutex.cpp"],
  [("flag", "src/arpc/flag.cpp set / reset"), ("mutex", "src/arpc/mutex.cpp lock / unlock")],
  ("queues", "c33"), "abstract interpretation counting the bytes in the pipe, lock typestate and lockset analysis over the inlined IR", "other",
  "17 sequences decided exactly; the critical-section and lockset rules cover any interleaving of flag operations.")

P("C34", "Queues and semaphores are first-in first-out, bounded, and tell their waiters",
  "A queue never holds more than its capacity, hands elements out in the order they were put, each once, and size, empty and full follow. maybe_put on a full queue and maybe_get on an empty one throw try_again and change nothing; the element of a failed put is not lost and lvalues are copied, not moved from. can_get is ready exactly when there is an element and can_put exactly when there is room, after every operation; blocking and async forms wait for that. A semaphore is a queue of nothing. Each put and get is one critical section and everything shared is accessed, and waiters told, under a common lock.",
  ["schedules", "histories"], "every sequence of operations on every capacity, and any interleaving of them",
  "Not compiled by the tests here; a lost or doubled wakeup shows only when producers and consumers meet the capacity limit concurrently.",
  ["src/arpc/queue.h", "src/arpc/semaphore.h"],
  [("both queues", "src/arpc/queue.h queue<T> / queue<void>"), ("readiness", "src/arpc/queue.h update_flags")],
  ("queues", "c34"), "abstract interpretation of operation sequences against a queue model, lock typestate and lockset analysis over the inlined IR", "other",
  "36 operation sequences on capacities 1..3 (thorough: every sequence up to length 4 of five operations) for values and for nothing; lockset and critical-section rules cover any interleaving.")

P("C35", "A promise delivers one result to its future, and is never silently dropped",
  "What a promise is first given, a value, an exception or a result holder, is what its future gets; giving a second result throws invalid_state and changes nothing. A promise destroyed or assigned over without a result gives its future the exception invalid_state. The future becomes ready exactly when there is a result, and a get before that waits, or throws try_again for maybe_get and async forms. Empty, moved-from and already handed out futures throw invalid_state. then, except and decorate act on the result, or on the exception they name, and pass everything else on. The shared state is freed exactly once, by whichever side goes last, used by nobody afterwards, and every step on it is one critical section with all shared bytes under a common lock.",
  ["schedules", "histories"], "every way to set, move, overwrite, drop and read the two ends, and any interleaving of the two sides",
  "Not compiled by the tests here; broken promises and the race of both ends being dropped at once are orders no test samples.",
  ["src/arpc/future.h", "src/arpc/future.cpp"],
  [("delivery", "src/arpc/future.h promise / future_state"), ("last one out", "src/arpc/future.cpp release_reader / release_writer")],
  ("futures", "c35"), AS + "; heap-object typestate", "other",
  "69 scenarios for values and for nothing; lockset and critical-section rules cover any interleaving of setting, reading and dropping. Compiled against contract stubs of function2, flag and select.")

P("C36", "Select waits for all its conditions and reports exactly what happened",
  "Select waits on the descriptor of each of its conditions, in the direction each needs, together with the current context's cancellation, for at most the shortest time left of any timeout or deadline; timeouts count from the start of the select, polling ones from the last wakeup, however long they are. When it wakes, exactly the reactions of conditions reported ready, or due when time ran out, run once each in argument order, polling ones together. A reaction that throws try_again counts as not having happened and the wait goes on; any other exception or value becomes that condition's result, all others being empty, vectors element by element. Cancellation and deadline are raised over any results. Interrupted waits go on; other failures of the wait are io_error. wait() does this for one condition and raises what its reaction raised.",
  ["inputs", "schedules", "fault_sequences"], "every list of conditions and every order in which they become ready, fail, are interrupted or time out",
  "Not compiled by the tests here; which reactions run depends on timing, interruption and which descriptors become ready together.",
  ["src/arpc/select.h", "src/arpc/wait.h", "src/arpc/wait.cpp"], [("wait", "src/arpc/select.h select"), ("reactions", "src/arpc/select.h make_one_select_result"), ("time left", "src/arpc/select.h time_left / timeout_info")],
  ("selects", "c36"), "abstract interpretation of the inlined IR against a reference model of select, over every script of answers from poll, clock and reactions", "other",
  "28 lists of conditions (up to 4, vectors included) with and without a deadline; every script of up to 2 wakeups (3 for single conditions; thorough: 3 for all). The context is a contract stub, the real one is C37's.")

P("C37", "Contexts: cancellation reaches every descendant, deadlines only tighten",
  "Cancelling a context cancels all its descendants, those made later or at the same moment on another thread included, and no ancestor, sibling or shield; a context is gone only after all its children are, and is not used after that. A context starts with the deadline and data its parent has then; a deadline, set directly, as a timeout or received, only ever moves earlier, and concurrent changes lose none. current() is the innermost live context of the thread that asked to be, else top(). set, get, reset and reset_all act by class on this context alone; a missing class reads as default. wait_cancelled throws cancelled, wait_deadline deadline_exceeded at the deadline. Over the wire go the time left, the data and the cancellation, in that order; null data is data_mismatch. All shared members are accessed under a common lock, locks are taken from parent to child.",
  ["histories", "schedules"], "every tree of contexts, every order of making, cancelling and destroying them, and any interleaving at their locks",
  "Not compiled by the tests here; a child made while its parent is being cancelled, or destroyed while its parent waits for it, are moments no test hits.",
  ["src/arpc/context.h", "src/arpc/context.cpp"],
  [("tree", "src/arpc/context.cpp add_child / remove_child / cancel"), ("deadline", "src/arpc/context.cpp set_deadline"), ("wire form", "src/arpc/context.h save / load")],
  ("contexts", "c37"), AS + "; a second thread's whole operation at every lock point", "other",
  "56 scenarios; 18 pairs of concurrent operations at every point where a lock is taken or the flag is used; lockset over 15 operations. Compiled against contract stubs of the flat containers and the flag. Values near the limits of the clock are not covered, nor references kept from get().")

P("C46", "Combined functions and conditions call what they should, once, in order",
  "compose_pipe calls the first function with the arguments, value category kept, and hands its result to the second, whose result is returned; compose_wrap hands the wrapper the original function and the arguments; compose_catch calls the handler with the very exception when the original throws the named class or one derived from it, and lets everything else through, the handler's own exceptions included. Each function runs exactly once per call and keeps its state between calls; nothing runs before the call; functions without result and move-only functions are accepted. A condition made by then, except or decorate keeps the descriptor, direction, timeout and polling flag of the one it is made from. never waits for nothing, always is due at once, timeout and polling carry the given time in milliseconds, only polling the flag, and a deadline carries the time left, never less than zero.",
  ["inputs", "histories"], "every combination of composed functions, arguments, exceptions and conditions",
  "Not compiled by the tests here; value categories, the dynamic class of an exception and kept attributes are combinations no test samples.",
  ["src/arpc/function.h", "src/arpc/awaitable.h", "src/arpc/awaitable.cpp"],
  [("composition", "src/arpc/function.h compose_pipe / compose_wrap / compose_catch"), ("conditions", "src/arpc/awaitable.h then / except / decorate"), ("time", "src/arpc/awaitable.cpp deadline / always / never")],
  ("combos", "c46"), AS, "other",
  "%d scenarios: arguments by value, lvalue and const lvalue; results, none; named, derived, base and unrelated exceptions; four kinds of conditions under every decoration. Compiled against the contract stub of function2." % 238)

P("C41", "Executors run every function given to them, once",
  "Every function given to a thread pool runs exactly once, on one of its workers, those that have to wait in the order they were given; at no point, however calls and workers interleave, does a function wait while a worker has nothing to do. A pool has the workers asked for. With a queue size of n, n functions can wait and run() then blocks until there is room, 0 standing for the number of workers and negative sizes for no limit; a run() that is cancelled while it blocks has no effect. Functions that throw, whatever they throw, do not stop their worker. run() copies lvalues, takes functions that can only be moved, and can be called by functions of the pool. Destroying the pool cancels each worker before joining it, once. The synchronous executor runs the function before it returns and lets exceptions through.",
  ["schedules", "histories"], "every sequence of given functions and idle workers, pool and queue size, and any interleaving of givers and takers",
  "Not compiled by the tests here; a function left waiting next to an idle worker needs a giver and a taker to decide at the same moment.",
  ["src/arpc/executor.h", "src/arpc/executor.cpp"],
  [("giving", "src/arpc/executor.h thread_pool::run"), ("taking", "src/arpc/executor.cpp request_work"), ("workers", "src/arpc/executor.cpp thread_pool / ~thread_pool")],
  ("pools", "c41"), AS + "; a second thread's whole operation at every point where another one locks, looks or waits", "other",
  "22 scenarios with up to 2 workers and 6 functions; 11 pairs of concurrent operations at each of their points. Queue and future are the real ones; flag, select and thread are contract stubs.")

P("C47", "A thread runs its function once, in a context of its own",
  "A thread calls the function it was made with once, with copies of its arguments made before the constructor returns, moved into the call. Meanwhile the current context is a new child of the thread's own context, which get_context() returns and which is a child of the context current where the thread was made, or for a daemon thread of the outermost one; making a thread does not change the creator's current context. A function ended by cancelled or deadline_exceeded just ends; any other exception is not swallowed. The thread's context moves with it, lives until the thread object goes, and cancelling it is cancelling what the function sees. Threads can not be detached or copied.",
  ["histories", "programs"], "every way to make, move, run, cancel and end threads, and every program that tries to detach or copy one",
  "Not compiled by the tests here; the wrong parent or a context that goes too early matters only when something is cancelled later.",
  ["src/arpc/thread.h"], [("start", "src/arpc/thread.h base_thread"), ("detach", "src/arpc/thread.h detach")],
  ("threads", "c47"), AS + "; compile-fail witnesses", "other",
  "21 scenarios of making, moving, nesting and ending threads; the analysis runs the new thread's function where the scenario says. Contexts are a contract stub (the real ones are C37's).")

P("C42", "A client gives every request exactly one ending",
  "A response sets the call with its request id, and no other; a response to no pending request, or a second one, is ignored. A call whose result cannot be decoded fails with the decoding error and disturbs nothing else. A call that cannot connect or send throws the error and is no longer pending; the connection is closed, calls that were waiting for responses fail, and the next call connects again. When receiving fails, or a message that is no response arrives, the connection is closed and all pending calls fail. A request with a deadline fails with deadline_exceeded once it has passed, the others stay; the client wakes up for the earliest deadline, also one set after it began to wait. A cancelled call throws cancelled, its late response is ignored, and the server is told, unless too many cancellations are waiting already; telling never blocks the caller and its failure disturbs nobody. Responses and deadlines are handled while another request is being sent, also those of the request just being sent. Connecting, sending and disconnecting exclude each other, and nothing is received before something was sent. Destroying a client cancels and joins its threads and disconnects.",
  ["fault_sequences", "histories", "schedules"], "every sequence of calls, responses, cancellations, deadlines and failures of the connection",
  "Not compiled by the tests here; what happens to pending calls when a connection breaks needs faults at particular points.",
  ["src/arpc/client.h"],
  [("pending requests", "src/arpc/client.h pending_ / set_response / abandon_request / gc / broadcast_exception"), ("sending", "src/arpc/client.h send / send_request"), ("receiving", "src/arpc/client.h receive"), ("deadlines and cancellations", "src/arpc/client.h handle_timeouts_and_cancellations")],
  ("rpcs", "c42"), AS + "; threads of the client run where the scenario says, connections fail as scripted", "other",
  "%d scenarios, with other threads running during a send in four of them; connection, context, thread, select and mutex are contract stubs. That a request being sent while an earlier failure is reported may be failed with it is left open." % 34)

P("C43", "A server answers each request on its own connection and drops broken ones",
  "A started server accepts connections and serves them all, none of its workers waiting for room only workers make: each request runs once under a context of its own beneath the top one, and its answer, with the request's id, goes to the connection it came from, or nowhere if that connection is gone, even if other connections use the same id. A request repeated while it is being served is not run again; once answered its id can be used again. A cancellation cancels the running request of that connection and id, or nothing. At most one worker receives from and one sends to a connection at a time. A connection whose receive or send fails, or which sends anything else than requests and cancellations, is not received from and sent to again and is returned to the acceptor, exactly once and only when no worker is using it; the others stay. stop() stops accepting and waits for the server's thread, closes the connections (one that a worker is using, when it is done), and is repeatable; start() can follow. Answers to requests of a connection before are not sent to later ones. The destructor stops. A connection producer accepts connections only up to its limit at a time, gives each one out once, closes those returned, and accepts another for each returned; a failed accept uses up no place; stop() ends accepting and start() resumes it.",
  ["schedules", "histories", "fault_sequences"], "every sequence of connections, messages, failures and cancellations, whichever worker runs when",
  "The server is not compiled by the tests here; these states take several connections, a failing one and a particular order of workers.",
  ["src/arpc/server.h"], [("connections", "src/arpc/server.h server::connection_wrapper"), ("requests", "src/arpc/server.h server::queue_request / cancel_request / request_wrapper"), ("reactor", "src/arpc/server.h server::react / start / stop"), ("producer", "src/arpc/server.h connection_producer")],
  ("rpcs", "c43"), AS + "; the server runs against a scripted transport, each job when the scenario says", "other",
  "32 scenarios for the server and 8 for the producer, each with its whole story: which worker runs when is written out per scenario, not every schedule. Queue, future, flag, pool, contexts and threads are contract stubs (C30 to C41, C47).")

P("C44", "A remote call runs the method it names, once, and returns its outcome",
  "Calling a method of a proxy runs the method of that name and signature of the object registered at the server under the proxy's name, once, with the arguments passed, and the call returns its result or throws the exception it ended with. A method of an extended interface can be called through any interface that has it. Each request carries an id no other request of the client has, the object's name, the method's name and signature, the caller's context limited by the proxy's timeout, and the arguments; the method runs under the request's deadline, limited by the server's request timeout. An unknown object, name or signature is answered with not_found, a request that cannot be decoded with the decoding error, and later requests are served as ever. Several calls may be in flight, and each gets its own answer in whatever order they finish. Registering an object under a name already used replaces the old object and all its methods; unregistering a name or an object removes what is registered so and nothing else. The server's pool has the options' size and queue size.",
  ["inputs", "histories", "programs"], "every interface, object, method, argument and outcome, in whatever order requests and answers come",
  "The whole RPC half is not compiled by the tests here; a request that reaches the wrong method or carries the wrong context looks like success.",
  ["src/arpc/client.h", "src/arpc/server.h", "src/arpc/interface.h", "src/arpc/object_name.h", "src/arpc/message_defs.h"],
  [("calls", "src/arpc/client.h remote_object::async_call / call"), ("dispatch", "src/arpc/server.h execute / queue_request / register_object"), ("interfaces", "src/arpc/interface.h")],
  ("rpcs", "c44"), AS + "; client and server run against each other over a model of the transport", "other",
  "%d scenarios over four interfaces (one extends two), with their whole exchange written out; the documented programs must also compile with the default connections. Encoders, connections, contexts, threads and select are contract stubs; whether encoders and decoders agree is C02's, hashes C10's, contexts C24's and C37's business." % 36)

P("C48", "Connections transfer everything or fail, and are closed only when unused",
  "A connection over a channel writes all the bytes given, in order, however few the channel takes at a time; it reads until the size asked for or the end of the input and reports how many it got. A failure of the channel, or a cancellation, ends the operation with that error. disconnect() makes blocked reads and writes end with an I/O error instead of transferring more, waits for those using the channel, and only then closes it; afterwards the connection is not connected and using it is an I/O error; it can be called again, and the destructor does it. Such a connection cannot be connected again. A device connection opens its path for reading and writing, a client connection dials its endpoint. A reconnectable connection makes its connection on connect() from the arguments it was given unless one is connected already, replaces a broken one, never waiting for itself; a failed attempt leaves it disconnected and it can be tried again. What is done with it is done with the connection it has, or is an I/O error without one. Its disconnect() disconnects that connection first, waits for its users, including conditions on its data, and then destroys it. A packet connection sends and receives through its protocol over its own connection, forwards the rest to it and disconnects it in its destructor.",
  ["schedules", "inputs", "fault_sequences"], "every sequence of operations, sizes, partial transfers and failures, with a disconnection at any wait",
  "Not compiled by the tests here; short writes, failed reconnections and a disconnect under a blocked reader do not happen in ordinary use.",
  ["src/arpc/connection.h", "src/arpc/connection.cpp"], [("channel", "src/arpc/connection.cpp channel_connection"), ("reconnectable", "src/arpc/connection.h reconnectable_connection"), ("packets", "src/arpc/connection.h packet_connection_impl")],
  ("conns", "c48"), AS + "; the channel, the usage lock and select are contract stubs", "other",
  "40 scenarios with their whole story. Channels are C31's, usage locks C23's, flags C33's, select C36's, protocols C15's business. Using the data condition or flush of a closed channel connection is not covered.")

P("C49", "Names are resolved as asked, in order, and every request is answered",
  "The system's resolver is asked with the endpoint's name and service (null when empty), family, type and passive flag, always with ADDRCONFIG and V4MAPPED. One thread answers the requests in the order they were made. A name that does not resolve makes its request end with an I/O error, and later requests are still served. The list the system returns belongs to the answer and is freed exactly once, also when nobody wants the answer. At most 16 requests wait; another one waits for room, and can be cancelled while it does. An endpoint passed as an lvalue is left as it is. Destroying the resolver cancels and joins its thread, and requests not yet answered end with a broken promise instead of waiting forever. singleton::get() makes one instance and always returns it.",
  ["schedules", "inputs", "fault_sequences"], "every order of requests, answers, failures, abandoned futures and destruction",
  "Not compiled by the tests here; failing lookups, a full queue and destruction with requests pending do not happen in ordinary use.",
  ["src/arpc/address_resolver.h", "src/arpc/address_resolver.cpp", "src/arpc/singleton.h"], [("resolver", "src/arpc/address_resolver.cpp address_resolver"), ("singleton", "src/arpc/singleton.h singleton")],
  ("resolves", "c49"), AS + "; threads, select and the system resolver are contract stubs", "other",
  "12 scenarios with their whole story. Queues are C34's, promises C33's, threads C47's business.")

P("C91", "Every wait that can end does end, and timeouts fire in time",
  "A thread that waits on a future, queue, flag, lock, select or connection resumes once what it waits for has happened, and a timeout or deadline is reported within a bounded time after it has passed.",
  ["schedules"], "every schedule and every delay of the kernel and the clock", "Liveness quantifies over schedulers and clocks.",
  ["src/arpc/select.h", "src/arpc/queue.h", "src/arpc/future.h"], [("waiting", "src/arpc/select.h select")],
  na="Progress under a scheduler and real time are run-time quantities; the static rules decide the safety half instead (who is notified, under which lock, with which time left: C23, C33 to C37).")
P("C92", "Messages cannot be forged without the key",
  "Without the 256-bit key nobody can produce a packet that is accepted, except with negligible probability.",
  ["inputs"], "every adversary", "Cryptographic strength is not a property of the code.",
  ["src/arpc/highway_hash.cpp", "src/arpc/packet_codecs.cpp"], [("tag", "src/arpc/packet_codecs.cpp mac_codec")],
  na="A claim about the hash function's strength, which no analysis of this code settles; that the function is computed as published and every tag bit is compared is C24 and C14.")
P("C93", "Decoding uses no more memory than the message warrants",
  "Decoding any byte stream allocates memory at most proportional to the bytes that were received.",
  ["inputs"], "every byte stream", "Needs hostile streams and a bound on allocations.",
  [BC], [("containers", BC + " reserve")],
  na="The amount allocated depends on run-time values and on the growth policy of standard containers; and the decoder does reserve what the stream announces, so this would not hold without a policy on sizes that the library does not define.")
P("C94", "Unrelated types never share a structure hash",
  "Any two types whose encodings differ have different structure hashes.",
  ["inputs"], "every pair of types", "There are more types than 32-bit hashes.",
  ["src/arpc/type_hash.h"], [("hash", "src/arpc/type_hash.h new_type_hash")],
  na="Impossible for a 32-bit hash; C10 decides the part that can hold (one change in a type changes its hash), over a generated universe.")
