#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl (run from /verif)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

SIG = ["include/kl/signal.hpp"]
prop("C01", "A signal emission calls exactly the right slots, in order, with its arguments",
 "Every emission of a signal calls, once each and in connection order (a slot connected at the front comes before all slots present then), exactly the slots that were connected when the emission began and that are still connected and not blocked when their turn comes; slots connected while it runs are left to later emissions, and a slot that stops the emission is its last. "
 "Every called slot receives the emission's argument values unaltered by earlier slots, whichever way it was connected (function object, member function with pointer, reference, shared or weak pointer, or another signal). "
 "This holds for any history of connecting, disconnecting, disconnecting all, blocking, stopping, throwing and nested or recursive emissions, issued from outside or from inside running slots, and in nested emissions the 'current connection' and 'stop' always refer to the innermost running one and are restored when it ends.",
 ["histories", "inputs"], "all histories of connect/disconnect/block/emit/stop/throw over several signals, with operations issued from inside slots to any nesting depth",
 "signal_test.cpp samples a few dozen fixed scenarios; re-entrancy makes the space of histories combinatorial, and defects hide in combinations (disconnect of the tail inside a nested emission, front insertion during an emission, a stop inside a nested emission).",
 SIG, [("emission traversal with tail snapshot and deferred removal", "signal<>::operator()"), ("thread-local emission state saved and restored", "tls_signal_info")],
 [("slots_/tail_", "list of slots", "signal.hpp"), ("active_emissions_", "emissions in flight; removal is deferred while non-zero", "signal.hpp")],
 ["calls received by slots", "this_signal::current_connection()"])

prop("C02", "Slot callables are destroyed exactly once, never early, never leaked",
 "Every callable given to a signal, with everything it captured, is destroyed exactly once: never while it is running, and no later than when it has been disconnected (or its signal has been destroyed), no emission of that signal is running and no connection, scoped connection or blocker handle to it remains. "
 "This holds for every history of connects, disconnects, moves, swaps, signal destruction, nested emissions and slots that throw, and no history reads or writes freed memory. "
 "Destroying a callable may itself use the signal (query, disconnect or connect slots from a captured object's destructor) without deadlock or corruption.",
 ["histories", "fault_sequences"], "all histories of signal, connection, scoped-connection and blocker operations, including exceptions thrown by any slot call and destructors of captured objects that re-enter the signal",
 "Tests count a few lifetimes by hand; leaks and double releases of the intrusive counts only show under particular orders of handle destruction, exceptions and deferred removal, and without a sanitizer a use after free usually passes silently.",
 SIG, [("intrusive reference counting of slots", "ref_counted, connection, blocker"), ("deferred physical removal", "cleanup_invalidated_slots_locked")],
 [("ref count", "owners of a slot", "ref_counted")], ["destructor counts of captured tokens", "AddressSanitizer/LeakSanitizer reports"])

prop("C03", "Connection, scoped-connection and blocker handles report and control their slot",
 "A connection reports connected exactly from the connect call until its slot is disconnected through any handle, disconnect-all or the destruction of the signal currently holding it, and every handle stays safe to use after that; the slot count and emptiness of a signal always match. "
 "Copies compare equal and hash equal and control the same slot, moving or swapping signals carries their slots in order with all handles following, a scoped connection disconnects exactly on destruction or replacement unless released, and connecting an empty callable yields an empty connection and changes nothing. "
 "A slot is blocked exactly while at least one blocker for it exists (copies count separately, moves transfer), and moving or swapping a signal that is being emitted terminates the process.",
 ["histories"], "all histories over several signals and pools of connection, scoped-connection and blocker handles being copied, moved, swapped, assigned and destroyed",
 "Tests check each handle operation once in isolation; the guarantees are about every interleaving of handle operations, moves of the signal and emissions.",
 SIG, [("back-pointer from slot to signal, rebound on move", "rebind_locked"), ("block counter", "slot_state::block/unblock")],
 [], ["connection::connected()", "signal::num_slots()/empty()", "calls received"])

prop("C04", "Signals are thread-safe: no races, no lost, extra, late or duplicated calls",
 "Any number of threads may concurrently emit, connect, disconnect, block, query and disconnect all slots of the same signal without data races, deadlock, use after free or leaks. "
 "In every schedule an emission calls each slot at most once; it calls every slot that was connected and unblocked before it began and throughout; it never calls a slot whose disconnect (or whose blocking) had completed before that slot's turn, nor one whose connect started after the emission's first call; and calls follow one connection order shared by all emissions. "
 "When all threads are done, the slot count and the next emission agree exactly with the operations that were performed.",
 ["schedules", "histories"], "all interleavings of emit/connect/disconnect/disconnect_all/block/num_slots by several threads on shared signals",
 "The suite has no adversarial multi-threaded histories and runs without a race detector; a missing lock or weakened atomic passes all single-threaded tests.",
 SIG, [("mutex around list structure", "mutex_"), ("atomic counts and sender pointer", "slot_state")],
 [("active_emissions_", "emissions in flight", "signal.hpp")], ["per-thread event logs of calls and operations", "ThreadSanitizer reports"])

SER = ["include/kl/json.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization.hpp", "src/json.cpp"]
prop("C05", "JSON round trip: every supported value survives serialization and back",
 "For every value of a supported type (booleans, all integer widths, floating point, strings of any bytes including NUL, reflected and plain enums, enum sets, optionals, tuples, pairs, fixed and growable sequences, string-keyed maps, reflected structs with inheritance, and their nestings), deserializing what was serialized yields an equal value, both through the in-memory tree and through compact or pretty JSON text (finite floating-point values may change in the last few bits through text; empty optionals as map values are dropped when null fields are being skipped). "
 "Deserializing into an object that already holds other data gives the same result as deserializing into a fresh one.",
 ["inputs"], "all values of the supported types, from trivial to deeply nested, and all prior contents of the destination",
 "Tests round-trip a handful of literal values; boundary integers, embedded NULs, empty containers, inheritance and stale destination contents form an unbounded input space.",
 SER, [("type-directed serialize/deserialize", "detail::serialize_adl/deserialize_adl")], [], ["json::serialize/json::dump/json::deserialize"])

prop("C06", "JSON text output is well-formed and says the same as the tree output",
 "For every supported value free of NaN and infinities, under both settings of skipping null fields and all field attributes, the compact and the pretty text output are each one well-formed JSON document, and parsing either gives the same document as serializing the value to a tree: the same members in the same order with the same types, strings and integers. "
 "Both outputs have exactly the shape the type's declaration prescribes: base-class fields first, then fields in declaration order, null members omitted exactly when requested, reflected enum values by name (other enums by number), and sequences, tuples and enum sets as arrays.",
 ["inputs", "configurations"], "all values of supported types and both null-skipping settings",
 "The streaming and tree back ends are separate code paths that tests compare on a few values only.",
 SER, [("stream backend", "json_stream_backend"), ("tree backend", "json_tree_backend")], [], ["json::dump/pretty_dump vs json::serialize vs an independent encoder"])

prop("C07", "JSON deserialization is strict: nothing is silently converted or truncated",
 "Deserializing any JSON document into any supported type either yields a value that represents exactly that document or throws the library's deserialization error: an integer is accepted only if it fits the target exactly, a string, boolean, number, array, object or null never stands in for another kind (floating-point targets accept any number; null only makes an optional empty), enum names must match exactly, and fixed-size targets reject arrays with too many elements or lacking non-optional ones. "
 "A reflected struct takes either an object, where unknown members are ignored, a missing or null member is accepted only for an optional field (unless attributes say otherwise) and of duplicate members the first counts, or an array holding its fields in order. "
 "A failure's message starts with the cause and then names the failing element or field and type from the inside out.",
 ["inputs"], "all pairs of JSON document and target type",
 "Tests probe a few type mismatches and limits; strictness must hold for every numeric boundary and every kind/type combination.",
 SER, [("expect_* checks and narrowing", "json::detail::expect_*, narrow"), ("error context accumulation", "deserialize_error::add")], [], ["value or exception of json::deserialize compared with an independent decoder"])

prop("C08", "Field attributes are honoured in every combination on reading and writing",
 "For every reflected struct and every input, field attributes act exactly as documented: renaming changes the key both ways, aliases are accepted on input only and yield to the main name and then to declaration order, skipping removes a field from output or leaves it untouched on input, defaults replace missing or null members, allow-missing keeps the old value, skip-if-null, skip-if-empty and emit-null decide omission regardless of the context setting, and validators and ranges reject bad values of a field that was read. "
 "Flattened fields read and write their members directly in the enclosing object, and an extra-fields map collects exactly the members no other field claims and writes them back, a colliding extra key being refused on output.",
 ["inputs", "configurations"], "all combinations of attributes in a family of reflected structs, all values, all input objects and both null-skipping settings",
 "Tests check attributes one at a time on fixed inputs; interactions (alias plus default plus null, flatten plus extra fields, rename plus skip) are only sampled.",
 ["include/kl/serialization_attributes.hpp", "include/kl/detail/serialization.hpp"], [("attribute handling in reflected (de)serialization", "dump_reflected_fields/add_reflected_fields/deserialize_adl")], [], ["serialized objects and deserialized values vs a table-driven model"])

prop("C09", "Patching updates exactly what the patch mentions",
 "Patching a reflected value with a JSON object changes exactly the fields the object mentions (by name or alias), recursing into nested reflected structs and engaged optionals, merging extra fields by key, clearing an optional or applying a default on null, and leaving everything else untouched; other values, and non-object patches, are replaced as by ordinary deserialization. "
 "Validators run on exactly the fields that were patched, ill-typed members throw the deserialization error, and patching with an object that mentions nothing is the identity.",
 ["inputs", "histories"], "all initial values, all patch documents, and sequences of patches",
 "Tests apply a handful of patches; the guarantee is about every subset of fields at every depth.",
 ["include/kl/detail/serialization.hpp", "include/kl/json.hpp"], [("patch_adl for reflected types and optionals", "detail::patch_adl")], [], ["value after json::patch vs reference merge"])

prop("C10", "Arbitrary bytes fed to the JSON entry points are handled safely",
 "Parsing any byte string as JSON of moderate nesting either yields a document equal to what the grammar says or throws the library's parse error, and feeding any such document to any deserializer or patch target either succeeds or throws the library's deserialization error. "
 "No input reads out of bounds, overflows, leaks or raises any other exception, including truncated, invalid and mutated documents, embedded NULs and views that are not NUL-terminated.",
 ["inputs"], "all byte strings (nesting bounded) and all target types",
 "Tests use well-formed literals; safety against hostile bytes needs volume under sanitizers.",
 SER, [("bounded parse", "json::parse"), ("type checks before access", "json::detail::expect_*")], [], ["exceptions escaping json::parse/deserialize/patch", "sanitizer reports"])

RES = ["include/kl/resource.hpp", "include/kl/resource_op.hpp", "include/kl/resource_attributes.hpp"]
prop("C11", "Resource operations hit the right node and have exactly the requested effect",
 "A path names a node of a resource by serialized field names, map keys, canonical decimal indices (child-key values where a collection declares a child key), looking through set optionals; anything else is answered not-found and has no effect. "
 "A successful GET returns that node's serialization; a successful PUT replaces it with the deserialized body, PATCH patches it, POST appends one deserialized element to a growable sequence, DELETE removes one collection or map entry or empties an optional, and nothing outside the addressed node changes. "
 "Statuses are: ok for GET/PUT/PATCH, created for POST, no-content for DELETE, bad-request for a malformed body, conflict for validation or duplicate-key failures, method-not-allowed where the node does not support the operation or is read-only.",
 ["inputs", "histories"], "all histories of GET/PUT/PATCH/POST/DELETE with arbitrary paths and bodies on a family of resource types",
 "Tests walk a few fixed trees; addressing and effects must be right for every path, including near misses, and after any history.",
 RES, [("path traversal", "visit_node"), ("verbs", "get/put/post/patch/del")], [], ["operation results and full dump of the value after each operation vs reference model"])

prop("C12", "A resource operation that does not succeed changes nothing",
 "Any resource operation that reports a failure status or leaves by an exception leaves the resource's value and its modification generations exactly as they were before, wherever the failure happened: path resolution, deserialization at any depth, a validator anywhere in the tree, a duplicate key, or an exception from a user type's copy, move, validator or deserializer (running out of memory aside). "
 "Validators see the whole tree as it would be after the change, so after every successful operation all validators and child-key uniqueness hold everywhere.",
 ["fault_sequences", "histories", "inputs"], "all histories with failures and exceptions injected at every point where user code runs inside an operation",
 "Tests make one validator fail in a few places; atomicity is about every failure point in every operation.",
 RES, [("candidate copy and rollback", "rollback_value/pop_back_rollback"), ("whole-tree validation", "validate_tree")], [], ["value and tracker state before/after each failed operation"])

prop("C13", "Modification tracking never misses a change and never goes backwards",
 "After every successful modification the current generation is strictly greater than before, and every path whose value the operation changed, together with the modified path's ancestors and (when a structured value was replaced or a collection resized) everything below it, reports a change since any earlier generation. "
 "Paths neither above nor below the modified one (or the collection an entry was removed from) report exactly the generation they reported before; failed operations and reads change no generation.",
 ["histories"], "all histories of operations and all watched paths, with watch points taken at any time",
 "Tests look at a few path pairs after one or two operations; missed notifications need the combination of operation, type and watched path.",
 RES, [("node and subtree generations", "modification_tracker")], [("current generation", "monotonic counter", "resource.hpp")], ["changed_at/changed_since on all paths vs diff of values"])

prop("C14", "Read-only and child-key rules cannot be bypassed",
 "PUT, PATCH or DELETE addressed to a read-only node, or to anything below a node whose subtree is read-only, and POST or entry DELETE in a collection that is itself read-only or has a read-only subtree, are answered method-not-allowed and have no effect, at any depth and through optionals, maps and sequences. "
 "The key of an element in a child-keyed collection cannot be changed by any operation addressed to the element or inside it, and no operation leaves two elements of such a collection with the same key.",
 ["inputs", "histories"], "all operations on all paths of resources mixing read-only, subtree-read-only and child-key attributes at various depths",
 "Tests try one read-only field and one keyed collection; bypasses arise from combinations of attributes, nesting and verbs.",
 RES, [("access context propagated down the path", "access_context"), ("identity check", "preserves_identity")], [], ["status and value after each operation"])

prop("C15", "Path parsing yields the canonical decoded segments for every string",
 "For every byte string, parsing a path yields exactly the sequence of non-empty segments between slashes after dropping '.' and resolving '..' (never above the root), each percent-decoded once with dots recognised before decoding, or throws the path error when an escape is malformed or decodes to a slash. "
 "All accessors agree with that sequence: size, emptiness, indexing, suffix joins, and views with dropped fronts or backs and prefixes, also after reuse, copying and moving of the path object.",
 ["inputs", "histories"], "all byte strings, and reuse of one path object for a sequence of inputs",
 "path_test.cpp has a few dozen literals; the segment table and text buffer can disagree only for particular mixes of escapes, '..' and lengths beyond the inline capacity.",
 ["include/kl/path.hpp", "src/path.cpp"], [("segment offsets into one decoded buffer", "path::set/push_decoded_segment/pop_segment")], [], ["all accessors vs an independent parser"])

BRW = ["include/kl/binary_rw.hpp", "include/kl/binary_rw/"]
prop("C16", "Binary writing and reading are inverse, for every value and type",
 "Writing any value of a supported type (trivially copyable values, spans, strings, vectors, maps, sets, pairs, optionals, variants, endian-swapped numbers and nestings) into a large enough buffer and reading it back yields an equal value, consumes exactly the bytes written and leaves no error, for any sequence of values in one stream. "
 "The encoding is the documented one (32-bit counts, one-byte presence and alternative tags, raw element bytes), and positions, remaining sizes and skips always account for exactly the bytes moved.",
 ["inputs", "histories"], "all sequences of values of the supported types, interleaved with skips",
 "Tests write and read a few literals per type; nested containers, empties and alternating sequences are not covered.",
 BRW, [("codec overloads per type", "binary_rw/*.hpp")], [("pos/left/err", "stream state", "binary_rw.hpp")], ["values read back, pos(), left(), raw buffer vs reference encoding"])

prop("C17", "Binary streams never leave their buffer and fail cleanly on any input",
 "Reading any sequence of supported types from any byte buffer, or writing any values into a buffer of any size, never touches memory outside the buffer, and an operation that does not fit sets the stream's error and leaves the position unchanged past the last complete item; once set, the error is sticky and every later read or write moves no bytes. A string or container whose reading fails is left empty. "
 "Hostile counts and tags are handled with memory proportional to the input and never raise an exception: a count that exceeds what remains, or an invalid alternative tag, is reported as a stream error.",
 ["inputs", "fault_sequences"], "all byte buffers, all buffer sizes including zero, all sequences of typed operations and skips",
 "Tests truncate a few buffers; an attacker-controlled length or an exact-boundary write needs exhaustive truncation points and sanitizers.",
 BRW, [("bounds check before copy and sticky error", "binary_reader/binary_writer")], [], ["sanitizer-guarded exact-size buffers", "err(), pos(), left()", "allocation monitor"])

prop("C18", "Base64 encoding and decoding follow RFC 4648 and invert each other",
 "For every byte sequence, standard and URL-safe encoding produce exactly the RFC 4648 text (padded, respectively unpadded) and decoding returns the original bytes. "
 "Decoding any other string succeeds only for text made of the right alphabet with legal length and padding, returning the RFC bytes, and otherwise reports failure; no input causes an out-of-bounds access.",
 ["inputs"], "all byte sequences and all candidate texts",
 "base64_test.cpp checks RFC vectors and some bad strings; every position, length class and byte value matters.",
 ["include/kl/base64.hpp", "src/base64.cpp"], [("table-driven codec", "src/base64.cpp")], [], ["outputs vs an independent bitwise codec"])

prop("C19", "Hash functions equal their published definitions on every input",
 "The FNV-1a and Hsieh string hashes return, for every byte string (any length, any byte values, compile time or run time, any way of passing the string), the value the published algorithm defines for it, without undefined behaviour, and equal strings always hash equal.",
 ["inputs"], "all byte strings",
 "hash_test.cpp checks a few ASCII strings; non-ASCII bytes and tail lengths take other paths.",
 ["include/kl/hash.hpp"], [("constexpr hash loops", "hash.hpp")], [], ["values vs an independent implementation"])

prop("C20", "Enum reflection, conversion and ranges are complete, exact and consistent",
 "For every reflected enum, in any of its declaration styles and with arbitrary explicit values, aliases and sizes, the reported count, values and names are exactly the declared ones in declaration order; converting each value to a string and back is the identity and converting any other string yields nothing. "
 "Numeric conversion accepts exactly the values in range, and iterating an enum range visits each value exactly once in order with iterator arithmetic, comparisons and distances consistent with that order.",
 ["inputs", "programs"], "all enumerators of a family of enums, all strings and integers offered for conversion, all iterator pairs",
 "Tests list a few enumerators; near-miss strings, sparse and negative values, and iterator arithmetic are not exercised.",
 ["include/kl/enum_reflector.hpp", "include/kl/reflect_enum.hpp", "include/kl/enum_traits.hpp", "include/kl/enum_range.hpp"], [("preprocessor-generated reflection data", "KL_REFLECT_ENUM")], [], ["reflector results vs the literal declaration"])

prop("C21", "An enum set behaves as a mathematical set of its enumerators",
 "Every sequence of operations on enum sets (construction, union, intersection, symmetric difference, complement, membership tests, comparison, conversion to and from the raw value, and the mask operators on bare enumerators) yields the same membership as a mathematical set over the enumerators' values, for every underlying type including the narrowest, the widest and signed ones.",
 ["histories", "inputs"], "all sequences of set operations over enums of every underlying width",
 "Tests apply each operator to a couple of values; algebraic laws must hold for all sets.",
 ["include/kl/enum_set.hpp", "include/kl/enum_traits.hpp"], [("bitwise representation", "enum_set")], [], ["test()/value()/comparison vs std::set model"])

prop("C22", "Struct reflection visits every declared field exactly once, in order",
 "Reflecting any object of a reflected type visits exactly its declared fields, base types first and in declaration order, each with its name, type, attributes and a reference to that very object's member (constness preserved), and the reported field counts, names and attribute queries agree with the declaration (the first declared attribute of the asked type or of one derived from it is returned). "
 "Visiting through attribute filters, tuple views and tuple algorithms sees the same fields, and writing through the references changes only that object's member.",
 ["programs", "inputs"], "a family of reflected types (macro styles, inheritance, many fields, attributes) and all object values",
 "Tests check a few structs; aliasing, order and filtering must hold for all shapes.",
 ["include/kl/ctti.hpp", "include/kl/reflect_struct.hpp", "include/kl/tuple.hpp"], [("macro-generated visitor", "KL_REFLECT_STRUCT")], [], ["visited names/addresses vs offsetof-style ground truth"])

prop("C23", "Information attached to an exception is kept, found and never shared by accident",
 "Information attached to an exception under a tag is returned by lookup for exactly that tag (the most recently attached value), survives throwing, catching as a base type, rethrowing, copying and transport between threads, and vanishes when unset, revealing an earlier value if there was one. "
 "Copies are independent: attaching to or removing from one exception object never changes what another reports, and every attached value is destroyed exactly once when the last object holding it dies.",
 ["histories"], "all histories of attach, unset, lookup, copy, move, throw and rethrow over several exception objects and tags",
 "Tests attach two or three values to one exception; sharing bugs need several copies and removals in particular orders.",
 ["include/kl/exception_info.hpp"], [("intrusive list of attached nodes", "exception_info")], [], ["get()/diagnostics on every copy vs a per-object model", "value lifetime counts"])

prop("C24", "A file view shows exactly the file's bytes or fails, and leaks nothing",
 "Opening a readable regular file yields a view of exactly its bytes, for every size including empty and page multiples, valid for the lifetime of the view object and unaffected by moving it; opening anything that cannot be viewed (missing, directory, unreadable) throws a system error. "
 "Whatever happens, including failures injected at each underlying system call, no file descriptor or mapping is leaked or released twice.",
 ["inputs", "fault_sequences"], "all file sizes and contents, all kinds of path, failure of each system call used",
 "Tests open one or two files; failure paths of individual system calls are not exercised.",
 ["include/kl/file_view.hpp", "src/file_view_unix.cpp"], [("open/fstat/mmap with cleanup", "file_view_unix.cpp")], [], ["bytes seen, exceptions, /proc/self/fd and /proc/self/maps, interposed system calls"])

prop("C25", "Split, zip, join and iterator helpers agree with their plain definitions",
 "For every string and delimiter set, splitting visits exactly the substrings between delimiters in order, keeping or skipping empty ones as requested (a delimiter at the very end just ends the last substring); zipping visits the k-th elements of all ranges together, by reference, up to the shortest; joining into a stream writes the elements with the delimiter strictly between them (or the empty text for no elements). "
 "Iterators and ranges built with the helpers satisfy the iterator laws: increment and decrement invert, distance and offset agree, and the orderings match positions.",
 ["inputs"], "all strings, delimiter sets, ranges of any lengths and iterator positions",
 "Tests use a few literals; empties, leading/trailing delimiters and unequal lengths multiply.",
 ["include/kl/split.hpp", "include/kl/zip.hpp", "include/kl/stream_join.hpp", "include/kl/iterator_facade.hpp", "include/kl/range.hpp"], [("iterator adaptors", "iterator_facade")], [], ["visited elements vs plain loops"])

prop("C26", "The YAML back end agrees with the JSON back end",
 "For every supported value, YAML serialization (tree and text) followed by deserialization yields an equal value, and its document has the same shape (keys, order, nulls, sequences, scalars) as the JSON form of that value. "
 "Deserialization and patching from YAML obey the same field-attribute, missing-member, range and error rules as JSON, throwing only the library's errors, and never modify the source document.",
 ["inputs", "configurations"], "all values of supported types and all documents derived from them by mutation",
 "YAML is not part of the default build here, and its tests use fixed literals.",
 ["include/kl/yaml.hpp", "src/yaml.cpp"], [("YAML backends", "yaml.hpp")], [], ["yaml results vs json results"])

prop("C27", "Deferred actions and variant matching run exactly once, on every exit path",
 "An action deferred to the end of a scope runs exactly once when the scope ends, whether by falling through, returning, breaking or an exception, in reverse order of several such actions, seeing the variables as they are then. "
 "Matching a variant calls exactly the handler for the alternative it holds, once, with that very value, and returns the handler's result.",
 ["inputs", "fault_sequences"], "all exit paths of nested scopes and all alternatives",
 "Tests cover one fall-through defer and a few matches.",
 ["include/kl/defer.hpp", "include/kl/match.hpp"], [("scope guard", "KL_DEFER"), ("overload set", "match")], [], ["logged actions vs expected sequence"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
