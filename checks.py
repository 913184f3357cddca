"""Which harnesses decide which property, with which instrumentation and how many cases."""
import os
ROOT = os.path.dirname(os.path.abspath(__file__))
_ign = "-fsanitize-ignorelist=" + os.path.join(ROOT, "harness", "ignorelist.txt")
_base = ["-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "asan": dict(what=["address", "undefined", "leak"], compilers=[
        ("clang++", [*_base, "-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", _ign]),
        ("g++", [*_base, "-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,pointer-overflow", "-fno-sanitize-recover=all"])]),
    "gcc": dict(what=["address", "leak", "gcc optimised build"], compilers=[
        ("g++", [*_base, "-O2", "-fsanitize=address"])]),
    "tsan": dict(what=["thread"], compilers=[
        ("clang++", [*_base, "-O1", "-fsanitize=thread"]),
        ("g++", [*_base, "-O1", "-fsanitize=thread"])]),
    "plain": dict(what=[], compilers=[("g++", ["-g1", "-O1"]), ("clang++", ["-g1", "-O1"])]),
}
CHECKS = {}
def check(id, **kw):
    CHECKS[id] = kw

_WRAP = ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_mutex_unlock"]
def _sigseq(q, t):
    return [dict(name="signal_seq", src=["signal_seq.cpp"], variant="asan", quick=q, thorough=t),
            dict(name="signal_seq_gcc", src=["signal_seq.cpp"], variant="gcc", quick=0, thorough=t, thorough_only=True)]
_sig_rule = ("A case is a random history over 1-3 signals of connect (12 ways)/disconnect/disconnect_all/block/scoped/handle copy-move-assign/"
             "move/swap/destroy/emit operations, issued at top level and from inside running slots (nesting up to 5) with throwing and stopping slots; "
             "distinct = histories with a different sequence of operation/event kinds")
check("C01", level="exploration", technique="online reference-model monitor of emission traces under ASan/UBSan",
      jobs=_sigseq(80000, 2000000), rule=_sig_rule, min_distinct=5000,
      must_observe=["ev.call", "ev.exception", "ev.stop", "ev.self_disconnect", "op.move", "op.block", "op.expire"],
      assumptions=["a signal is not moved, swapped or destroyed while it is being emitted (documented precondition)"])
check("C02", level="exploration", technique="lifetime-token accounting monitor over random histories under ASan/LSan/UBSan",
      jobs=_sigseq(80000, 2000000), rule=_sig_rule, min_distinct=5000,
      must_observe=["ev.token_destroyed", "ev.dtor_reentry", "ev.exception", "op.scoped_destroy", "op.destroy_signal"],
      assumptions=["a handle is not used by a destructor that runs inside an assignment to that very handle"])
check("C03", level="exploration", technique="handle-state reference model checked after every operation under ASan/UBSan",
      jobs=_sigseq(80000, 2000000), rule=_sig_rule, min_distinct=5000,
      must_observe=["op.block", "op.unblock", "op.scoped_destroy", "op.scoped_release", "op.move", "op.swap", "op.move_assign", "ev.death_test", "op.connect_null"],
      assumptions=["the state of a moved-from scoped connection or of a move-assigned-from signal is not relied upon"])
check("C04", level="exploration", technique="ThreadSanitizer and ASan stress with injected delays plus offline trace-spec checker",
      jobs=[dict(name="signal_mt_tsan", src=["signal_mt.cpp"], variant="tsan", libs=_WRAP, quick=12000, thorough=400000, space="mt"),
            dict(name="signal_mt_asan", src=["signal_mt.cpp"], variant="asan", libs=_WRAP, quick=12000, thorough=400000, space="mt")],
      rule="A case runs 2-5 threads, each performing 15-50 random emit/connect/disconnect/disconnect_all/block/query operations on 1-2 shared signals "
           "(some connections shared between threads), with random delays before every lock and after every unlock and inside slots; distinct = different "
           "global interleaving of recorded events",
      min_distinct=2000, must_observe=["ev.calls", "ev.racing_disconnect", "ev.blocked_skip"],
      assumptions=["signals are not moved or destroyed concurrently with other use", "interleavings are those the scheduler produced under injected delays"])

check("C15", level="exploration", technique="differential monitor: path accessors vs independent parser under ASan/UBSan",
      jobs=[dict(name="path", src=["path.cpp"], repo_src=["src/path.cpp"], variant="asan", quick=80000, thorough=1500000)],
      rule="A case reuses two path objects for 1-6 set/clear/copy/move steps over generated strings (escapes, dots, NULs, high bytes, up to 60 segments) held in exact, "
           "unterminated buffers, and compares every accessor and view; distinct = different sequence of strings",
      min_distinct=5000, must_observe=["ev.accepted", "ev.rejected", "ev.beyond_inline", "ev.dotdot", "op.move", "op.copy"],
      assumptions=["the contents of a path object after a failed set are not relied upon", "the argument of set does not alias the path's own storage"])
_bin = [dict(name="binary", src=["binary.cpp"], variant="asan", quick=120000, thorough=6000000),
        dict(name="binary_gcc", src=["binary.cpp"], variant="gcc", quick=0, thorough=3000000, thorough_only=True)]
_bin_rule = ("A case is a sequence of up to 10 operations over 40 value types on one stream (write sequences at, just below or above the exact size; round trips; truncated, "
             "mutated and random inputs), checked after every operation; distinct = different operation/type/size log")
check("C16", level="exploration", technique="differential monitor: real streams vs reference codec after every operation under ASan/UBSan",
      jobs=_bin, rule=_bin_rule, min_distinct=10000, must_observe=["ev.roundtrip", "ev.large", "ev.exact_fit", "ev.write_ok", "op.wskip", "op.rskip", "op.peek"],
      assumptions=["a byte read into a bool is 0 or 1 (bool is not among the monitored types)"])
check("C17", level="exploration", technique="ASan/UBSan on exact-size buffers, allocation monitor and stream-state model",
      jobs=_bin, rule=_bin_rule, min_distinct=10000, must_observe=["ev.hostile", "ev.truncated", "ev.random_bytes", "ev.read_error", "ev.write_overflow"],
      assumptions=["every element type occupies at least one byte on the wire"])
check("C18", level="exploration", technique="differential monitor vs bit-string RFC 4648 codec, systematic byte/position sweep, ASan/UBSan",
      jobs=[dict(name="base64", src=["base64.cpp"], repo_src=["src/base64.cpp"], variant="asan", quick=300000, thorough=6000000)],
      rule="256 systematic cases put every byte value at every position of every length class (both directions); further cases are random byte strings and mutated texts; "
           "distinct = different byte string or text", min_distinct=10000, must_observe=["ev.systematic", "ev.roundtrip", "ev.rejected", "ev.decoded"],
      assumptions=["non-zero trailing bits in the last character, and wrong but short padding in URL form, are tolerated either way"])
check("C19", level="exploration", technique="differential monitor vs independent hash implementations, systematic byte/position sweep, ASan/UBSan",
      jobs=[dict(name="hash", src=["hash.cpp"], variant="asan", quick=500000, thorough=16000000,
                 fallback=dict(flags=["-DVF_NO_CT=1"], key="compile-time", what="the hashes of some literals cannot be computed at compile time:"))],
      rule="256 systematic cases put every byte value at every position of lengths 1-9; further cases are random strings at all alignments; literals are hashed at compile time; "
           "distinct = different string", min_distinct=10000, must_observe=["ev.systematic", "ev.compile_time", "ev.binary", "ev.tail1", "ev.tail2", "ev.tail3"],
      assumptions=["Hsieh's published algorithm takes the odd trailing byte as signed char"])

check("C20", level="exploration", technique="monitor of reflector/range results vs literal declarations under ASan/UBSan",
      jobs=[dict(name="enums", src=["enums.cpp"], variant="asan", args=["--mode", "reflect"], quick=30000, thorough=1500000)],
      rule="A case takes one of a family of reflected enums (scoped/unscoped, sparse, negative, aliased, renamed, every width) and checks names, near-miss strings, integers of "
           "every type around the range ends, iterator pairs and reflection queries against a hand-written table; distinct = different enum/query",
      min_distinct=1000, must_observe=["ev.named", "ev.unnamed", "ev.known_name", "ev.unknown_name", "ev.in_range", "ev.iter_pairs", "ev.for_each", "ev.indexing"],
      assumptions=["enumerators of one reflected enum used with ranges are contiguous between min and max, as enum_traits requires"])
check("C21", level="exploration", technique="set-model monitor over random operation sequences under ASan/UBSan",
      jobs=[dict(name="enums", src=["enums.cpp"], variant="asan", args=["--mode", "set"], quick=80000, thorough=2500000)],
      rule="A case is a random sequence of set operations on several enum sets of one underlying type, each result compared with a model set; distinct = different operation log",
      min_distinct=1000, must_observe=["ev.set_ops", "ev.queries", "ev.compares", "ev.mask_ops"], assumptions=["enumerators are single bits or zero"])
check("C22", level="exploration", technique="visit-log monitor vs hand-written layout tables under ASan/UBSan",
      jobs=[dict(name="ctti", src=["ctti.cpp"], variant="asan", flags=["-O0"], quick=30000, thorough=1500000)],
      rule="A case visits random objects of a family of reflected types (macro styles, friends, inheritance, many fields, attributes) const and mutable and compares each visited "
           "name/address/type/attribute with the declaration; distinct = different type/values/writes",
      min_distinct=1000, must_observe=["ev.fields", "ev.writes", "ev.tuples"], assumptions=[])
check("C23", level="exploration", technique="per-object reference model and value-lifetime accounting under ASan/LSan; ThreadSanitizer for copies in threads",
      jobs=[dict(name="exinfo", src=["exinfo.cpp"], variant="asan", quick=20000, thorough=1500000),
            dict(name="exinfo_mt", src=["exinfo.cpp"], variant="tsan", args=["--mode", "mt"], quick=1500, thorough=60000)],
      rule="A case is a random history of attach/unset/lookup/copy/move/assign/throw/rethrow over several exception objects and tags; threaded cases hand copies to threads; "
           "distinct = different operation log",
      min_distinct=5000, must_observe=["op.set", "op.unset", "ev.unset_inner", "op.copy", "op.move", "op.throw", "ev.rethrown", "ev.copy_modified", "ev.caught_modified", "ev.mt_threads"],
      assumptions=["a single exception object is not modified from two threads at once"])
_FW = ["-Wl," + ",".join("--wrap=" + f for f in "open open64 openat close fstat fstat64 stat mmap mmap64 munmap read pread lseek".split())]
check("C24", level="exploration", technique="system-call fault injection by interposition with fd/mapping accounting under ASan/UBSan",
      jobs=[dict(name="fileview", src=["fileview.cpp"], repo_src=["src/file_view_unix.cpp"], variant="asan", libs=_FW, quick=12000, thorough=200000)],
      rule="A case views a scratch file of a size around page multiples (or an unviewable path), possibly with one failing system call, moving and reopening views; "
           "distinct = different size class/path kind/fault/move pattern",
      min_distinct=100, must_observe=["ev.viewed", "ev.viewed_empty", "ev.moved", "ev.bad_path", "ev.faults", "ev.many", "ev.unlinked"],
      assumptions=["the file is not truncated while it is being viewed"])
check("C25", level="exploration", technique="differential monitor vs plain loops under ASan/UBSan",
      jobs=[dict(name="helpers", src=["helpers.cpp"], variant="asan", quick=400000, thorough=8000000)],
      rule="A case generates strings/delimiters/ranges of unequal lengths/iterator positions and compares every helper with a plain loop; distinct = different input",
      min_distinct=5000, must_observe=["ev.split", "ev.zip", "ev.join", "ev.facade", "ev.range"], assumptions=[])
check("C27", level="exploration", technique="event-order monitor over random exit paths and alternatives under ASan/UBSan",
      jobs=[dict(name="helpers", src=["helpers.cpp"], variant="asan", args=["--mode", "flow"], quick=80000, thorough=3000000)],
      rule="A case runs nested scopes with several deferred actions leaving by a random exit (fall-through, return, break, continue, goto, throw) and matches random variants; "
           "distinct = different nesting/exit/alternative",
      min_distinct=500, must_observe=["ev.alt0", "ev.alt1", "ev.alt2", "ev.alt3", "ev.exit0", "ev.exit1", "ev.exit2", "ev.exit3", "ev.exit4", "ev.exit5", "ev.unwound", "ev.fell_through", "ev.caught_in_dtor", "ev.in_handler"],
      assumptions=["deferred actions do not throw"])

# ------------------------------------------------------------------ JSON
_ALLT = ["json_plain.cpp", "json_structs.cpp", "json_custom.cpp", "json_attrs.cpp", "json_attrs2.cpp"]
def _json(ops, q, t, types=_ALLT):
    return [dict(name="json", src=["json_main.cpp", *types], repo_src=["src/json.cpp", "src/serialization_error.cpp"], variant="asan",
                 flags=["-DVF_OPS=%d" % ops], quick=q, thorough=t)]
_json_types = ("over ~80 types (all scalar widths, enums, enum sets, optionals, tuples, pairs, fixed/growable sequences, maps, recursive/inherited/private reflected "
               "structs, attributed structs, user-defined serializers)")
check("C05", level="exploration", technique="differential monitor vs an independent serialization model under ASan/UBSan",
      jobs=_json(1, 300000, 2500000), rule="A case generates a value of one type, serializes it (tree from an object destroyed afterwards, compact and pretty text, nulls skipped or not) and reads it "
      "back into fresh and into dirty objects; " + _json_types + "; distinct = different type and document", min_distinct=10000, must_observe=["ev.roundtrip", "ev.into_existing"],
      assumptions=["optionals are not nested directly in optionals", "enums hold declared values", "no NaN or infinity",
                   "types whose attributes make them asymmetric are compared with what the model reads back"])
check("C06", level="exploration", technique="output monitor: own strict JSON parser and model of the prescribed shape under ASan/UBSan",
      jobs=_json(2, 300000, 2500000), rule="A case generates a value of one type and compares tree, compact text and pretty text with the document the hand-written declaration tables prescribe; " + _json_types +
      "; distinct = different type, document and null setting", min_distinct=10000, must_observe=["ev.skip_nulls", "ev.emit_nulls", "ev.extra_collision", "ev.misc"],
      assumptions=["strings are byte-transparent: invalid UTF-8 is passed through", "no NaN or infinity"])
check("C07", level="exploration", technique="differential monitor: verdict, value and error context vs reference decoder on mutated documents under ASan/UBSan",
      jobs=_json(4, 500000, 4000000, ["json_plain.cpp", "json_structs.cpp", "json_custom.cpp", "json_attrs.cpp"]),
      rule="A case mutates (0-3 times: retyping, boundary integers, near-miss names, missing/duplicate/extra/reordered members, objects turned into arrays) a document of a random value, or makes a random one, "
      "and feeds it (as tree or text) to a fresh or dirty object; distinct = different type and document",
      min_distinct=10000, must_observe=["ev.accepted", "ev.rejected", "ev.context"], assumptions=["the state of a target whose deserialization failed is not relied upon"])
check("C08", level="exploration", technique="differential monitor vs attribute model (hand-written field tables), both directions, under ASan/UBSan",
      jobs=_json(7, 500000, 4000000, ["json_attrs.cpp", "json_attrs2.cpp"]),
      rule="A case writes, round-trips, or reads a mutated document into, one of 21 attributed types (rename, 1-8 aliases, skips, null/empty policies, defaults, allow-missing, validators, one- and two-level flatten, "
      "extra fields of several mapped types, attributes in bases and in containers); distinct = different type and document",
      min_distinct=10000, must_observe=["ev.accepted", "ev.rejected", "ev.roundtrip", "ev.extra_collision"], assumptions=["a name or alias of a skipped field is still claimed by that field"])
check("C09", level="exploration", technique="differential monitor: patched value vs reference patcher under ASan/UBSan",
      jobs=_json(8, 500000, 4000000), rule="A case patches a random value with a mutated partial document of the same type; " + _json_types + "; distinct = different type, value and patch",
      min_distinct=10000, must_observe=["ev.patched", "ev.identity", "ev.replaced", "ev.empty_patch", "ev.patch_rejected"], assumptions=["the state of a target whose patching failed is not relied upon"])
check("C10", level="exploration", technique="ASan/UBSan on exact unterminated buffers with independent strict parser as oracle",
      jobs=_json(16, 600000, 6000000), rule="A case is a byte string (random, token soup, or a mutated/truncated/NUL-injected JSON text, nesting up to 150) in an exact heap buffer, parsed and fed to 1-3 random types; "
      "distinct = different byte string", min_distinct=10000, must_observe=["ev.parsed", "ev.parse_error", "ev.fed_ok", "ev.fed_rejected"],
      assumptions=["nesting below 150", "lone surrogate escapes, a leading byte-order mark and numbers beyond the double range may be accepted or refused"])

# ------------------------------------------------------------------ resources
_RES = ["res_main.cpp", *["res_%d.cpp" % i for i in range(1, 10)]]
def _res(q, t):
    return [dict(name="resource", src=_RES, repo_src=["src/json.cpp", "src/serialization_error.cpp", "src/path.cpp"], variant="asan", quick=q, thorough=t)]
_res_rule = ("A case is a session of 3-10 GET/PUT/PATCH/POST/DELETE requests on one resource of 13 root types (read-only fields and subtrees, keyed/indexed/unaddressable collections, maps, optionals, "
             "inheritance, validators at several levels, types whose copies or deserializers throw), with valid, mutated and spiced bodies, valid and twisted paths, and faults thrown from the k-th call into "
             "user code; distinct = different request, tree before and status")
_res_ass = ["the resource starts out valid", "tuples are leaves of the path space", "user code throws at most once per request and allocation does not fail", "resource types use no flatten/skip attributes",
            "keys match at most one element", "where two refusals apply (out-of-range element of a collection that cannot lose elements; changed key in an invalid value) either status is accepted"]
_ops = ["op.GET", "op.PUT", "op.PATCH", "op.POST", "op.DELETE", "status.200", "status.201", "status.204", "status.400", "status.404", "status.405", "status.409"]
check("C11", level="exploration", technique="differential monitor: status, effect and body of every request vs a type-erased reference tree under ASan/UBSan",
      jobs=_res(16000, 600000), rule=_res_rule, min_distinct=10000, must_observe=_ops + ["ev.get_body", "ev.at_path"], assumptions=_res_ass)
check("C12", level="exploration", technique="before/after state monitor with faults injected into user callbacks under ASan/UBSan",
      jobs=_res(16000, 600000), rule=_res_rule, min_distinct=10000, must_observe=_ops + ["ev.fault_fired", "ev.user_exception", "ev.armed_veto", "ev.failed", "ev.succeeded", "ev.root_saw"], assumptions=_res_ass)
check("C13", level="exploration", technique="change-report monitor: every path ever seen compared before/after each request under ASan/UBSan",
      jobs=_res(16000, 600000), rule=_res_rule, min_distinct=10000, must_observe=_ops + ["ev.changed_paths", "ev.unrelated_paths", "ev.tracker"], assumptions=_res_ass)
check("C14", level="exploration", technique="protected-state monitor: read-only nodes and element keys before/after each request under ASan/UBSan",
      jobs=_res(16000, 600000), rule=_res_rule, min_distinct=10000, must_observe=_ops + ["ev.readonly", "ev.key_checked"], assumptions=_res_ass)

# ------------------------------------------------------------------ YAML
check("C26", level="exploration", technique="differential monitor: YAML back end vs the serialization model that decides the JSON one, source documents compared before/after, ASan/UBSan",
      jobs=[dict(name="yaml", src=["yaml_main.cpp", "json_plain.cpp", "json_structs.cpp", "json_attrs.cpp", "json_attrs2.cpp"], repo_src=["src/yaml.cpp", "src/serialization_error.cpp"],
                 variant="asan", pre_flags=["-I" + os.path.join(ROOT, "harness", "shim")], flags=["-DVF_YAML=1"], libs=["-lyaml-cpp"], quick=250000, thorough=2500000)],
      rule="A case writes and reads back a value of one of ~75 types as tree and text, feeds it a mutated document, patches it, parses hostile text, or walks documents through reassigned views; "
           "distinct = different type, operation and document",
      min_distinct=10000, must_observe=["ev.roundtrip", "ev.accepted", "ev.rejected", "ev.patched", "ev.from_text", "ev.views", "ev.source_checked", "ev.parsed", "ev.parse_error",
                                        "ev.extra_collision", "ev.skip_nulls", "ev.emit_nulls", "ev.fed_rejected"],
      assumptions=["strings are valid UTF-8", "scalar spellings only YAML knows (octal, hex, signs, yes/no, .inf, beyond the range of float) get no verdict", "no cyclic documents",
                   "texts yaml-cpp itself cannot write and read back are excluded", "the installed yaml-cpp 0.8 is used through a one-header shim (NodeType as a namespace)"])
