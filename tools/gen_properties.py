"""Writes /verif/properties.jsonl (one property per line). Edit the table here, then rerun."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("H01", "Published hash algorithms return the published values",
  "For every byte string and every seed or key, the library's MurmurHash3 (64 and 128 bit), xxHash64, XXH3 (64 and 128 bit), SipHash (every round variant offered), FNV-1a and rapidhash return exactly the value that the published definition of that algorithm gives, in one shot and through the algorithm policy types.",
  ["inputs"], "all lengths (each length branch and stripe/block boundary), all byte contents including bytes >= 0x80 and NUL, all 64-bit seeds / 128-bit keys",
  "hash_test.cc and hash_differential_test.cc pin a few vectors and lengths; every length bucket, tail length and seed interaction has its own code path.",
  ["mbo/hash/hash_murmur3.h","mbo/hash/hash_xxh64.h","mbo/hash/hash_xxh3.h","mbo/hash/hash_siphash.h","mbo/hash/hash_fnv1a.h","mbo/hash/hash_rapidhash.h"],
  [("per-algorithm GetHash64/GetHash128","mbo/hash/hash_*.h"),("length dispatch of XXH3","mbo/hash/hash_xxh3.h")])
p("H02", "In-house hashes are a fixed function of bytes and seed",
  "For every byte string and every seed, mumbo, jumbo, dumbo, fambo and every tembo configuration return the value of their documented construction (the values the library's pinned vectors define), 64 and 128 bit, so that hashes stored or exchanged by one build stay valid for every other build.",
  ["inputs","configurations"], "all lengths and contents, all seeds, all tembo lane/constant/secret-loop configurations",
  "The pinned vectors sample a fixed list of lengths and two or three seeds with one content pattern; a deviation at another length, seed or byte value passes them.",
  ["mbo/hash/hash_mumbo.h","mbo/hash/hash_dumbo.h","mbo/hash/hash_fambo.h","mbo/hash/hash_tembo.h","mbo/hash/hash_internal_util.h","mbo/hash/hash_test_vectors.inc"],
  [("GetHash64/GetHash128 of each namespace","mbo/hash/hash_{mumbo,dumbo,fambo,tembo}.h"),("multiply-fold and tail loads","mbo/hash/hash_internal_util.h")])
p("H03", "The build-time hash port agrees with the C++ hashes",
  "The Starlark (build-time) hash functions return the same 64-bit value as the C++ functions of the same name for every string and seed; the derived mangle constant depends only on its version, seed and bucket inputs, bucket count 0 disables it (0), 1 gives the one pinned constant, and N > 1 yields only non-zero constants, at most N different ones; the hash command-line tool (the ports' reference) prints the named algorithm's 64-bit default-seed value, as 16 uppercase hex digits, once for its data argument or for each input line, and rejects unknown algorithms and wrong usage without output.",
  ["inputs","configurations"], "all strings (every length branch), all seeds, all version/seed/bucket settings",
  "The Starlark code only runs inside the build for one version string; no test compares it to the C++ code over inputs.",
  ["mbo/hash/hash.bzl","mbo/hash/internal/hash_mangle_seed.bzl","mbo/hash/hash_mumbo.h","mbo/hash/hash_dumbo.h","mbo/hash/hash_fnv1a.h","mbo/hash/hash_tool.cc"],
  [("mumbo/dumbo/fnv1a in Starlark","mbo/hash/hash.bzl"),("mangle_constant","mbo/hash/internal/hash_mangle_seed.bzl")])
p("H04", "Streamed hashing equals one-shot hashing for every chunking",
  "For every algorithm with a streaming state, feeding a byte string in any sequence of chunks (including empty ones and chunks of any alignment) yields the same result as hashing the whole string at once with the same seed; reading the result does not disturb the state, a copied state continues independently, and a reset (re-initialised) state starts afresh.",
  ["inputs","histories"], "all byte strings, all chunk boundaries, all interleavings of update / finalize / copy",
  "Tests use a handful of fixed chunkings; buffer-boundary errors depend on the exact split and total length.",
  ["mbo/hash/hash.h","mbo/hash/hash_murmur3.h","mbo/hash/hash_xxh64.h","mbo/hash/hash_xxh3.h","mbo/hash/hash_siphash.h","mbo/hash/hash_fnv1a.h"],
  [("streaming states: Init/Update/Finalize","mbo/hash/*.h")])
p("H05", "Hashing is pure: compile time = run time, no over-read, any alignment",
  "A hash evaluated at compile time equals the same hash evaluated at run time; the result depends only on the byte values, length and seed (never on address, alignment, surrounding memory or earlier calls), and no byte outside the given range is ever read.",
  ["inputs","configurations"], "all algorithms, lengths, alignments, surrounding memory contents, and evaluation modes",
  "Tests compare compile time and run time for a few literals and never place inputs against inaccessible memory.",
  ["mbo/hash/hash_internal_util.h","mbo/hash/hash.h"],
  [("separate constant-evaluated and run-time load paths","mbo/hash/hash_internal_util.h")])
p("H06", "Derived hash API obeys its laws for every algorithm",
  "For every algorithm, the default GetHash/GetHash32/GetHash128, hash combination, 128-to-64 folding, seed mangling and string-hasher functors are the documented functions of that algorithm's 64/128-bit hash: mangled results differ from raw ones by exactly the mangle constant, the 32-bit value folds the 64-bit one, equal strings hash equally across string types, and Hash128 compares, orders and prints consistently with its two halves.",
  ["inputs"], "all algorithms, strings, seeds and hash values",
  "Tests check single examples per function.",
  ["mbo/hash/hash.h","mbo/hash/hash_extra.h","mbo/hash/hash_mangle.h","mbo/hash/hash_types.h"],
  [("Hasher adaptor","mbo/hash/hash.h"),("hash_extra / hash_mangle","mbo/hash/hash_extra.h, mbo/hash/hash_mangle.h")])

p("D01", "Digests equal the standard algorithm for every message",
  "For every message, MD5, SHA-1, SHA-224/256, SHA-384/512 (and SHA-512/256), SHA3, BLAKE2b and BLAKE3 digests, their hexadecimal rendering, and their compile-time evaluation equal the values of the published standards.",
  ["inputs"], "all message lengths (each block, padding and tree boundary) and contents",
  "Tests pin known-answer vectors; padding and chunk-tree errors appear only at particular lengths.",
  ["mbo/digest/digest.h","mbo/digest/digest_md5.h","mbo/digest/digest_sha1.h","mbo/digest/digest_sha256.h","mbo/digest/digest_sha512.h","mbo/digest/digest_sha3.h","mbo/digest/digest_blake2b.h","mbo/digest/digest_blake3.h"],
  [("per-algorithm Digest","mbo/digest/digest_*.h")])
p("D02", "Streamed digests equal one-shot digests for every chunking",
  "For every digest algorithm, updating with any sequence of chunks yields the digest of the concatenation; finalizing does not disturb the running state, so a prefix digest may be taken at any point and the stream continued, and copies evolve independently.",
  ["inputs","histories"], "all messages, chunkings, and positions of intermediate finalize/copy",
  "Tests use a few fixed chunk sizes.",
  ["mbo/digest/digest.h","mbo/digest/digest_blake3.h","mbo/digest/digest_blake2b.h","mbo/digest/digest_sha3.h"],
  [("StreamInit/Update/Finalize and Streamer","mbo/digest/digest*.h")])
p("D03", "Keyed digests, HMAC, XOF and key derivation follow their standards",
  "HMAC over every hash, keyed BLAKE2b and BLAKE3, BLAKE3 key derivation and the SHAKE/BLAKE3 extendable outputs equal the standards' values for every key, context, message and output length; a shorter extendable output is a prefix of a longer one, and streaming keyed computation equals one-shot.",
  ["inputs"], "all key lengths (shorter, equal and longer than the block), contexts, messages, output lengths",
  "Tests pin RFC vectors with fixed key and output sizes.",
  ["mbo/digest/digest_hmac.h","mbo/digest/digest_blake2b.h","mbo/digest/digest_blake3.h","mbo/digest/digest_shake.h"],
  [("HMAC key padding","mbo/digest/digest_hmac.h"),("XOF squeeze / root output","mbo/digest/digest_shake.h, mbo/digest/digest_blake3.h")])
p("D04", "Checksum lists verify exactly what they name",
  "Every line the digest tool prints for a file parses back to that digest and that exact file name (including names with backslashes or newlines), malformed lines are rejected and never crash, and checking a list reports success exactly when every named file exists, is readable and has the stated digest.",
  ["inputs","histories"], "all digests, file names, line contents and file-system states (modified, missing, unreadable, directory)",
  "Tests parse a dozen fixed lines and run the CLI over a fixed testdata set.",
  ["mbo/digest/checksum.h","mbo/digest/checksum.cc","mbo/digest/digest_main.cc"],
  [("ParseChecksumLine","mbo/digest/checksum.cc"),("check mode","mbo/digest/digest_main.cc")])

p("C01", "LimitedVector behaves like a vector of bounded capacity",
  "After every sequence of operations a LimitedVector holds exactly the elements a standard vector would hold after the same operations (contents, order, size, returned iterators, references and comparisons), and every element it ever constructs is destroyed exactly once; only exceeding the capacity or another stated precondition may fail.",
  ["histories","configurations"], "all operation sequences within capacity, element types with non-trivial construction/assignment/destruction, all capacities",
  "Tests run short fixed scripts, mostly on int and std::string.",
  ["mbo/container/limited_vector.h"],
  [("LimitedVector operations","mbo/container/limited_vector.h")])
p("C02", "LimitedSet behaves like an ordered set of bounded capacity",
  "For every option setting and supported unroll limit (unrolled or binary index search, custom or standard comparator, sorted-input construction, trivial or non-trivial keys), a LimitedSet holds exactly the keys std::set would hold after the same operations, always sorted and unique, and all lookups (find, bounds, index, count, contains-all/any, heterogeneous) agree with std::set.",
  ["histories","configurations"], "all operation sequences within capacity, all option combinations and capacities on both sides of the unroll limit",
  "Tests use small fixed sets; the unrolled search has one branch per size and the option flags multiply the paths.",
  ["mbo/container/limited_set.h","mbo/container/internal/limited_ordered.h","mbo/container/limited_options.h"],
  [("index_of (unrolled / binary)","mbo/container/internal/limited_ordered.h"),("emplace/erase shifting","mbo/container/internal/limited_ordered.h")])
p("C03", "LimitedMap behaves like an ordered map of bounded capacity",
  "For every option setting and supported unroll limit a LimitedMap holds exactly the key/value associations std::map would hold after the same operations (insert keeps the first value, insert_or_assign and operator[] address the existing one), iterates in key order, and all lookups agree with std::map; every stored value is destroyed exactly once.",
  ["histories","configurations"], "all operation sequences within capacity, all option combinations, capacities on both sides of the unroll limit",
  "Tests use small fixed maps.",
  ["mbo/container/limited_map.h","mbo/container/internal/limited_ordered.h"],
  [("try_emplace / insert / operator[]","mbo/container/limited_map.h")])
p("C04", "Type-erased scans and container conversion preserve the elements",
  "Scanning any supported container through AnyScan, ConstScan or ConvertingScan visits exactly its elements, in its order, as often as it is iterated, with the right size and emptiness; ConvertContainer (with or without a conversion function) builds exactly the container that converting each source element in order would build and leaves a source it does not own unchanged.",
  ["inputs","configurations"], "all source container kinds (vector, list, set, map, initializer list, arrays, temporaries, shared/unique holders), contents and target kinds",
  "Tests check fixed short literals.",
  ["mbo/container/any_scan.h","mbo/container/convert_container.h"],
  [("scan iterators","mbo/container/any_scan.h"),("copy/convert loop","mbo/container/convert_container.h")])

p("C05", "Violated requirements are reported in both build configurations",
  "An operation of the limited containers, the optional reference holders, Json or Stringify that breaks a stated requirement (capacity, index, position, range, presence of a key or value, kind of value, sorted input, complete options) ends the process with a message by default and throws a std::runtime_error when built with require_throws; a rejected operation on a single element leaves the object as it was, and every element is still destroyed exactly once. An operation that breaks no requirement is carried out and neither ends the process nor throws. MBO_CONFIG_REQUIRE evaluates its condition exactly once and behaves as a single statement.",
  ["inputs","histories","configurations"], "all operation sequences mixing allowed and violating operations, in both build configurations",
  "The containers are mostly tested inside their limits and only in the default configuration.",
  ["mbo/config/require.h","mbo/container/limited_vector.h","mbo/container/limited_set.h","mbo/container/limited_map.h","mbo/container/internal/limited_ordered.h","mbo/types/optional_ref.h","mbo/types/optional_data_or_ref.h","mbo/json/json.h","mbo/types/stringify.h"],
  [("MBO_CONFIG_REQUIRE","mbo/config/require.h"),("capacity and range checks","mbo/container/limited_vector.h")])

p("F01", "A diff is empty iff the texts are equal and patches lhs into rhs",
  "With default comparison options, for every pair of texts and every algorithm the diff is empty exactly when the texts are equal, and otherwise the unified, context and normal outputs (any context size) are well-formed and applying them to the left text yields exactly the right text, including a missing final newline; the direct side-by-side view shows every line of both sides in order.",
  ["inputs","configurations"], "all text pairs (repeated lines, empty texts, missing final newline), all algorithms, formats and context sizes",
  "The golden files cover a few dozen pairs.",
  ["mbo/diff/diff.cc","mbo/diff/base_diff.cc","mbo/diff/chunked_diff.cc","mbo/diff/internal","mbo/diff/impl"],
  [("algorithms","mbo/diff/impl"),("chunk assembly / context","mbo/diff/internal")])
p("F02", "Diff options ignore exactly the differences they name",
  "For every pair of texts and every combination of ignore/strip/replace options, the diff is empty exactly when the texts are equal line by line after the named normalisations (case, whitespace kinds, comments, regular-expression replacement, final newline), and every line the diff marks as unchanged is equal under that normalisation; the blank-line and matching-line options then remove exactly those chunks whose changed lines are all blank or all matching, and the command line tool honours every one of these options.",
  ["inputs","configurations"], "all text pairs, all option combinations, all algorithms",
  "Options are tested one at a time on fixed inputs.",
  ["mbo/diff/diff_options.h","mbo/diff/diff_options.cc","mbo/diff/base_diff.cc","mbo/diff/internal"],
  [("line preprocessing","mbo/diff/internal"),("chunk suppression","mbo/diff/internal")])
p("F03", "The minimal Myers diff uses the fewest possible line edits",
  "With the minimal option, for every pair of texts the Myers algorithm reports an edit script whose number of removed plus added lines equals the minimum possible, and its default mode never loses correctness for large or dissimilar inputs.",
  ["inputs"], "all text pairs, in particular repetitive and large dissimilar ones",
  "Minimality is a statement about all edit scripts; tests compare to fixed outputs.",
  ["mbo/diff/impl"],
  [("Myers middle snake search and cost cap","mbo/diff/impl")])

p("P01", "Path joining and file access are faithful",
  "Joining and normalising paths is idempotent and agrees with lexical path semantics (an absolute part wins only where documented), and whatever bytes are written to a file are exactly the bytes read back, whole or line-limited, with errors reported as statuses and never as wrong content.",
  ["inputs","histories"], "all path strings, all byte contents, all line limits, missing/unreadable targets",
  "Tests use a few literals.",
  ["mbo/file/file.h","mbo/file/file.cc","mbo/file/artefact.h","mbo/file/artefact.cc"],
  [("NormalizePath/JoinPaths","mbo/file/file.cc"),("GetContents/SetContents/GetMaxLines","mbo/file/file.cc")])
p("P02", "A glob pattern matches exactly the paths its syntax describes",
  "For every valid glob pattern and every path, matching agrees with the documented glob semantics (literal characters including regular-expression metacharacters, ?, *, **, character ranges and escapes), options only switch the named feature, and invalid patterns are rejected with an error.",
  ["inputs","configurations"], "all patterns over the syntax, all paths, all option combinations",
  "Tests check a fixed table of pattern translations.",
  ["mbo/file/glob.h","mbo/file/glob.cc"],
  [("glob to regular expression translation","mbo/file/glob.cc")])
p("P03", "A glob walk reports exactly the matching file system entries",
  "For every directory tree, walking with a pattern reports each entry that matches and is reachable under the options exactly once, and nothing else; stop and do-not-recurse answers from the callback prune exactly what they name, and the glob tool shows and counts the same entries under its flags.",
  ["inputs","histories","configurations"], "all directory trees, patterns, options and callback decisions",
  "Tests walk one small fixed tree.",
  ["mbo/file/glob.cc","mbo/file/glob.h","mbo/file/glob_main.cc"],
  [("recursive walk with entry callback","mbo/file/glob.cc"),("glob tool","mbo/file/glob_main.cc")])
p("I01", "INI data survives a write/read round trip",
  "Every INI document built through the API whose groups, keys and values the syntax can express reads back identical after being written, lookups answer as a plain two-level map would, and parsing any text never crashes and yields what the documented syntax says (blank lines and comments mean nothing, groups, outer whitespace stripped, last assignment wins); missing or unwritable files are errors.",
  ["inputs","histories"], "all group/key/value strings the syntax can express, all input texts",
  "Tests parse a few fixed documents.",
  ["mbo/file/ini"],
  [("Parse / Write","mbo/file/ini")])

p("J01", "JSON values keep their data and serialise to equivalent JSON",
  "After every sequence of operations a Json value holds what a reference model holds (kind, size, lookups, iteration, conversions), equal values compare equal and ordering is a consistent total preorder with equality, and serialising yields valid JSON denoting the same data for every string and number.",
  ["inputs","histories"], "all nested values, operation sequences and strings/numbers",
  "Tests check fixed small values.",
  ["mbo/json/json.h"],
  [("Json variant, serializer, comparison","mbo/json/json.h")])
p("M01", "Template expansion substitutes exactly what the template says",
  "For every template and every set of values and sections, expansion replaces each value tag by its value, each section by its body once per dictionary (with the join text between), each range/list section by its elements, drops comments, leaves all other text untouched, and reports malformed or conflicting templates as errors without crashing.",
  ["inputs"], "all templates over the tag grammar, all data trees",
  "Tests use a fixed list of templates.",
  ["mbo/mope/mope.h","mbo/mope/mope.cc","mbo/mope/ini.h","mbo/mope/ini.cc"],
  [("tag expansion","mbo/mope/mope.cc"),("ini to template","mbo/mope/ini.cc")])

p("S01", "Escaped and quoted strings parse back to the original bytes",
  "For every byte string there is an escaped or quoted spelling that the string parser turns back into exactly those bytes, every documented escape yields its documented byte, stop and split characters end an item only when unquoted and unescaped, lists split into exactly the items written, and any other input is consumed up to the reported stop or rejected without crashing.",
  ["inputs","configurations"], "all byte strings, escape spellings, option combinations and arbitrary input",
  "Tests check a fixed table; the fuzz target only looks for crashes.",
  ["mbo/strings/parse.h","mbo/strings/parse.cc"],
  [("ParseString / ParseStringList","mbo/strings/parse.cc")])
p("S02", "String helpers agree with their plain definitions",
  "For every input: containment equals substring search; consuming or stripping a prefix/suffix removes it exactly when present; thousands-separated numbers are the decimal digits grouped by three and their predicted length is exact for every integer type; dropping indentation removes exactly the common first-line indent; splitting at the last separator yields the parts around it; stripping comments removes exactly the comment part of each line.",
  ["inputs"], "all strings (NUL and high bytes included), all integers of every width and sign",
  "Tests check literals; the number functions have a boundary per power of ten and type.",
  ["mbo/strings/contains.h","mbo/strings/indent.cc","mbo/strings/numbers.h","mbo/strings/split.h","mbo/strings/strip.h","mbo/strings/strip.cc"],
  [("Contains, DropIndent, BigNumber, AtLast, Strip*","mbo/strings")])

p("T01", "Comparison helpers are total orders consistent with the values",
  "The float, scalar and mixed-type comparison functions order all values (including NaN, infinities, signed zeros and mixed signedness) as a total preorder that agrees with the mathematical order of the values (NaN above every number and equal to itself; a bool against another integer type compares truth values), is antisymmetric under argument exchange and transitive, and the three-way, less-than and ordering-conversion forms agree with each other.",
  ["inputs"], "all values of all arithmetic type pairs, strings of all string types",
  "Tests check chosen pairs; transitivity and mixed-type agreement quantify over triples.",
  ["mbo/types/compare.h"],
  [("CompareFloat / CompareScalar / WeakToStrong / CompareLess","mbo/types/compare.h")])
p("T02", "Stringify renders every field, once, in order, in the chosen syntax",
  "For every aggregate value and output mode, stringification emits each non-suppressed field exactly once, in declaration order, with correct nesting, separators, keys and escaping, so that JSON modes of printable data produce valid JSON denoting the same data and equal values produce equal text; length limits cut containers and strings exactly at the limit.",
  ["inputs","configurations"], "all values of nested aggregates, containers, optionals, pointers, variants and all option settings",
  "Tests compare fixed structures with golden text.",
  ["mbo/types/stringify.h","mbo/types/extender.h"],
  [("Stringify field and value streaming","mbo/types/stringify.h")])
p("T03", "Extended structs compare and hash as the tuple of their fields",
  "For every extended struct, equality, ordering, hashing, construction from a tuple or arguments and conversion to a tuple are those of the tuple of its fields in declaration order, for every number of fields supported, and printing agrees with the stringifier.",
  ["inputs","programs"], "all field values and field counts",
  "Tests use a handful of structs.",
  ["mbo/types/extend.h","mbo/types/extender.h","mbo/types/tuple_extras.h","mbo/types/internal/decompose_count.h"],
  [("StructToTuple decomposition","mbo/types/internal/decompose_count.h"),("Comparable/AbslHashable extenders","mbo/types/extender.h")])
p("T04", "Reference and value holders track exactly their target",
  "After every sequence of set, emplace, assign, reset, copy and move operations, OptionalRef, OptionalDataOrRef, RefWrap, Required, OpaqueValue and OpaqueContainer report and yield exactly the value or reference last given (never a stale or copied one), comparisons and hashes are those of the held values, and every value they construct is destroyed exactly once; NoDestruct constructs its value exactly once from the given arguments, yields that one object, and never destroys it.",
  ["histories"], "all operation sequences and element types with observable lifetime",
  "Tests run short fixed scripts.",
  ["mbo/types/optional_ref.h","mbo/types/optional_data_or_ref.h","mbo/types/ref_wrap.h","mbo/types/required.h","mbo/types/opaque.h","mbo/types/container_proxy.h","mbo/types/no_destruct.h"],
  [("holder state transitions","mbo/types/optional_data_or_ref.h")])
p("T05", "Compile-time strings agree with run-time strings",
  "For every compile-time string and argument, its size, substring, search, prefix/suffix, concatenation and comparison operations return what the corresponding run-time string view operation returns (with out-of-range substrings empty), and two compile-time strings have the same type exactly when they have the same characters.",
  ["programs","inputs"], "all character sequences and argument positions",
  "Each literal is its own type; tests instantiate a few dozen.",
  ["mbo/types/tstring.h"],
  [("tstring members","mbo/types/tstring.h")])
p("T06", "Type-level searches and selections return what their definition says",
  "For every predicate and range the compile-time linear, reverse, max and binary searches return the index their definition gives (or the not-found value), case selection picks the first true condition, variant membership and field counting report the actual members, and tuple views of structs reference the actual fields in order.",
  ["programs"], "all predicates/ranges, condition lists, variants and struct shapes",
  "Tests instantiate fixed small programs.",
  ["mbo/types/template_search.h","mbo/types/cases.h","mbo/types/internal/cases.h","mbo/types/variant.h","mbo/types/tuple_extras.h","mbo/types/internal/decompose_count.h","mbo/types/typed_view.h"],
  [("BinarySearch/LinearSearch/MaxSearch/ReverseSearch","mbo/types/template_search.h"),("Cases / CaseIndex","mbo/types/internal/cases.h")])

p("A01", "Status propagation keeps code, message and payloads",
  "Building on or returning a status through the builder and the return/assign macros preserves the original code and payloads and exactly the documented combination of messages, never turns an error into success or success into an error, and evaluates the guarded expression once.",
  ["inputs","histories"], "all status codes, messages, payload sets and builder operation sequences",
  "Tests check fixed combinations.",
  ["mbo/status/status_builder.h","mbo/status/status_builder.cc","mbo/status/status_macros.h","mbo/status/status.h"],
  [("StatusBuilder","mbo/status/status_builder.cc"),("MBO_RETURN_IF_ERROR etc.","mbo/status/status_macros.h")])
p("L01", "Scoped log streams and checks emit once, with the given text",
  "A scoped stream writes its formatted location, message and streamed text exactly once to its destination when it ends and nothing when disabled; a scoped check evaluates its condition once and ends the process exactly when the condition is false; demangling maps every valid mangled name to its demangled form and returns any other text unchanged; a timing log is written exactly once when its scope ends, naming the function and message, unless it is shorter than its threshold and below the always-log severity.",
  ["inputs","histories"], "all streamed values, messages, conditions, and names",
  "Tests check a few literals.",
  ["mbo/log/scoped_stream.h","mbo/log/scoped_log_check.h","mbo/log/demangle.cc","mbo/log/demangle.h","mbo/log/log_timing.h","mbo/log/log_timing.cc"],
  [("ScopedStream","mbo/log/scoped_stream.h"),("Demangle","mbo/log/demangle.cc"),("LogTiming","mbo/log/log_timing.cc")])
p("B01", "Test matchers accept exactly what they describe",
  "The container, transformation and status matchers accept a value exactly when the plain condition they describe holds (element/key/value membership, capacity, transformed contents, status code, message and payloads) and reject it otherwise, with and without negation.",
  ["inputs"], "all containers, values, statuses and inner matchers",
  "Tests check fixed positives and negatives.",
  ["mbo/testing/matchers.h","mbo/testing/status.h"],
  [("matcher implementations","mbo/testing")])

p("B02", "RunfilesDir finds the file a label names",
  "For every layout of runfiles, RunfilesDir and RunfilesDirOrDie resolve a plain path, a label of the current workspace and a label or name of another repository, translated by the repository mapping of the current workspace, to exactly that file; where there are no runfiles they give an error, respectively end the process.",
  ["inputs"], "all layouts (workspaces, repositories, mappings, directory or manifest) and all spellings of paths and labels",
  "Tests resolve one file of the own repository in one layout.",
  ["mbo/testing/runfiles_dir.cc","mbo/testing/runfiles_dir.h"],
  [("RunfilesDir/RunfilesDirOrDie","mbo/testing/runfiles_dir.cc")])
p("Y01", "Markdown table alignment only changes table padding",
  "For every Markdown text, aligning tables keeps every non-table line and all fenced code unchanged, keeps every table's cells and alignment markers, lines its columns up, is idempotent, and check mode reports exactly the files that would change without writing them.",
  ["inputs"], "all texts with tables, fences, escaped pipes, ragged rows",
  "Tests check a dozen literals.",
  ["tools/align_markdown_tables.py"],
  [("align_text","tools/align_markdown_tables.py")])
p("Y02", "Coverage accounting counts exactly what the report says",
  "For every coverage report and policy, the tools count each selected line, function and branch by its recorded hits, exclusions and merges, restrict patch coverage to changed lines, fail exactly when a floor is missed, group each source under its one category, and keep the newest report per target.",
  ["inputs"], "all LCOV reports, policies, change sets and report metadata",
  "Tests check small fixed reports.",
  ["tools/coverage.py","tools/coverage_index.py","tools/coverage_sources.py"],
  [("parse_lcov/counts/failures","tools/coverage.py"),("latest_metadata/render_site","tools/coverage_index.py"),("grouped","tools/coverage_sources.py")])
p("Y03", "Repository lints report exactly the violations present",
  "For every buildifier-formatted BUILD file the lints report exactly the libraries that break the naming rule or lack a same-package test, with the right line; header-guard, header-claim and status-assert lints report exactly the offending files, and cache cleanup lists every matching cache except the newest.",
  ["inputs"], "all rule lists, dependency spellings, header paths and cache lists",
  "Tests check fixed snippets.",
  ["tools/build_rules.py","tools/check_cc_library_tested.py","tools/check_cc_target_naming.py","tools/check_headers_claimed.py","tools/check_status_assert.py","tools/cache_cleanup.py",".pre-commit/check_header_guards.py"],
  [("parse_rules","tools/build_rules.py"),("lint checks","tools/check_*.py")])
p("Y04", "The Bazel rules do what their attributes say",
  "A diff_test passes exactly if the diff tool, given the options its attributes name, finds no difference between the two files, and prints what that tool prints; a verify_digest_test passes exactly if every named file has its saved digest, and needs at least one; mope writes for each template what the mope tool writes, and mope_test passes exactly if all golden files equal that; the generated configuration header holds the values of the build settings and is otherwise its template.",
  ["inputs"], "all attribute values, file contents, packages, file origins (source, generated, external repository) and ways of finding runfiles",
  "The rules are only exercised by Bazel runs of a few instances with the local layout.",
  ["mbo/diff/diff.bzl","mbo/digest/digest.bzl","mbo/mope/mope.bzl","mbo/config/internal/config.bzl","mbo/config/config.h.in"],
  [("diff_test/_diff_test_impl","mbo/diff/diff.bzl"),("verify_digest_test","mbo/digest/digest.bzl"),("mope/mope_test","mbo/mope/mope.bzl"),("config_gen","mbo/config/internal/config.bzl")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
