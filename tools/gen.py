#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand, not by a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant),
        why_tests_cant=why, anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)), technique, note))

TRUST = "Held on the executions observed only. Trusts the reference code of the harness, the Go toolchain and, where named, encoding/json."

prop("P01", "Every valid JSON text parses to exactly the value it denotes",
 "Every RFC 8259 text (any nesting up to the documented bound, blanks, escapes, surrogate pairs, duplicate keys where the last one wins, any scalar at the top level) is accepted by every parsing entry point, and yields exactly the tree the text denotes: types, key sets, element order, decoded strings and number texts. A value of any size and shape is parsed the same whatever was parsed before it.",
 "inputs histories", "all valid JSON texts, through all parsing entry points (copying, no-copy, string, Must*, UnmarshalJSON, UnmarshalBinary, encoding/json), in any sequence of parses",
 "Tests parse a few dozen literal documents; the parser has hand-written paths per token kind, in-place unescaping and a pool sized from previous inputs, whose mistakes depend on the particular bytes and history.",
 "unmarshal.go jsonvalue.go jsonvalue_internal.go marshaler_unmarshaler.go", [("recursive descent over bytes with in-place unescaping", "unmarshal.go"), ("value pool sized by input density", "jsonvalue_internal.go")],
 ["Unmarshal*, MustUnmarshal*, UnmarshalJSON, UnmarshalBinary"], "runtime monitoring: reference-parser oracle over generated executions",
 "Random texts in all styles, every code point in every escape form, nesting to 100000, wide and long documents and parse sequences are compared node by node with an independent parser that is itself cross-checked against encoding/json. " + TRUST)

prop("P02", "Hostile input is rejected cleanly and alike by every entry point",
 "No byte string makes parsing panic, hang, overflow the stack or use memory out of proportion; every entry point gives the same verdict. A text that is not JSON even under the documented tolerance (missing or extra commas, unknown escapes), a truncated or trailed document, a malformed UTF-8 or surrogate sequence or an unrepresentable number is rejected with an error and a non-nil, inert value of type NotExist. Whatever is accepted can be marshalled to valid JSON denoting the same value, and the input bytes are left unchanged.",
 "inputs", "all byte strings, through all parsing entry points",
 "Tests try a handful of malformed literals; out-of-bounds reads, accepted garbage and inconsistent entry points appear only on specific byte combinations and truncation points.",
 "unmarshal.go jsonvalue.go", [("bounds checks at each token reader", "unmarshal.go"), ("maximum nesting depth", "unmarshal.go"), ("error returns with NotExist value", "jsonvalue.go")],
 ["Unmarshal*, MustUnmarshal*, UnmarshalJSON, UnmarshalBinary"], "runtime monitoring: differential and crash monitors under enumerated and mutated input",
 "All words over token and string-byte alphabets up to a length, all two-byte UTF-8 leads, all 16-bit escapes, mutants, prefixes and large bombs run under a watchdog; verdicts are compared with a strict and a lenient reference parser. The lenient reference encodes the tolerance the code documents or exhibits today, and only texts outside it must be rejected. " + TRUST)

prop("P03", "Numbers keep their exact text and convert without silent loss",
 "A parsed number marshals to exactly its original text, wherever it stands in a document. Integers in [-2^63, 2^64-1] convert exactly through the 64-bit getters, floats convert to the nearest float64 (which Float32 rounds further), numbers outside the representable range are rejected at parse time and never wrapped, and the integer/float/greater-than-MaxInt64 predicates agree with the mathematical value and the text.",
 "inputs", "all number texts, in all positions",
 "Tests check a few boundary literals; overflow detection, leading zeros, fraction and exponent handling depend on digit patterns that only broad generation reaches.",
 "unmarshal.go jsonvalue.go conv.go", [("decimal accumulation with overflow checks", "unmarshal.go"), ("number text kept beside the parsed value", "jsonvalue.go")],
 ["Marshal, Int64, Uint64, Float64, Float32, IsFloat, IsInteger, GreaterThanInt64Max"], "runtime monitoring: big.Int/big.Rat oracle over generated numbers",
 "Integers around every boundary, random digit strings, all short words over the number alphabet and random floats are checked against math/big and strconv. " + TRUST)

prop("P04", "Marshalled output is always strictly valid JSON that denotes the value",
 "For every value tree and every combination of marshal options, marshalling either returns an error and no text, or a strictly valid RFC 8259 text that parses back, by this library and by encoding/json, to the value (after the transformations the options ask for). MarshalString, Marshal, their Must variants and encoding/json's view of the value agree; a nested failure is always reported.",
 "inputs configurations histories", "all value trees, however built (parsed, constructed, imported, edited), and all marshal option combinations",
 "Tests compare a few outputs with literals under single options; separators, escaping and error propagation interact with nesting, emptiness, omitted members and key sorting.",
 "marshal.go option.go sort.go conv.go marshaler_unmarshaler.go", [("recursive writer with comma management", "marshal.go"), ("option merging", "option.go")],
 ["Marshal, MarshalString, MustMarshal, MustMarshalString, MarshalJSON, MarshalBinary"], "runtime monitoring: strict reference parser as oracle on every output",
 "Random trees built by constructors, parsing and edits are marshalled under random option combinations, in both option styles, and each output is checked with an independent strict parser and encoding/json. Trees whose strings are malformed UTF-8 are only required to give valid JSON. " + TRUST)

prop("P05", "Each escaping option escapes exactly the characters it promises",
 "In every marshalled string and object key, quotes, backslashes and all control characters (including DEL) are always escaped and every character decodes back to itself. By default the output is pure ASCII with non-ASCII characters as \\u escapes (surrogate pairs beyond the BMP) and '&', '<', '>' and '/' escaped; OptUTF8 writes non-ASCII characters raw except U+2028 and U+2029, which are escaped always; OptEscapeHTML(false) and OptEscapeSlash(false) write exactly their characters raw; options combine independently.",
 "inputs configurations", "all Unicode strings, as values and as keys, under all escaping option combinations",
 "Tests try a few strings per option; the escape table has 128 entries plus multi-byte paths, per option combination, for keys and values.",
 "conv.go option.go marshal.go", [("ASCII escape table and Unicode escape function per option set", "option.go"), ("UTF-8 decoding loop", "conv.go")],
 ["Marshal of strings and keys"], "runtime monitoring: character-class oracle over every code point",
 "Every Unicode scalar value under all eight option combinations, as value and as key, alone and in context, plus random strings. Hex case and the choice among equivalent escapes are not prescribed. " + TRUST)

prop("P06", "Object keys come out in the requested order at every depth",
 "Under OptDefaultStringSequence, OptKeySequence, OptKeySequenceWithLessFunc or OptSetSequence, the keys of every object at every depth appear in the requested order: byte-wise ascending; listed keys first in list order with all others after them ascending; as the caller's less function says; or in the order the keys were set. No key is lost or repeated, and a less function is called with the path of the object being sorted, telling keys from indexes, and the values of the two keys.",
 "inputs configurations", "all trees, key lists and consistent less functions",
 "Tests sort one or two small objects; ordering depends on map iteration order, nesting inside arrays, path bookkeeping shared between siblings and key lists containing absent keys.",
 "sort.go marshal.go option.go", [("sorted marshalling per object", "sort.go"), ("parent path bookkeeping", "sort.go")],
 ["Marshal with ordering options; ParentInfo.KeyPath inside the callback"], "runtime monitoring: order oracle on outputs and on callback arguments",
 "Random nested trees under each ordering option are marshalled and the key order in the output text is compared with an independent sort; callbacks are monitored for path and value. Key lists with duplicates and simultaneous ordering options are not specified. " + TRUST)

prop("P07", "NaN and infinities are encoded exactly as the options say, or refused",
 "A tree holding NaN or an infinity anywhere makes every marshal call fail unless an option covers that value; with an option for NaN (to float, null or string) or for infinities (with the sign preserved and configured negative text) exactly those nodes are replaced, everywhere and nothing else (a member that becomes null stays, also under OptOmitNull, which is about null values), and the output is valid JSON. Option values that are themselves not finite, or strings for values they do not cover, never leak invalid JSON.",
 "inputs configurations", "all trees holding non-finite floats at any position, and all combinations of NaN and infinity options",
 "Tests put one non-finite float at the top or one level down; error propagation differs per container and marshalling path.",
 "marshal.go option.go conv.go new.go", [("per-number non-finite dispatch", "marshal.go")],
 ["Marshal with OptFloatNaN*/OptFloatInf*"], "runtime monitoring: option-model oracle over generated trees",
 "Random trees with non-finite floats at random positions under random option combinations against a small model of the options. " + TRUST)

prop("P08", "Omitting nulls and indenting change nothing but what they name",
 "With OptOmitNull(true) the output is that of the tree with every null-valued object member removed, at every depth and whatever its position, and nothing else (array elements stay). With OptIndent the output is the compact output re-indented exactly as the standard library indents it, with any prefix and indent, and whatever other options are in force.",
 "inputs configurations", "all trees, indent strings and combinations with the other options",
 "Tests check one indented document and a flat null; comma handling around omitted members and empty containers depends on position and ordering option.",
 "marshal.go sort.go option.go", [("omission while writing object members", "marshal.go"), ("indentation", "marshal.go")],
 ["Marshal with OptOmitNull, OptIndent"], "runtime monitoring: model oracle and encoding/json.Indent as reference",
 "Random trees and options against a model that removes null members and against json.Indent. OptOmitNull together with OptIndent on objects left empty is only checked for validity and value. " + TRUST)

prop("P09", "Any history of edits yields the document the model says",
 "Starting from any document and applying any sequence of Set, Append, Insert, Delete and sort operations, in any of their spellings (typed, Must, At-first, path list or single slice), the resulting document, each call's success or failure with its documented error, and each returned value equal those of a plain model of JSON trees. This includes creating intermediate containers, negative indexes, appending at index len, replacing values of another type, and edits made through references obtained earlier.",
 "histories inputs", "all finite histories of edits on all documents",
 "Tests apply one or two operations to fixed documents; index arithmetic, auto-creation and slice growth err on combinations of length, sign, depth and prior edits.",
 "set.go set_must.go insert_append_delete.go insert_append_delete_must.go jsonvalue_internal.go", [("path walking and auto-creation", "set.go"), ("array insertion and deletion", "insert_append_delete.go")],
 ["Set*/Append*/Insert*/Delete/At and their Must variants"], "runtime monitoring: lock-step executable model over random histories",
 "Thousands of random histories over small and mixed documents run in lock step with a reference model, comparing the whole document, the error class and the returned reference after every step. " + TRUST)

prop("P10", "A rejected edit changes nothing; a successful one only its target",
 "When an edit returns an error (bad path, wrong type, index out of range, unsupported or uninitialized child, wrong number of parameters), the whole document, including every nested value, its key sequence and the identity of its nodes, is exactly what it was before; no intermediate container is left behind. When it succeeds, every node outside the addressed location is the same node with the same content.",
 "inputs histories fault_sequences", "all documents and all failing or succeeding edits, at any point of a history",
 "Tests check that an error is returned, hardly ever that the document survived it, and never for failures deep in a path whose first elements were auto-created.",
 "set.go insert_append_delete.go", [("build the sub-tree first, attach last", "set.go"), ("checks before mutation", "insert_append_delete.go")],
 ["Set*/Append*/Insert*/Delete and Must variants with invalid arguments"], "runtime monitoring: before/after snapshot and node identity monitor",
 "Random documents and mostly invalid edits, with deep snapshots of content, key sequence and node pointers before and after. " + TRUST)

prop("P11", "Path reads find exactly the addressed value or fail with the right error",
 "Reading by any path (keys, indexes of any integer type, negative indexes, a single slice of keys and indexes) returns exactly the addressed node, or a non-nil inert NotExist value (or the zero of the typed getter) with the documented error: not found, index out of range, type mismatch or parameter error. Typed getters convert exactly as documented, string-to-number conversion included, the Must and typed variants agree with Get, and no path or value makes a read panic or change the document.",
 "inputs", "all documents, paths (valid or not, any parameter types) and getters",
 "Tests read a few literal paths; normalisation of negative and unsigned indexes, mixed parameter types and error classes form a large product.",
 "get.go conv.go jsonvalue.go errors.go", [("path walking", "get.go"), ("string to number conversions", "conv.go")],
 ["Get*, MustGet, typed value getters, Bytes"], "runtime monitoring: reference path-walk oracle over generated reads",
 "Random documents and random valid, near-valid and absurd paths through all getters against a reference walk. Conversions of floats outside the target integer range are not specified. " + TRUST)

prop("P12", "Case-insensitive access finds exactly what a lower-case match finds",
 "Caseless reads and deletes address a key when it is present exactly; otherwise a key whose Unicode lower-casing equals that of the requested one, at every path element; otherwise they report not found. Results never depend on edits made earlier to the document (keys added, replaced, removed, in whatever way), never panic, and ordinary reads stay case-sensitive.",
 "inputs histories", "all documents, keys of any case mixture and edit histories interleaved with caseless access",
 "Tests query a fresh document a few times; the lower-case index is built lazily and must follow every later edit.",
 "get.go set.go insert_append_delete.go jsonvalue_internal.go", [("lazily built lower-case key index", "jsonvalue_internal.go"), ("index maintenance on set and delete", "set.go, insert_append_delete.go")],
 ["Caseless().Get*, Caseless().Delete"], "runtime monitoring: reference-model oracle over interleaved histories",
 "Random histories of edits and caseless accesses over keys that collide in lower case, against a model that scans all keys. When several keys match, any of them is accepted. " + TRUST)

prop("P13", "Iteration visits every member exactly once, and stops when told",
 "Every way of iterating (callbacks, set-sequence callbacks, ranges, channels) visits each element or member of the container exactly once with its own key or index and its own node, arrays in index order and set-sequence iteration in set order; it stops when the callback says so and visits nothing on other types. Abandoning an iteration early leaks no goroutine and blocks nobody, and the collections returned are independent of the document.",
 "inputs histories schedules", "all containers, stopping points and consumers",
 "Tests iterate small fixed containers to the end or stop once; omissions and leaks depend on size, stopping point and abandonment.",
 "iteration.go", [("iterating over internal children", "iteration.go"), ("buffered channels", "iteration.go")],
 ["RangeObjects, RangeObjectsBySetSequence, RangeArray, IterObjects, IterArray, ForRangeObj, ForRangeArr"], "runtime monitoring: exactly-once monitor and goroutine-leak monitor",
 "Random containers of all sizes, all iteration forms, random stopping points, with goroutine counts sampled at quiescence. Mutation of the container inside its own iteration is not specified. " + TRUST)

prop("P14", "Equality and comparison are mathematically right",
 "Equal is an equivalence on values without NaN: objects compare by members regardless of order, arrays element by element, strings by content, and numbers by exact mathematical value whatever their spelling or representation (1, 1.0, 10e-1; 2^53 vs 2^53+1; 2^64-1). The four ordering operators hold exactly when both sides are numbers in that mathematical relation (IEEE rules for NaN and infinities), and any single difference anywhere in two trees makes them unequal.",
 "inputs", "all pairs and triples of values",
 "Tests compare a dozen pairs; float rounding, sign and representation mixtures, and single differences deep in trees are not sampled.",
 "compare.go", [("decimal comparison of number texts", "compare.go"), ("recursive equality", "compare.go")],
 ["Equal, GreaterThan, GreaterThanOrEqual, LessThan, LessThanOrEqual"], "runtime monitoring: big.Rat oracle, metamorphic equal/unequal pairs",
 "Number pairs around boundaries in different spellings against big.Rat; random trees against respelled and permuted copies and against copies with one difference. Decimal exponents are kept within a few hundreds: comparison cost grows with the exponent. " + TRUST)

prop("P15", "Importing a Go value gives the JSON that encoding/json would give",
 "Importing any Go value built from structs (nested and embedded, with name, omitempty, string and '-' tags), maps, slices, arrays, pointers, interfaces and scalars, including types with their own marshalers, yields a value that marshals to the same JSON, with the same omissions, as encoding/json, or fails when it does; nil slices become empty arrays (nil []byte an empty string). OptIgnoreOmitempty keeps exactly the omitempty fields. The source value is not changed and the result does not depend on it afterwards.",
 "inputs", "all Go types and values in the common subset of both encoders",
 "Tests import a few hand-written structs; kinds, nesting, tags and emptiness form a product of types and values.",
 "import_export.go", [("reflection walk over kinds and tags", "import_export.go")],
 ["Import, New, Set of Go values"], "runtime monitoring: differential oracle against encoding/json over random types",
 "Random struct types made by reflection and a catalogue of named types with random contents, compared with encoding/json. Documented or long-standing divergences listed in DESIGN.md are outside the statement. " + TRUST)

prop("P16", "Exporting fills a Go value as decoding the marshalled text would",
 "Exporting a value to any destination pointer leaves the destination exactly as encoding/json leaves it when decoding the value's JSON text into it, errors included; export followed by import gives the same value back for types that can hold it. The document is not changed and shares no memory with the destination.",
 "inputs", "all documents and destination types",
 "Tests export two or three fixed structs.",
 "import_export.go", [("export through marshalling", "import_export.go")],
 ["Export"], "runtime monitoring: differential oracle against encoding/json",
 "Random documents exported into random and catalogued destinations, matching and mismatching, compared with json.Unmarshal. " + TRUST)

prop("P17", "Documents, inputs and outputs never share mutable memory unexpectedly",
 "Changing the bytes or slices that were given to a copying entry point, or that were returned from Marshal, Bytes, an iteration or an export, never changes a document or a later result; two documents parsed, imported or built separately never influence each other; a read, comparison, iteration or marshalling never changes a document or the output of a later one. Results stay intact while later documents are parsed, marshalled and dropped.",
 "inputs histories", "all interleavings of building, reading, marshalling and scribbling over caller-owned memory",
 "Tests check single calls; aliasing shows only when caller-owned memory is overwritten, or pools and buffers are reused, afterwards.",
 "unmarshal.go jsonvalue_internal.go marshal.go conv.go internal/buffer/buffer_impl.go internal/unsafe/unsafe.go", [("copy on parse, in-place unescaping of the copy", "unmarshal.go"), ("string/byte conversions without copying", "internal/unsafe/unsafe.go")],
 ["all entry points taking or returning bytes, slices, maps"], "runtime monitoring: scribble-and-recheck aliasing monitor",
 "Populations of live documents are re-verified against snapshots while inputs and outputs are overwritten and other documents come and go under GC pressure. " + TRUST)

prop("P18", "Concurrent use is race-free where the library promises it",
 "Any number of goroutines may parse, build, import and marshal separate documents, and read, iterate, compare, export and marshal one shared document, at the same time, without data races and with the same results as alone; the default marshal options may be set, reset and used concurrently, each marshal call seeing one complete setting that was current during the call.",
 "schedules histories", "all schedules of concurrent readers, independent writers and option setters",
 "The test suite is sequential; a race needs two goroutines in specific windows.",
 "marshal.go option.go jsonvalue_internal.go unmarshal.go iteration.go", [("atomic default options", "option.go"), ("no shared state between documents", "jsonvalue_internal.go")],
 ["Unmarshal, Marshal, Get, iteration, SetDefaultMarshalOptions from several goroutines"], "runtime monitoring: Go race detector plus register-linearizability check of option histories",
 "Mixed concurrent workloads under the race detector, results compared with sequential ones, and recorded histories of option settings and marshals checked against an atomic register. Caseless access needs a lock, as documented. " + TRUST)

prop("P19", "Default marshal options apply exactly when set, and fully",
 "After SetDefaultMarshalOptions(opts), marshalling without options gives the same bytes as marshalling with opts did before, and marshalling with explicit options behaves as those options added on top of the defaults; each call replaces the previous defaults entirely, and ResetDefaultMarshalOptions restores the built-in behaviour. Option objects are not changed by use, and can be reused and combined freely, in either the functional or the structure style.",
 "histories configurations", "all sequences of setting, resetting and marshalling with any options",
 "Tests set one option once; leftovers appear only when settings follow each other or option values are reused.",
 "option.go marshal.go", [("default option storage and merging", "option.go")],
 ["SetDefaultMarshalOptions, ResetDefaultMarshalOptions, Marshal"], "runtime monitoring: register model over random histories",
 "Random histories of set, reset and marshal compared byte by byte with explicitly merged options. " + TRUST)

prop("P20", "No operation touches memory it does not own",
 "Under compiler pointer checking, address sanitizing and aggressive garbage collection with stack growth, no parse, marshal, edit, read, conversion or import performs an invalid pointer conversion, reads or writes outside an allocation, or yields a string or slice that later turns to garbage, for valid and hostile inputs alike.",
 "inputs histories schedules", "all operations on all inputs, with garbage collection and stack moves at any point",
 "Plain tests cannot see an invalid pointer whose memory happens to be still intact.",
 "internal/unsafe/unsafe.go unmarshal.go conv.go marshal.go jsonvalue_internal.go", [("unsafe string/byte conversions", "internal/unsafe/unsafe.go")],
 ["everything, in checkptr and AddressSanitizer builds"], "sanitizers: checkptr and AddressSanitizer builds under GC stress",
 "The parse, marshal, edit and conversion workloads repeated in builds with -d=checkptr=2 and -asan, with inputs in exactly sized allocations, plus GC stress. A clean run is not memory safety in general. " + TRUST)

prop("P21", "SortArray sorts by the caller's order and loses nothing",
 "SortArray leaves exactly the same elements (the same nodes) in the array, ordered so that no later element is less than an earlier one under the caller's function, for any total preorder, length and content; the callback gets elements of that array only, nested documents are untouched, and on anything but an array, or without a function, it does nothing.",
 "inputs", "all arrays and all consistent less functions",
 "Tests sort one small array of integers.",
 "sort.go", [("sort.Sort adapter", "sort.go")],
 ["SortArray"], "runtime monitoring: permutation and order monitor",
 "Random arrays of many lengths and contents under random preorders, with node identity checks. " + TRUST)

prop("P22", "Contains decides sub-document inclusion as documented",
 "beta.Contains(v, sub, path...) is true exactly when the value at the path includes sub: an object includes one whose every key it has with an included value, an array includes one that equals a contiguous run of its elements (the empty one always), and anything else must be equal. Every sub-document obtained by removing members is included, changing any remaining leaf makes it not included, a missing path is never included, and neither argument is changed.",
 "inputs", "all pairs of values and paths",
 "Tests check a few literal pairs; runs that match only partly before the real match, nesting and type mixtures are not sampled.",
 "beta/contain.go", [("recursive subset test", "beta/contain.go")],
 ["beta.Contains"], "runtime monitoring: reference-definition oracle and metamorphic pairs",
 "Random trees with derived included and non-included parts against a direct implementation of the definition. " + TRUST)

prop("P23", "Values work inside encoding/json, gob and binary round trips",
 "A value used as a field, element, or map value of any Go type and encoded by encoding/json appears as its own JSON and decodes back to an equal value, and the same holds for the binary marshaling interfaces (and gob); decoding into an existing value replaces it entirely and a failed decoding reports an error. Invalid or NotExist values are refused rather than producing broken output.",
 "inputs histories", "all values, enclosing types and decode targets, reused or fresh",
 "Tests encode one value once.",
 "marshaler_unmarshaler.go", [("MarshalJSON/UnmarshalJSON/MarshalBinary/UnmarshalBinary", "marshaler_unmarshaler.go")],
 ["encoding/json and encoding/gob with *V inside"], "runtime monitoring: round-trip oracle through encoding/json and encoding/gob",
 "Random values in structs, slices and maps encoded and decoded by encoding/json, gob and the binary methods, into fresh and reused targets. " + TRUST)

prop("P24", "Constructors hold exactly the Go value they were given",
 "Every constructor (New and the New<Type> functions, and the typed Set, Append and Insert methods, which take the same values) yields a value of the right type whose getters and JSON text give back exactly the argument: every integer of every width, every finite float in the text encoding/json or the requested format produces, every string, and bytes as standard base64. New of an unsupported argument yields a NotExist value rather than something wrong.",
 "inputs", "all argument values of all constructors",
 "Tests construct a few literals; width conversions, float formatting and sign handling err at boundaries.",
 "new.go set.go insert_append_delete.go jsonvalue.go", [("per-type constructors", "new.go")],
 ["New*, Set<Type>, Append<Type>, Insert<Type>"], "runtime monitoring: encoding/json and strconv oracle over generated arguments",
 "Boundary and random arguments for every constructor and typed method against strconv, encoding/json and base64. " + TRUST)

prop("P25", "Set order is remembered through every edit, and only order changes it",
 "The set sequence of an object, seen by OptSetSequence and RangeObjectsBySetSequence, is at all times the order in which its keys were last set: parsing sets keys in text order, setting a key again moves it to the end, deleting forgets it, and edits inside a member's value do not move that member. This holds for every object at every depth through any history of edits, parses, clones through marshalling and imports.",
 "histories", "all histories of edits on all documents",
 "Tests set a few keys once.",
 "jsonvalue_internal.go set.go insert_append_delete.go iteration.go sort.go unmarshal.go", [("per-object increasing set counter", "jsonvalue_internal.go")],
 ["OptSetSequence, RangeObjectsBySetSequence"], "runtime monitoring: lock-step order model over random histories",
 "Random edit histories in lock step with an ordered-key model, checked through both observers after every step. " + TRUST)

CLAIMED = os.environ.get("CLAIMED", "").split() or [p[0]["id"] for p in P]
with open(ROOT + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
  notes="One Go harness in harness/ drives the public API of /repo's working tree; check.sh rebuilds it in the builds a property needs (plain, race, checkptr, asan), runs the workloads in worker processes and writes evidence. No hooks in /repo are needed.")
for p, t, n in P:
    if p["id"] in CLAIMED:
        m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique=t, level="exploration", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(ROOT + "/MANIFEST.json", "a").write("\n")
for p, _, _ in P: assert len(p["title"]) <= 80, p["id"]
