#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
R = "normalize/record/__init__.py"; RJ = "normalize/record/json.py"; RM = "normalize/record/meta.py"
P = "normalize/property/__init__.py"; PM = "normalize/property/meta.py"; PC = "normalize/property/coll.py"
PJ = "normalize/property/json.py"; PT = "normalize/property/types.py"; C = "normalize/coll.py"
S = "normalize/selector.py"; D = "normalize/diff.py"; V = "normalize/visitor.py"; I = "normalize/identity.py"
ST = "normalize/subtype.py"; E = "normalize/empty.py"; X = "normalize/exc.py"

def st(name, meaning, where): return dict(name=name, meaning=meaning, where=where)
def me(name, where): return dict(name=name, where=where)

PROPS = [
dict(id="C01", title="Reading shared objects from several threads gives the single-threaded result",
 statement="Threads may at the same time convert to JSON, compare, hash, print, copy, pickle, diff, visit, and select or default-read fields of records and collections that nobody is modifying, including the very first use of a type in the process. Under every interleaving, and whatever other operations ran earlier in the process, each such call returns or raises exactly what it does when it runs alone in a fresh process.",
 quantifier=dict(over=["schedules", "histories", "inputs"], text="every interleaving of reading calls by any number of threads, over every record schema and object graph, after every earlier activity in the process"),
 why_tests_cant="The tests are single-threaded and each runs with the type caches in whatever state earlier tests left them; none chooses an interleaving or compares a warm process with a fresh one.",
 anchors=dict(files=[RJ, R, E, S, V, D, I],
  state=[st("has_json_data / json_data_takes_extraneous", "two per-type caches of how a type marshals out", RJ), st("EMPTY_VALS and EmptyVal._attrs", "shared placeholders filled lazily", E), st("MultiFieldSelector._complete_mfs", "lazily created shared selector", S), st("Visitor.cue", "path of the visit in progress", V)],
  mechanism=[me("per-type marshalling cache filled on first use", RJ), me("Visitor.copy() per level so that cues are not shared", V)])),
dict(id="C02", title="Types declared concurrently or in any order behave the same",
 statement="Record classes, property kinds and typed collection types may be declared by several threads at once and in any order: each declaration succeeds or fails exactly as it does on its own, and the resulting classes accept, refuse, coerce and convert the same values. All declarations naming the same item type and container share one collection type, so values built through one are accepted by the others.",
 quantifier=dict(over=["schedules", "programs"], text="every set of declarations, every order of them, and every interleaving of threads making them"),
 why_tests_cant="Tests declare their classes one after another in one fixed order; which property kinds already exist and which of two racing declarations wins is never varied.",
 anchors=dict(files=[PM, C, P, PC, RM],
  state=[st("PROPERTY_TYPES / DUCKWARGS", "registry of property kinds by trait set and by accepted argument", PM), st("GENERIC_TYPES", "registry of generated collection types", C)],
  mechanism=[me("create_property_type_from_traits composes missing kinds on demand", PM), me("_make_generic caches one collection type per (container, item type)", C)])),
dict(id="C03", title="A failed or interrupted operation does no lasting damage to the process",
 statement="If a declaration, construction, conversion, comparison or any other operation is cut short at any point - by an exception from a user-supplied function, by running out of memory, or by an interrupt - then every later operation on other objects and types, and the same operation repeated, behaves as in a process where the cut-short operation never happened.",
 quantifier=dict(over=["crash_points", "fault_sequences", "programs"], text="every operation, every point inside it at which an exception can surface, and every following sequence of operations"),
 why_tests_cant="Tests raise only from a few user callbacks, and never check the rest of the process afterwards; no test interrupts the library between two of its own steps.",
 anchors=dict(files=[PM, C, RJ, E, P, RM],
  state=[st("PROPERTY_TYPES, DUCKWARGS, GENERIC_TYPES, has_json_data, json_data_takes_extraneous, EMPTY_VALS, _complete_mfs", "process-wide registries and caches", "normalize/*")],
  mechanism=[me("registries are meant to be updated only once the thing registered is complete", PM)])),
dict(id="C04", title="Typed slots and typed collections only ever hold conforming values",
 statement="After any history of constructions, assignments, deletions and collection edits, every populated type-checked property of a record holds a value of its declared type that its check function accepts, and every item of a typed collection is of the declared item type. This also holds when steps are refused, when coercion functions fail or return values of the wrong type, when input iterators fail part way, and when a step is interrupted at any point.",
 quantifier=dict(over=["histories", "fault_sequences", "crash_points", "inputs"], text="every sequence of mutations with any values, every misbehaviour of coerce/check functions and input iterators, every interrupt point"),
 why_tests_cant="Tests try a handful of bad values per feature, with well-behaved coercers, and look at one slot after one step.",
 anchors=dict(files=[P, C, PC, PT, ST, RJ],
  state=[st("instance slots", "the stored property values", R), st("_values", "items of a collection", C)],
  mechanism=[me("Property.type_safe_value: isa, coerce, recheck, check", P), me("Collection.coerce_value on every way in", C)])),
dict(id="C05", title="A refused change leaves the object exactly as it was",
 statement="An attribute assignment or deletion, an item or slice assignment, an append, insert or pop, or a wildcard-free field selector put or delete that raises - because the value does not conform, the target does not exist or may not be changed, or a user-supplied function or input iterator fails - leaves the record or collection it was applied to exactly as it was before the call. The same change made afterwards without the failure then succeeds.",
 quantifier=dict(over=["fault_sequences", "histories", "inputs"], text="every single-target change, every reason for refusing it, at every point of the change where user code or input can fail"),
 why_tests_cant="Tests assert that the exception is raised; hardly any looks at the object afterwards, and none makes the failure happen at the n-th item or callback.",
 anchors=dict(files=[P, C, S, RJ], state=[st("instance slots and _values", "what must not change", C)],
  mechanism=[me("values are coerced and checked before they are stored", P), me("delete of a required or read-only property is refused", P)])),
dict(id="C06", title="Typed collections behave like built-in lists and dicts of coerced items",
 statement="A typed list or dict collection driven by any sequence of list or dict operations (construction, indexing, slicing, assignment, deletion, append, extend, insert, pop, remove, index, count, reverse, sort, update, popitem, clear, membership, length, iteration, concatenation, equality) has the contents, results and kinds of error of a built-in list or dict to which each incoming item was given already coerced to the item type. This includes operations whose input iterator or item coercion fails part way.",
 quantifier=dict(over=["histories", "inputs", "fault_sequences"], text="every operation sequence over every initial content, item type and input form, with failures of coercion or of the input iterator at any item"),
 why_tests_cant="Tests check single operations on short fixed lists; the dict collection is, in its own words, largely untested.",
 anchors=dict(files=[C, RJ], state=[st("_values", "the underlying list or dict", C)],
  mechanism=[me("each operation delegates to the underlying container after coerce_value", C)])),
dict(id="C07", title="Saved records survive restart into another process",
 statement="A record or collection saved by pickling (any protocol), deep copying, or conversion to JSON and read back - in the same process, or after a crash in a new process that declares the same classes and collection types in another order and has another hash seed - is equal to the original, has the same populated slots with values of the same types, and is again fully type-checked. JSON round trips concern the values JSON can carry through the declared conversions.",
 quantifier=dict(over=["crash_points", "configurations", "inputs", "histories"], text="every object graph of every schema, every save point in a history, every protocol, every declaration order and warm-up of the restarted process"),
 why_tests_cant="Tests pickle and unpickle inside one process, where all types already exist and all caches are warm.",
 anchors=dict(files=[R, C, RJ, PJ, PT, S], state=[st("GENERIC_TYPES", "lookup of generated collection types when unpickling", C)],
  mechanism=[me("__getnewargs__/__getstate__/__setstate__ with a construction-skipping marker", R), me("_GenericPickler names a generated type by key", C), me("json_in/json_out/json_name mapping", PJ)])),
dict(id="C08", title="diff reports exactly the differences, whatever the internal ordering or pacing",
 statement="Comparing two records of the same type reports each populated, compared field or item that was added, removed or modified, at its correct location on both sides, and nothing else: no difference for equal records, and items of a collection are matched by their key. The set of differences does not depend on hash or set ordering, on how slowly or interleaved the results are consumed, or on what other comparisons are in progress.",
 quantifier=dict(over=["configurations", "schedules", "inputs"], text="every pair of records of every schema, every iteration order of the internal sets, every interleaving of consumption of several diffs"),
 why_tests_cant="Tests compare a few fixed documents under whatever set order the process happens to have, and always consume a diff in one go.",
 anchors=dict(files=[D, I, S], state=[st("sets of (key, sequence) pairs", "how items are matched", D)],
  mechanism=[me("compare_record_iter / compare_collection_iter / compare_list_iter / compare_dict_iter", D), me("record_id", I)])),
dict(id="C09", title="Field selectors read and change exactly the addressed fields",
 statement="Getting, putting, posting or deleting through a field selector, and getting, deleting or patching through a multi-field selector, reads or changes exactly the fields, items or whole collections the paths address - posting creates missing steps of the path, a wildcard addresses every item - and everything else in the object graph, including patch sources, stays as it was. A path that addresses nothing is reported as a field selector error (or lookup error) rather than acted on elsewhere; the outcome does not depend on the order in which the parts of a multi-field selector are kept.",
 quantifier=dict(over=["histories", "configurations", "inputs"], text="every object graph, path and set of paths, every sequence of selector operations, every internal ordering of multi-field selectors"),
 why_tests_cant="Tests follow a few fixed paths on one fixture and check only the addressed field; ordering inside multi-field selectors follows memory addresses and is never varied.",
 anchors=dict(files=[S, C, R], state=[st("MultiFieldSelector.heads", "tree of path heads built from unordered sets", S)],
  mechanism=[me("FieldSelector get/put/post/delete", S), me("MultiFieldSelector get/delete/patch", S)])),
dict(id="C10", title="A visitor visits every populated selected slot exactly once, at its path",
 statement="A visit applies the user's function exactly once to every populated leaf slot and every leaf collection item that is neither filtered out nor extraneous (unless asked for), each time with the path at which a field selector finds that value (in a dict collection a key comes before an extra property of that name), and the reduced result contains exactly the mapped values; casting the result of a default visit gives back an equal record. This holds for visits that run interleaved or nested with others, and again after a visit that failed or was abandoned part way.",
 quantifier=dict(over=["schedules", "fault_sequences", "inputs"], text="every object graph, filter and option, every interleaving of several visits and every callback failure point"),
 why_tests_cant="Tests run one visit at a time over fixed records and look at the final document, not at the individual calls and paths or at visits around a failing one.",
 anchors=dict(files=[V, S], state=[st("Visitor.cue", "current path", V)],
  mechanism=[me("map_record / map_collection push and pop the path around each slot", V), me("is_filtered consults the filter at the current path", V)])),
dict(id="C11", title="A JSON conversion error names the exact spot that failed",
 statement="When converting a JSON document to records fails because of one bad value or one failing user conversion function, however deeply it is nested in JSON records, lists and dicts, the error carries the path of that spot in the document and the original error, and never names another spot. For a value that a property or item type refuses (rather than a JSON conversion), the path is that of the JSON record or collection that was being built around it. After the spot is corrected the same document converts.",
 quantifier=dict(over=["fault_sequences", "inputs"], text="every schema and document, every place in the document where the value or the conversion function can fail, on every attempt"),
 why_tests_cant="Tests check three fixed broken documents; the failing place is never moved over the whole document.",
 anchors=dict(files=[RJ, PJ, X, S], mechanism=[me("_box_ingress_error prefixes the path at each level", RJ)])),
dict(id="C12", title="A lazy value is computed once, never lost and never replaces an assigned value",
 statement="All readers of a lazy property of one object, in any threads and at any time, see the same value unless the property is assigned or deleted in between: a value once returned is returned again, an explicit assignment is never overwritten by a computation that started earlier, and a computation that fails or returns a non-conforming value stores nothing so that the next read computes again. Without concurrent readers the function is called at most once per successful computation.",
 quantifier=dict(over=["schedules", "fault_sequences", "crash_points"], text="every interleaving of reads, assignments and deletions of lazy properties, every failure or interrupt of the computing function"),
 why_tests_cant="Tests read a lazy attribute twice in one thread with a function that succeeds.",
 anchors=dict(files=[P], state=[st("instance slot of the lazy property", "absent until computed", P)],
  mechanism=[me("LazyProperty.__get__ checks the slot, computes, checks the type and stores", P)])),
dict(id="C13", title="Reading operations never alter their arguments and return detached results",
 statement="Converting to or from JSON, comparing, diffing, hashing, printing, visiting, casting, pickling, copying and selecting with a multi-field selector leave the records, documents, selectors and options passed in unchanged, whether they complete, fail or are abandoned part way. The JSON document, deep copy or multi-field selection they produce, and what a multi-field selector patches with copying, shares no mutable container or record with the source, so changing one never changes the other; nor do the unknown keys that a JSON record keeps share anything with the document.",
 quantifier=dict(over=["fault_sequences", "crash_points", "inputs"], text="every object graph and operation, every point at which the operation is failed or abandoned, every later change to source or result"),
 why_tests_cant="Tests look at the return value, and almost never at the arguments afterwards, least of all after a failure.",
 anchors=dict(files=[RJ, D, V, S, R, I], mechanism=[me("deepcopy of unknown keys and selections", RJ), me("to_json builds new containers", RJ)])),
dict(id="C14", title="Required values are always present and read-only values never change",
 statement="Construction either raises or yields an object with every required property and every property with a default populated; from then on no sequence of assignments, deletions, selector operations, copies or failed or interrupted steps makes a required property unset (or None where None is not acceptable), and none changes or removes a read-only property's value once it is set.",
 quantifier=dict(over=["histories", "fault_sequences", "crash_points"], text="every construction and every later sequence of operations through the public interface, with any step failing or interrupted at any point"),
 why_tests_cant="Tests check the refusal of one assignment and one deletion right after construction.",
 anchors=dict(files=[P, R, S], mechanism=[me("init_prop / PropertyRequired at construction", P), me("SafeProperty.__delete__ and ROProperty.__set__/__delete__", P)])),
dict(id="C15", title="A damaged or differently delivered document never yields a wrong record",
 statement="A JSON document gives the same record, or fails, alike whether it is passed as text, as UTF-8 bytes or as the loaded structure. A document that was truncated, corrupted, had parts lost, duplicated or reordered on the way either fails to convert or yields exactly the record that its remaining parsed content denotes - never a partially filled record, values from another document, or values left from an earlier failed conversion.",
 quantifier=dict(over=["fault_sequences", "inputs", "histories"], text="every document of every schema, every truncation and corruption point, and every sequence of deliveries of good and damaged documents"),
 why_tests_cant="Tests parse intact documents, mostly already loaded.",
 anchors=dict(files=[RJ, PJ], mechanism=[me("_decode_and_parse_json", RJ), me("json_to_initkwargs builds all arguments before construction", RJ)])),
dict(id="C16", title="Field selector path text round-trips",
 statement="The text form of a field selector or multi-field selector parses back to an equal selector, for every combination of names, keys, indexes and wildcards.",
 quantifier=dict(over=["inputs"], text="every selector"),
 why_tests_cant="Tests list about a dozen paths.",
 anchors=dict(files=[S], mechanism=[me("path / from_path", S)])),
dict(id="C17", title="Equality, hashing and primary keys agree",
 statement="Record equality is reflexive, symmetric and transitive, equal records have equal primary keys and hashes, and extraneous properties affect none of them.",
 quantifier=dict(over=["inputs"], text="every pair and triple of records"),
 why_tests_cant="Tests compare a few fixed records.",
 anchors=dict(files=[R, I, C], mechanism=[me("Record.__eq__/__hash__ and record_id", I)])),
dict(id="C18", title="Text clean-up options of diff compare text up to exactly the named differences",
 statement="With the whitespace, case and Unicode normalisation options of diff, two strings compare equal exactly if they differ only in the respects the enabled options name.",
 quantifier=dict(over=["inputs"], text="every pair of strings and every option combination"),
 why_tests_cant="Tests use a few fixed strings.",
 anchors=dict(files=[D], mechanism=[me("DiffOptions.normalize_text", D)])),
dict(id="C19", title="Results do not depend on the process's hash and set ordering",
 statement="The same program - declarations, constructions, conversions, edits, comparisons, visits, selector operations and copies with the same values - gives the same results, error types, error texts and final objects in every process, whatever the process's hash seed and hence the iteration order of the sets used inside the library: which value a default computed from other properties gets, which of several problems is reported, the order of visited or converted parts, and what types get composed. (The differences a diff reports are a multiset; hash values themselves may differ.)",
 quantifier=dict(over=["histories", "schedules", "inputs"], text="every schema, every history of operations, every iteration order of the library's internal sets and every PYTHONHASHSEED"),
 why_tests_cant="A test run has one hash seed and one order; a dependence on it shows up as a rare flake at most.",
 anchors=dict(files=[R, RM, D, PM, RJ], mechanism=[me("missing properties are initialised in declaration order", R), me("sets of traits, properties and keys", PM)])),
dict(id="C20", title="Following what is not set is always safe, typed, ends and changes nothing",
 statement="The '0' accessor of every property gives the property's value if it is set and otherwise a placeholder that is false, equal to nothing else and typed by the declaration; following names, indexes, slices and calls from there ends, gives such placeholders again for everything that some declared type (or one it inherits from) has, contains and iterates over nothing, and refuses everything else - unknown names, indexes of what is no collection, calls of what cannot be called, and every assignment - with the documented error naming it. None of this depends on what was followed before, in which thread, or on an earlier failed or interrupted attempt, and none of it changes any object; a property that is itself declared under the name of an accessor stays that property.",
 quantifier=dict(over=["histories", "schedules", "fault_sequences", "inputs"], text="every schema, every object with any part unset, every path, every earlier activity and every schedule of threads that follow paths"),
 why_tests_cant="The tests follow three paths in one schema, each for the first time.",
 anchors=dict(files=[E, P, RM], state=[st("EMPTY_VALS, _attrs and _member_type", "placeholders made so far, shared by the process", E)], mechanism=[me("EmptyVal.__getattr__/__getitem__ infer types from the declarations", E), me("EmptyAuxProp and aux_props", P)])),
]
if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
