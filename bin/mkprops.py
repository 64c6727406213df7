#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
CORE = "frozen-collections-core/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[CORE + f if not f.startswith("/") else f[1:] for f in files],
            state=[dict(name=n, meaning=m, where=CORE + w) for n, m, w in state],
            mechanism=[dict(name=n, where=CORE + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Hash-keyed lookups are exact",
 "For every sequence of entries and every hash function, looking up a key in a hash-keyed frozen map or set finds the entry given for that key, and every key that was not given is reported absent. Queries by value, by borrowed or equivalent key form, by pair, by membership, by mutable access and by indexing (which panics exactly on absent keys) agree with each other. How the keys' hash codes collide, cluster or use only some of their bits, and how many entries there are, never changes an answer.",
 ["inputs","configurations"], "all entry sequences, all probe keys, all hash functions (constant, low bits only, high bits only, arbitrary tables), every collection size from 0 to beyond 65535",
 "Tests use a handful of small key sets with the default or one trivial hasher; they never enumerate hash assignments, slot layouts or the size classes where table sizing changes.",
 ["fz_maps/fz_hash_map.rs","fz_sets/fz_hash_set.rs","maps/hash_map.rs","maps/scan_map.rs","hash_tables/hash_table.rs","hash_tables/decl_macros.rs","analyzers/hash_code_analyzer.rs","utils/bitvec.rs","hashers/bridge_hasher.rs"],
 [("slot ranges over entries sorted by slot","hash_tables/hash_table.rs"),("masked slot selection and bounded scan","hash_tables/decl_macros.rs"),("table size search","analyzers/hash_code_analyzer.rs")],
 ["get","get_mut","get_key_value","contains_key","contains","Index"],
 [("slots","ranges of entries per hash slot","hash_tables/hash_table.rs"),("mask","number of slots - 1","hash_tables/hash_table.rs")])

prop("C02", "Ordered lookups are exact",
 "For every sequence of entries with totally ordered keys, looking up a key in an ordered frozen map or set finds the entry given for that key and reports every other key absent, including keys smaller than, between and larger than the stored ones. This holds for every collection size and for lookups by borrowed or comparable key forms. All query methods agree.",
 ["inputs"], "all entry sequences and probe keys, every size (complete and incomplete search-tree shapes)",
 "The search layout differs for every length; tests sample few lengths and few gaps.",
 ["fz_maps/fz_ordered_map.rs","fz_sets/fz_ordered_set.rs","maps/eytzinger_search_map.rs","utils/eytzinger.rs","maps/decl_macros.rs"],
 [("in-place layout permutation","utils/eytzinger.rs"),("branchless descent","utils/eytzinger.rs")],
 ["get","get_mut","get_key_value","contains_key","contains","Index"])

prop("C03", "Scalar lookups are exact over the whole range of the key type",
 "For every sequence of integer, non-zero integer or derived-enum keys, contiguous or scattered anywhere in the range of the type including its minimum and maximum, building a frozen scalar map or set succeeds and a lookup finds exactly the entries given. Keys below, between and above the stored ones are absent. All query methods agree.",
 ["inputs","configurations"], "all key sets over every supported scalar type, all densities (contiguous, gaps, extremes), all probe keys",
 "Three different layouts are chosen from the key distribution; tests use a few small ranges and never the extremes of a type or the thresholds between layouts.",
 ["fz_maps/fz_scalar_map.rs","fz_sets/fz_scalar_set.rs","maps/dense_scalar_lookup_map.rs","maps/sparse_scalar_lookup_map.rs","analyzers/scalar_key_analyzer.rs","hashers/scalar_hasher.rs","maps/decl_macros.rs","traits/scalar.rs"],
 [("range check and offset lookup","maps/decl_macros.rs"),("layout choice","analyzers/scalar_key_analyzer.rs"),("lookup table","maps/sparse_scalar_lookup_map.rs")],
 ["get","get_mut","get_key_value","contains_key","contains","Index"])

prop("C04", "String lookups are exact",
 "For every set of strings, of any lengths, prefixes, suffixes and Unicode content, looking up a string in a frozen string map or set finds exactly the entries given. Strings that were not given are absent even if they are empty, shorter than every key, equal in length to a key, or agree with a key on any prefix, suffix or substring. All query methods and all string-like query types agree.",
 ["inputs","configurations"], "all string sets, all probe strings, all hash functions",
 "The library hashes only a chosen part of each string; which part depends on the whole key set, and tests use a few hand-picked word lists with few near misses.",
 ["fz_maps/fz_string_map.rs","fz_sets/fz_string_set.rs","analyzers/slice_key_analyzer.rs","hashers/left_range_hasher.rs","hashers/right_range_hasher.rs","hashers/length_hasher.rs"],
 [("sub-slice analysis","analyzers/slice_key_analyzer.rs"),("short-input rule","hashers/right_range_hasher.rs"),("full key comparison after the hash","hash_tables/decl_macros.rs")],
 ["get","get_mut","get_key_value","contains_key","contains","Index"])

prop("C05", "Duplicate keys: the last entry wins on every construction route",
 "However a frozen map is constructed (from a vector, an array, an iterator, a serialized form or another collection) from entries in which keys repeat, each key that occurs is present exactly once with the value of its last occurrence, and the length is the number of distinct keys. Sets keep each distinct value exactly once. Construction never fails, panics or loses other entries because of repeated keys.",
 ["inputs","configurations"], "all entry sequences with any pattern of repetitions, all construction routes of all collection types",
 "Deduplication has separate in-place paths by hash, by order and by equality; tests try one or two fixed patterns.",
 ["utils/dedup.rs","fz_maps/fz_hash_map.rs","fz_maps/fz_ordered_map.rs","fz_maps/fz_scalar_map.rs","fz_maps/fz_string_map.rs","maps/scan_map.rs","maps/hash_map.rs"],
 [("dedup keep-last","utils/dedup.rs")], ["new","with_hasher","from","from_iter","deserialize","len","iter"])

prop("C06", "Iteration yields every entry exactly once with exact sizes",
 "Every way of iterating a frozen collection (entries, keys, values, mutable and consuming variants, by method, by reference or through the traits) yields each entry exactly once, with the key and value that lookups report. At every point the size hint and the exact length equal the number of entries still to come, an exhausted iterator stays exhausted, and count, fold and other consuming adapters, clones of partially advanced iterators and debug output cover exactly what was left. Skipping ahead, asking for the last element and walking the unchanged collection again follow one and the same order.",
 ["inputs","histories"], "all contents and all interleavings of next, size queries, clones and consuming adapters",
 "Tests iterate from the start to the end of two-entry collections; they do not interleave partial advance, clone, fold, count and size queries over all layouts.",
 ["maps/iterators.rs","sets/iterators.rs","maps/decl_macros.rs","sets/decl_macros.rs"],
 [("iterators over the entry slice","maps/iterators.rs"),("set wrappers","sets/iterators.rs")],
 ["iter","iter_mut","into_iter","keys","into_keys","values","values_mut","into_values","size_hint","len","count","fold","clone","Debug"])

prop("C07", "Keys are frozen and value updates are isolated",
 "After construction the key set and length of a frozen collection never change. Writing a value through any mutable access path changes exactly the value stored for that key, as seen afterwards by every other query and iteration, and nothing else. A clone is independent: updates to the original or to the clone are never visible in the other.",
 ["histories"], "all histories of reads, writes through every mutable path, and clones",
 "Tests perform one write and one read; they never check that all other observations stay the same over long histories.",
 ["maps/decl_macros.rs","maps/iterators.rs","fz_maps/fz_hash_map.rs","fz_maps/fz_scalar_map.rs","fz_maps/fz_string_map.rs","fz_maps/fz_ordered_map.rs"],
 [("get_mut / iter_mut / values_mut expose values only","maps/decl_macros.rs"),("derived Clone of boxed entries","maps/hash_map.rs")],
 ["get_mut","iter_mut","values_mut","get_disjoint_mut","clone","get"])

prop("C08", "Simultaneous mutable access to several keys is correct and disjoint",
 "Asking a frozen map for mutable access to several keys at once returns, position by position, access to exactly the value stored for that key, and nothing for keys that are absent; all returned accesses can be written independently. If the same key is requested more than once, in any positions, the call panics and the map is unchanged. Otherwise it never panics.",
 ["inputs","histories"], "all request arrays (any length, order, mixture of present and absent keys, any repetition pattern)",
 "Tests try two or three fixed requests; repetition patterns beyond adjacent or small arrays are not explored.",
 ["maps/decl_macros.rs","utils/dedup.rs","fz_maps/fz_string_map.rs","traits/map_extras.rs"],
 [("duplicate detection","utils/dedup.rs"),("pointer collection","maps/decl_macros.rs")],
 ["get_disjoint_mut","get_disjoint_unchecked_mut"])

prop("C09", "Set algebra is exact",
 "Union, intersection, difference and symmetric difference of any two sets, frozen or standard, of the same or different kinds, yield exactly the mathematical result, each element once, whether taken as lazy iterators or through the operators. The size hints of the lazy iterators always bound the number of elements still to come, at every point of the iteration, and clones of partially advanced iterators yield the same remainder.",
 ["inputs","histories","configurations"], "all pairs of sets (empty, equal, nested, overlapping, disjoint; either one larger), all pairs of set types, all iteration prefixes",
 "The algorithms switch on relative sizes; tests use one pair of two-element sets and check size hints only before the first step.",
 ["sets/iterators.rs","traits/set_ops.rs","sets/decl_macros.rs","fz_sets/fz_string_set.rs"],
 [("iterate larger set first in union, smaller in intersection","sets/iterators.rs"),("operators collect the iterators","sets/decl_macros.rs")],
 ["union","intersection","difference","symmetric_difference","|","&","-","^","size_hint"])

prop("C10", "Equality and set relations are extensional",
 "Two maps compare equal exactly when they have the same keys with the same values, and two sets exactly when they have the same elements, regardless of the order of construction, the hash function, the collection kinds compared, or values written since. Subset, superset and disjointness agree with the elements. Comparison is reflexive and symmetric wherever both directions exist.",
 ["inputs","configurations"], "all pairs of collections over all pairs of comparable collection types",
 "Tests compare a few fixed pairs; near-equal pairs (one value, one key, one size apart) across kinds are not covered.",
 ["maps/decl_macros.rs","sets/decl_macros.rs","traits/set_ops.rs","fz_maps/fz_string_map.rs"],
 [("length check plus per-entry lookup","maps/decl_macros.rs"),("size-guarded scans","traits/set_ops.rs")],
 ["==","is_subset","is_superset","is_disjoint"])

prop("C11", "Serialization round-trips",
 "Serializing any frozen map or set produces a map or sequence with each entry exactly once, in the same shape a standard map or set of the same content would produce, and deserializing it yields a collection equal to the original. Deserializing data with repeated keys follows the last-wins rule; strings that need escaping, are borrowed or are owned all survive. Malformed data is reported as an error and never panics.",
 ["inputs"], "all contents, all collection kinds, all key strings, borrowed and owned deserializer input",
 "Tests round-trip a few three-entry collections of plain ASCII keys from an in-memory string.",
 ["fz_maps/fz_hash_map.rs","fz_maps/fz_ordered_map.rs","fz_maps/fz_scalar_map.rs","fz_maps/fz_string_map.rs","fz_sets/fz_hash_set.rs","fz_sets/fz_ordered_set.rs","fz_sets/fz_scalar_set.rs","fz_sets/fz_string_set.rs"],
 [("visitors collecting entries","fz_maps/fz_string_map.rs"),("serialize_map / serialize_seq","maps/decl_macros.rs")],
 ["Serialize","Deserialize"])

prop("C12", "Macros produce collections with exactly the written contents",
 "A collection declared with any of the collection macros, in short or long form, as an expression, a let binding or a static, with literal, computed or mixed keys of any supported type and any number of entries, behaves as a frozen collection holding exactly the written entries with the last one winning on repetition. Which internal representation the macro picks is not observable through queries, iteration, equality or length.",
 ["programs","inputs"], "all macro invocations: family, map/set, form, key kind and type, number and values of entries",
 "Each invocation is a separate compiled program; tests contain some dozens, mostly with 0 to 10 consecutive keys.",
 ["macros/processor.rs","macros/macro_api.rs","macros/parsing/map.rs","macros/parsing/set.rs","emit/collection_emitter.rs","emit/generator.rs","/frozen-collections-macros/src/lib.rs","inline_maps/inline_hash_map.rs","inline_maps/inline_scan_map.rs","inline_maps/inline_eytzinger_search_map.rs","inline_maps/inline_dense_scalar_lookup_map.rs","inline_maps/inline_sparse_scalar_lookup_map.rs","inline_maps/inline_hash_map_no_collisions.rs"],
 [("key classification","macros/processor.rs"),("representation choice","emit/collection_emitter.rs"),("code generation","emit/generator.rs")],
 ["fz_hash_map!","fz_ordered_map!","fz_scalar_map!","fz_string_map!","fz_hash_set!","fz_ordered_set!","fz_scalar_set!","fz_string_set!"])

prop("C13", "Build-script emitter produces collections with exactly the given contents",
 "Source code emitted by the build-script generator for hash, ordered, scalar or string entries, map or set, with any combination of symbol name, alias, visibility, mutability, static instance and const settings that it accepts, compiles and yields a frozen collection holding exactly the given entries with the last one winning on repetition. Lookups of other keys report absent.",
 ["programs","inputs","configurations"], "all entry vectors (sizes across the representation and magnitude thresholds) and all accepted emitter configurations",
 "Generated code depends on entry count, hash collisions and key analysis; tests compile a fixed generated file with a few collections.",
 ["emit/collection_emitter.rs","emit/collection_entry.rs","emit/generator.rs","hash_tables/inline_hash_table.rs","hash_tables/inline_hash_table_no_collisions.rs","hashers/inline_left_range_hasher.rs","hashers/inline_right_range_hasher.rs","hashers/length_hasher.rs"],
 [("raw table emission","emit/generator.rs"),("build-time hasher equals run-time hasher","emit/collection_emitter.rs")],
 ["emitted collections' get, contains, iter, len"])

prop("C14", "Scalar indices embed the key order",
 "For every supported integer and non-zero integer type and every enum that derives the scalar trait, the index is strictly monotone in the key: smaller keys have smaller indices, distinct keys have distinct indices, and consecutive keys have consecutive indices. For derived enums the indices are the declaration positions starting at zero. Deriving is rejected for anything but non-empty enums of unit variants without explicit discriminants.",
 ["inputs","programs"], "all values of all supported scalar types (all pairs), all enum declarations",
 "Tests check two or three values per type.",
 ["traits/scalar.rs","macros/derive_scalar_macro.rs"],
 [("sign-bit flip","traits/scalar.rs"),("variant position","macros/derive_scalar_macro.rs")],
 ["Scalar::index","derive(Scalar)"])

prop("C15", "Every key and value is owned exactly once and dropped exactly once",
 "Over any history of construction (including refused construction and repeated keys), cloning, updating, partial or complete consumption and dropping, every key and value put into a frozen collection is dropped exactly once: never twice, never leaked, and never before the collection or iterator holding it. Consuming iterators hand over each entry once and drop the remainder when they are dropped.",
 ["histories","inputs"], "all histories of building, cloning, writing, consuming and dropping, at any point of partial consumption",
 "Tests use plain integers and strings and never count drops.",
 ["utils/dedup.rs","hash_tables/hash_table.rs","maps/iterators.rs","maps/decl_macros.rs","utils/eytzinger.rs"],
 [("owned vectors moved through construction","hash_tables/hash_table.rs"),("vec::IntoIter remainder drop","maps/iterators.rs")],
 ["new","clone","drop","into_iter","into_keys","into_values"])

prop("C16", "Limits and misuse are refused exactly when documented",
 "Constructors with a documented capacity or contiguity limit succeed for every input within the limit, after removing duplicates, and return an error for every input beyond it, never panicking and never building a wrong collection. The build-script emitter, the macros and the derive refuse exactly the documented misconfigurations with an error and accept everything else.",
 ["inputs","configurations"], "all entry counts around each capacity (0, 255, 256, 65535, 65536), all key sets near contiguity, all emitter configurations, all macro key mixtures, all derive inputs",
 "Tests check one count per limit and four emitter configurations.",
 ["maps/hash_map.rs","hash_tables/hash_table.rs","traits/collection_magnitude.rs","maps/dense_scalar_lookup_map.rs","emit/collection_emitter.rs","macros/processor.rs","macros/derive_scalar_macro.rs"],
 [("capacity check after dedup","hash_tables/hash_table.rs"),("contiguity check","maps/dense_scalar_lookup_map.rs"),("preflight","emit/collection_emitter.rs"),("key assessment","macros/processor.rs")],
 ["Result of constructors, emitter, macros, derive"])

prop("C17", "Trait views agree with the collections, standard ones included",
 "The collection traits, used generically or as trait objects, give the same answers as the collections' own methods for every frozen collection and for the standard and hashbrown maps and sets they are implemented for, including length and emptiness, queries, iteration, extra queries and multi-key access. The length trait reports the true element count for every type it is implemented for.",
 ["inputs","configurations"], "all contents and queries through every trait implementation",
 "Tests call few trait methods on few types with one input.",
 ["traits/map_query.rs","traits/map_extras.rs","traits/map_iteration.rs","traits/map.rs","traits/set_query.rs","traits/set_extras.rs","traits/set_iteration.rs","traits/set_ops.rs","traits/len.rs"],
 [("delegating trait impls","traits/map_query.rs"),("foreign impls","traits/map_iteration.rs")],
 ["MapQuery","MapExtras","MapIteration","SetQuery","SetExtras","SetIteration","SetOps","Len"])

prop("C18", "No undefined behaviour from safe code",
 "No sequence of safe calls on the frozen collections reads or writes outside the memory a collection owns, hands out two mutable references to the same value, or uses or destroys a key or value that was already destroyed, whatever the keys' Eq, Ord, Hash, Borrow, Equivalent and Scalar implementations answer, even if they contradict themselves or panic in the middle of an operation. A lookup then still answers nothing or an entry the collection holds, and iteration still yields exactly the entries held, each once.",
 ["inputs","histories"], "all safe call sequences, including those with ill-behaved or panicking Eq, Ord, Hash, Equivalent and Scalar implementations",
 "An out-of-bounds read need not change any observed result, and tests only use keys that keep the laws.",
 ["hash_tables/decl_macros.rs","hash_tables/inline_hash_table_no_collisions.rs","maps/decl_macros.rs","utils/eytzinger.rs","utils/dedup.rs","traits/map_extras.rs"],
 [("bounds established at construction","hash_tables/hash_table.rs"),("bounds established at construction","maps/dense_scalar_lookup_map.rs"),("bounds established at construction","maps/sparse_scalar_lookup_map.rs")], ["memory accesses"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
