#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
MM = "crates/mirror-mirror/src/"
MD = "crates/mirror-mirror-macros/src/derive_reflect/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

DER = [MD+"struct_named.rs", MD+"tuple_struct.rs", MD+"enum_.rs"]

p("C01", "Erasing a value to a dynamic value and converting it back is lossless",
  "For every reflected value, the dynamic value it is turned into has exactly the value's declared shape (same kind, field names in declaration order, variant, elements, entries and bit-exact scalars; arrays become lists), and converting that dynamic value back to the original type succeeds and gives an equal value. Excluded fields are absent from the dynamic value and come back as their default.",
  ["programs", "inputs"], "every type built from the supported kinds and every value of it, except types whose scalar form is documented as lossy (durations are sampled where seconds are exact)",
  "The tests round-trip a few hand-picked structs and enums with small values; they never vary the shape of the type, skipped fields in the middle, NaN payloads, negative zero, empty or large collections, or nesting of all kinds in all kinds.",
  DER + [MM+"value.rs", MM+"foreign_impls/vec.rs", MM+"foreign_impls/btree_map.rs", MM+"foreign_impls/array.rs", MM+"foreign_impls/via_scalar.rs", MM+"tuple.rs"],
  [("generated to_value and from_reflect", MD), ("to_value/from_reflect of the built-in types", MM+"foreign_impls/")],
  ["Reflect::to_value", "FromReflect::from_reflect"])
p("C02", "Reflective copies equal the original and share nothing with it",
  "Cloning a value through reflection, taking an owned copy of it, converting it from a reflected value of its own type, or cloning its owned view always gives a value of the same concrete type that is equal to the original in every reflected field. Changing or dropping the copy never changes the original, and the other way round.",
  ["programs", "inputs", "histories"], "every supported type, including types that opt out of native cloning, every value, and every later mutation of either copy",
  "Tests clone one or two values and compare once; types that opt out of Clone, nested collections and later mutation of the copies are not varied.",
  DER + [MM+"lib.rs", MM+"foreign_impls/", MM+"value.rs"],
  [("generated clone_reflect, with and without Clone", MD), ("ToOwned for dyn Reflect, Clone for ReflectOwned", MM+"lib.rs")],
  ["Reflect::clone_reflect", "ToOwned", "ReflectOwned::clone", "FromReflect::from_reflect"])
p("C03", "Conversion from foreign data succeeds exactly when the data fits the type",
  "Converting arbitrary reflected data to a type succeeds if and only if the data has the kind of the type, every reflected field of the type (or of the named variant) is present by name or position and converts in turn, every element and entry converts, array lengths match, and scalars have exactly the type's scalar kind and an allowed value. The result then equals the data restricted to the type's fields, surplus fields are ignored, excluded fields get their default and a field's custom conversion is used where one is declared; otherwise the result is nothing, never a partially filled value.",
  ["programs", "inputs"], "every supported target type and every dynamic or typed source: dropped, surplus, reordered, wrongly typed or wrongly sized parts at any depth",
  "The tests contain a handful of successful conversions and very few failing ones; which inputs must be rejected is almost untested, and the failing position is never varied.",
  DER + [MM+"foreign_impls/", MM+"tuple.rs", MM+"struct_.rs", MM+"enum_.rs", MM+"lib.rs"],
  [("generated from_reflect", MD), ("from_reflect of built-in types and dynamic values", MM)],
  ["FromReflect::from_reflect"])
p("C04", "All ways to reach a field agree with the declaration and hit that field only",
  "For structs, tuple structs, tuples, enums and their dynamic counterparts, the number of fields, names, access by name, access by position, iteration and mutable iteration all agree with each other and with the declared order of the reflected fields, and unknown names or positions past the end give nothing. Writing through any mutable access changes exactly that field of the value and nothing else.",
  ["programs", "inputs"], "every declaration (field counts, names, excluded fields, variant kinds) and every name and position including ones that do not exist",
  "Tests check single fields of small types; agreement of all the accessors over all declarations and a write-through with a full frame check are not covered.",
  DER + [MM+"struct_.rs", MM+"tuple_struct.rs", MM+"tuple.rs", MM+"enum_.rs", MM+"get_field.rs", MM+"iter.rs"],
  [("generated field/field_at/name_at/fields/fields_mut", MD), ("field access of dynamic values", MM+"struct_.rs, enum_.rs, tuple.rs, tuple_struct.rs"), ("typed field lookup", MM+"get_field.rs")],
  ["Struct, TupleStruct, Tuple, Enum traits", "GetField, GetFieldMut"])
p("C05", "Key paths reach exactly what step by step access reaches",
  "Following a key path from any value gives exactly the sub-value reached by accessing the keys one by one (field names for structs and struct variants, numbers for tuples, tuple structs and tuple variants, indices of any integer kind for lists and arrays, keys for maps, variant names for enums in that variant), and gives nothing as soon as one key does not apply. The empty path gives the value itself, and mutable access reaches the same sub-value as shared access, so that a write through it changes exactly that part.",
  ["programs", "inputs"], "every value and every path: valid, with a broken key at any depth, out of range, negative or over-wide indices, wrong variants",
  "Tests follow fewer than ten fixed paths; mismatched keys at every depth and agreement of the shared and mutable versions are not sampled.",
  [MM+"key_path.rs", MM+"foreign_impls/", MM+"get_field.rs"],
  [("GetPath::at / at_mut", MM+"key_path.rs"), ("value_to_usize", MM+"key_path.rs")],
  ["GetPath::at", "GetPath::at_mut", "GetPath::get_at", "GetPath::get_at_mut"])
p("C06", "Type information mirrors the type's declaration exactly",
  "The description of a type states the type's kind and full name, its fields or variants in declaration order with their names, kinds and types, element, key and value types and array lengths, and the metadata and documentation written on the type, variant or field, with every excluded field or variant left out and nothing added. A value's own type description is the description of its type, and the description of any contained type extracted on its own is the same as inside the whole.",
  ["programs"], "every declaration over all supported kinds, generics, metadata, docs, exclusions and nesting",
  "Tests look at a few fields of a few fixed types; the property quantifies over all declarations and all nodes of the type graph.",
  [MM+"type_info/mod.rs", MM+"type_info/graph.rs"] + DER + [MD+"attrs.rs", MM+"foreign_impls/"],
  [("generated DescribeType::build", MD), ("type graph nodes", MM+"type_info/graph.rs"), ("type views", MM+"type_info/mod.rs")],
  ["DescribeType::type_descriptor", "Reflect::type_descriptor", "Type and its views", "GetMeta"])
p("C07", "Types found by key path agree with the values found by the same path",
  "Whenever a key path (with variants spelled out) reaches a sub-value, following the same path in the type description reaches the description of that sub-value's type (outside fields that hold dynamic values), and the path is also found starting from any intermediate type along the way. A path that no value of the type could match finds no type: unknown fields, fields of a different variant, names on positional types, keys on things without elements, and non-integer keys on lists and arrays.",
  ["programs", "inputs"], "every type, every value of it and every path over it, valid or broken",
  "Tests query a few fixed type paths of two types and never compare the type side with the value side.",
  [MM+"type_info/mod.rs", MM+"key_path.rs"],
  [("GetTypePath::type_at", MM+"type_info/mod.rs")],
  ["GetTypePath::type_at", "TypeAtPath"])
p("C08", "Patching overlays what fits and leaves everything else unchanged",
  "Patching a value with another reflected value replaces exactly the parts present in both: fields by name or position, list and array elements at common indices, map entries with common keys, and scalars of the same kind; it never adds or removes elements, entries or fields, leaves excluded struct fields alone, and leaves parts that do not fit unchanged. A typed enum becomes the patch's variant when the patch converts to the enum and otherwise takes matching fields of the same variant; patching with an equal-typed complete value makes the values equal, and repeating a patch changes nothing further.",
  ["programs", "inputs", "histories"], "every target (typed or dynamic), every patch (typed, dynamic, partial, surplus, mismatched at any depth), and repeated patches",
  "Tests apply a few well-formed patches; partial, mismatched and cross-kind patches and the frame condition on the untouched part are not explored.",
  DER + [MM+"foreign_impls/", MM+"struct_.rs", MM+"enum_.rs", MM+"tuple.rs", MM+"tuple_struct.rs", MM+"value.rs", MM+"lib.rs"],
  [("generated patch", MD), ("patch of built-in types and dynamic values", MM)],
  ["Reflect::patch"])
p("C09", "Reflective equality is structural equality, whatever the representation",
  "Comparing two reflected values says equal exactly when they have the same kind, the same named or positional fields, variant, elements and entries with equal contents and equal scalars of the same kind, regardless of whether either side is typed or dynamic, boxed, or lists its fields in another order. The comparison is symmetric for values without opaque parts, gives no verdict only when opaque values are involved, never calls such values equal, and the equality operator on reflected values is true exactly when the verdict is equal.",
  ["programs", "inputs"], "every pair of values, typed or dynamic, equal, differing in exactly one place at any depth, or of different kinds",
  "Tests compare pairs of single kinds; single-point differences at every position and mixed representations are not explored.",
  [MM+"reflect_eq.rs", MM+"lib.rs"],
  [("reflect_eq", MM+"reflect_eq.rs"), ("PartialEq for dyn Reflect", MM+"lib.rs")],
  ["reflect_eq", "PartialEq for dyn Reflect"])
p("C10", "Dynamic values have a lawful total order, equality and hash",
  "Equality and order of dynamic values are total and lawful: equality is an equivalence, the order is transitive and antisymmetric and says equal exactly for equal values, and equal values hash equally, including for not-a-number, signed zeros and nested collections. Equality is structural (values of different kinds differ, a change in any part makes values unequal) and scalars of one kind and strings are ordered as in Rust, so dynamic values work as map and set keys.",
  ["inputs"], "every pair and triple of dynamic values of any kind and nesting",
  "Only a couple of equalities are tested; laws quantify over all triples, including special floats.",
  [MM+"value.rs", MM+"struct_.rs", MM+"enum_.rs", MM+"tuple.rs", MM+"tuple_struct.rs"],
  [("OrdEqHashValue", MM+"value.rs"), ("derived comparisons of dynamic parts", MM)],
  ["PartialEq/Eq/Ord/PartialOrd/Hash for Value", "BTreeMap<Value, _>, HashSet<Value>"])
p("C11", "Serialising and deserialising any reflected data gives it back unchanged",
  "Dynamic values, owned scalars, key paths and type descriptions written with any of the supported serialisation front ends (the serde data model in binary, self-describing and text formats that can hold the data, and the speedy binary format) and read back are equal to what was written, bit-exact for scalars and in field order. They behave the same afterwards: a value still converts to its type, a path still reaches the same part, and a type description still answers every query identically.",
  ["programs", "inputs"], "every dynamic value, path and type description, in each format able to represent it",
  "No test serialises anything but a trivial value; formats, kinds and nesting are not sampled.",
  [MM+"value.rs", MM+"struct_.rs", MM+"enum_.rs", MM+"tuple.rs", MM+"tuple_struct.rs", MM+"key_path.rs", MM+"type_info/graph.rs", MM+"type_info/mod.rs", MM+"lib.rs"],
  [("serde and speedy derives", MM)],
  ["serde::Serialize/Deserialize, speedy::Readable/Writable on Value, ScalarOwned, KeyPath, TypeDescriptor"])
p("C12", "Lists, arrays and maps behave as the collections they reflect",
  "Any sequence of reflective operations on a list, array or map (push, pop, remove, insert, get, mutable get, length, iteration, mutable iteration, on typed and dynamic collections) leaves it in the same state and returns the same results as the same sequence on an ordinary vector, array or ordered map, with out-of-range indices and absent keys giving nothing. An element, key or value that cannot be converted to the element type leaves the collection unchanged.",
  ["histories", "inputs"], "every operation sequence over every element, key and value type",
  "Tests run one short fixed sequence per collection on one element type; interleavings of operations, boundaries and unconvertible elements are not sampled.",
  [MM+"foreign_impls/vec.rs", MM+"foreign_impls/btree_map.rs", MM+"foreign_impls/array.rs", MM+"list.rs", MM+"map.rs", MM+"array.rs"],
  [("List, Array and Map for Vec, arrays and BTreeMap", MM+"foreign_impls/")],
  ["List, Array, Map traits"])
p("C13", "Default values exist exactly as reported and convert to their types",
  "Asking a type description whether it has a default value answers yes exactly when asking for the default value gives one, for the whole type and for every contained type, variant and path. The default value is the documented one (zero-like scalars, empty lists and maps, every field's default, the first variant of an enum, the declared length of arrays, nothing where an opaque part has none) and converts to the type it was asked from.",
  ["programs"], "every type description and every node and path in it",
  "Tests ask four types for defaults; the agreement has to hold at every node of every type graph.",
  [MM+"type_info/mod.rs", MM+"type_info/graph.rs"],
  [("default_value / has_default_value", MM+"type_info/mod.rs")],
  ["TypeDescriptor, Type, TypeAtPath, Variant default_value / has_default_value"])
p("C14", "Type descriptions are safe to request concurrently and always the same",
  "However many threads request descriptions of whatever types in whatever order, every request completes, and all requests for one type, at any time, give equal descriptions that are identical to what a single-threaded program sees; with the standard library they are the very same shared description, so repeated requests do not allocate anew. A request made while another description is being computed (even by code run for metadata, and even if that code panics) neither blocks forever nor affects later requests.",
  ["schedules", "histories", "fault_sequences"], "every number of threads, order and overlap of first and repeated requests, re-entrant requests, and panics raised while describing",
  "No test uses threads; the tests never race two first requests, describe a type while describing another, or fail during a description.",
  [MM+"type_info/mod.rs", MM+"type_info/graph.rs"],
  [("process-wide cache of type descriptors", MM+"type_info/mod.rs DescribeType::type_descriptor"), ("deterministic node ids", MM+"type_info/graph.rs NodeId")],
  ["DescribeType::type_descriptor", "Reflect::type_descriptor"],
  [("INFO", "map from type to leaked descriptor, behind a read-write lock", MM+"type_info/mod.rs")])
p("C15", "Self-containing types are described finitely, completely and consistently",
  "Types that contain themselves or each other, directly or through any mix of boxes, options, lists, maps, tuples and generics, are described in finite time by a finite description in which every reachable part is present. Walking the recursion any number of levels always arrives at the same description of the same type, and values of such types can be described, navigated, converted and compared at any depth the stack allows.",
  ["programs", "inputs"], "every recursive type declaration, and every depth of value and path",
  "Tests contain two recursive types and look at one level; mutual recursion through other containers and long paths are not covered.",
  [MM+"type_info/graph.rs", MM+"type_info/mod.rs"] + DER,
  [("get_or_build_node_with reserves the node before building it", MM+"type_info/graph.rs"), ("generated build", MD)],
  ["DescribeType::type_descriptor", "Type views", "GetTypePath::type_at"])
p("C16", "Visiting a value delivers every leaf once, in declaration order, until an error",
  "Visiting a value with its type's description calls the visitor exactly once for each scalar and opaque leaf of the value, with that leaf's exact value and scalar kind, in declaration order of fields, element order of lists and arrays, and key then value for map entries. The first error returned by the visitor stops the visit at once and is the result.",
  ["programs", "inputs", "fault_sequences"], "every type and value, and an error injected at every leaf",
  "Tests count leaves of two values; order, values and stopping at each point are not checked.",
  [MM+"try_visit.rs"],
  [("try_visit", MM+"try_visit.rs")],
  ["try_visit"])
p("C17", "Mismatched data never panics, hangs or corrupts a value",
  "No combination of reflected values, patches, keys, paths, indices and type descriptions passed to any operation that can report absence or ignore what does not fit makes the library panic, overflow the stack at moderate depth, or run away; the operation reports absence or leaves its target unchanged. After any such rejected operation the target still is a well-formed value of its type that reads back consistently.",
  ["programs", "inputs", "histories"], "every pair of types or kinds and every operation between them, extreme scalars, hostile names and indices, and random operation sequences",
  "Tests only pass matching data; the cross product of mismatches is unexplored.",
  [MM+"lib.rs", MM+"foreign_impls/", MM+"key_path.rs", MM+"reflect_eq.rs", MM+"get_field.rs", MM+"type_info/mod.rs"] + DER,
  [("fallible downcasts and lookups", MM)],
  ["every public operation returning Option, and patch"])
p("C18", "Views, casts and kinds of a value are consistent with its type",
  "For every value, the shared, mutable and owned views, the view-specific casts, the downcasts and the type identity all agree: exactly one kind of view matches, it is the kind given by the type's description (number-like wrappers whose type is opaque show a scalar), downcasts succeed exactly for the value's concrete type, and every view shows the same contents. A scalar view holds the exact value, writes through a mutable scalar view reach the value, and dynamic values and boxes behave as the value they hold.",
  ["programs", "inputs"], "every type and value of it, typed, boxed or dynamic",
  "Tests use casts where convenient; the whole matrix of kinds by casts by representations is not enumerated.",
  [MM+"lib.rs", MM+"value.rs", MM+"foreign_impls/"] + DER,
  [("reflect_ref / reflect_mut / reflect_owned and default as_*/into_* methods", MM+"lib.rs")],
  ["Reflect views and casts", "dyn Reflect downcasts", "ScalarRef/ScalarMut/ScalarOwned"])
p("C19", "Debug output through reflection shows the whole value like native Debug",
  "Formatting a value through reflection, compact or pretty, gives the native debug output for types that have it. For types that opt out or contain boxes it gives what native debug output would look like (every reflected field, element and entry in order and nothing else), up to how the type itself is named. How a dynamic value inside of a typed one is written is left open.",
  ["programs", "inputs"], "every supported type, with and without native debug output, every value, both formatting styles",
  "Tests compare a few literal strings; generated renderings over all kinds and nesting are not covered.",
  [MM+"lib.rs", MM+"foreign_impls/"] + DER,
  [("reflect_debug and per-kind debug helpers", MM+"lib.rs"), ("generated debug", MD)],
  ["Reflect::debug", "Debug for dyn Reflect"])
p("C20", "Key paths are faithful sequences of keys however they are built",
  "A key path built by the macro, the builder methods, the free functions, pushing, extending, collecting or converting contains exactly the given keys in order; its length, emptiness, forward and backward iteration, popping, breadcrumbs, equality and hash all agree with that sequence. Its text form is the keys' text forms in order: a dot and the name or number for fields, the debug form of the key in brackets for elements, and two colons and the name for variants.",
  ["inputs", "histories"], "every sequence of keys, every mix of building operations and iteration from both ends",
  "Tests build and print one path; the equivalence of all building styles and iterator laws are not covered.",
  [MM+"key_path.rs"],
  [("KeyPath, Key, iterators, Display, key_path!", MM+"key_path.rs")],
  ["KeyPath", "Key", "key_path!"])
p("C21", "Simplified type names and printed declarations say what the type is",
  "The simplified name of a supported type (paths, generics, tuples, arrays, references, const arguments) is its full name with module paths and lifetimes removed from every component and everything else kept, and unsupported types are reported as an error instead of a wrong name. Printing a type description lists the simplified name and every field or variant in order with simplified types in Rust-like syntax.",
  ["programs"], "every type expression over the supported constructors and every type description",
  "Tests compare about a dozen names and declarations; compositions of constructors and unusual identifiers are not sampled.",
  [MM+"type_info/simple_type_name.rs", MM+"type_info/pretty_print.rs"],
  [("SimpleTypeName", MM+"type_info/simple_type_name.rs"), ("PrettyPrintRoot", MM+"type_info/pretty_print.rs")],
  ["SimpleTypeName", "pretty_print_root"])
p("C22", "The derive accepts every supported declaration and honours its attributes",
  "Every struct, tuple struct, unit struct and enum declaration within the documented features (any mix of field and variant counts, field and variant names that are valid identifiers, generics with bounds and defaults, exclusions, metadata, docs, custom conversions, opting out of Clone, Debug or conversion, a renamed crate path) compiles, in crates of any edition. The resulting implementation does what the attributes say, whatever the fields are called and wherever the attributes are placed. Attributes that are unknown, misplaced or given twice, and declarations it cannot support (unions, hash maps, fields of types that are not reflected), are rejected at compile time instead of being ignored.",
  ["programs"], "every declaration over the documented attribute language",
  "Tests compile a fixed set of declarations; combinations of attributes with positions, names and generics are not generated.",
  DER + [MD+"attrs.rs", MD+"mod.rs"],
  [("derive macro", MD), ("attribute parsing", MD+"attrs.rs")],
  ["#[derive(Reflect)] programs"])
p("C23", "Dynamic values contain exactly what they were built from",
  "A dynamic struct, tuple struct, tuple or enum value built by any sequence of builder calls, setters, pushes or collecting from an iterator contains exactly the given fields in the order they were first given, with the last value given for each name, and behaves the same whichever construction was used. Converting any reflected value of the same kind into the dynamic type, or any supported native value into a dynamic value, preserves its contents.",
  ["histories", "inputs"], "every sequence of building operations with repeated, empty and unusual names, and every convertible native value",
  "Tests build small fixed values once each.",
  [MM+"struct_.rs", MM+"tuple_struct.rs", MM+"tuple.rs", MM+"enum_.rs", MM+"value.rs"],
  [("builders and From/FromIterator/FromReflect impls of the dynamic types", MM)],
  ["StructValue, TupleStructValue, TupleValue, EnumValue, Value constructors"])
p("C24", "Behaviour does not depend on the selected cargo features",
  "The same program gives the same results with every supported selection of features (no standard library, with or without serialisation support, with the optional math types): values, conversions, paths, patches, comparisons, type descriptions and defaults are identical. Deriving also works in crates that do not have the standard library themselves. Only the sharing of type descriptions, the simplification of printed names and the presence of the feature's own items may differ.",
  ["configurations", "inputs"], "every feature selection that compiles, over a common workload",
  "The tests only run with the standard library; the configuration without it is only type-checked.",
  [MM+"lib.rs", MM+"type_info/mod.rs", "crates/mirror-mirror/Cargo.toml"],
  [("cfg(feature) switches", MM)],
  ["all public operations, per feature selection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
