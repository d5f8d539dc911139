"""Per property: how cases are made and counted, what a run must have observed, what is assumed."""
TYPES = ("Types: about 250 registered types per run (built-in, curated user types and 40 user types "
         "generated from the seed with #[derive(Reflect)], their declarations written down separately as the model). ")
RULES = {
 "C01": TYPES + "Case: one generated value, erased and restored at the root and at random parts. Non-trivial and distinct: distinct (type, shape and contents) of the erased value with at least one part.",
 "C02": TYPES + "Case: one value copied in every way, then one side mutated or dropped. Distinct: distinct (type, contents) pairs.",
 "C03": TYPES + "Case: one source (a mutated dynamic or typed value, a foreign type's value) converted to the type, verdict and result compared with the conversion rules on the model. Distinct: distinct (type, source).",
 "C04": TYPES + "Case: one value, every field read and written through every access, whole value re-read after each write. Distinct: distinct (type, contents).",
 "C05": TYPES + "Case: one value and paths generated from its contents, then broken in one key. Distinct: distinct (type, path).",
 "C06": TYPES + "Case: one type, its description walked completely and compared with the declaration. Distinct: distinct types and contained types.",
 "C07": TYPES + "Case: type paths, valid and broken, resolved in the description and compared with the declaration and with values. Distinct: distinct (type, path).",
 "C08": TYPES + "Case: one target and one patch (mutated, foreign, dynamic or typed). Distinct: distinct (type, target, patch).",
 "C09": TYPES + "Case: a pair of values in random representations (typed, dynamic, boxed, reordered), one mutated. Distinct: distinct pairs.",
 "C12": TYPES + "Case: a random operation sequence on a collection and on its shadow. Distinct: distinct (type, operation sequence).",
 "C13": TYPES + "Case: defaults of a type, all its parts, variants and random type paths. Distinct: distinct (type, path).",
 "C10": "Case: a pool of dynamic values built to be close to each other (same contents with other scalar kinds, special floats, one part changed), every pair and triple compared. Distinct: distinct values and pools.",
 "C11": TYPES + "Case: a value, scalar, path or description written and read back in every format. Distinct: distinct contents.",
 "C14": "Case: one process in which 1 to 16 threads request all types in random orders, types whose metadata waits for a second thread, requests other types, spawns threads or panics. Distinct: distinct orders in which types were first described.",
 "C15": "Recursive types: curated and generated. Case: one recursive type described, walked to random depths, and values nested to random depths converted, navigated and compared. Distinct: distinct (type, walk).",
 "C16": TYPES + "Case: one value visited completely, then with an error injected at a random leaf. Distinct: distinct (type, leaf trace).",
 "C17": TYPES + "Case: a random sequence of 10 to 30 operations with data that mostly does not fit, the value compared with the shadow after each one; and dynamic values nested 100 to 300 deep on an 8 MB stack. Distinct: distinct (type, contents, sequence).",
 "C18": TYPES + "Case: one value, all its views, casts and downcasts. Distinct: distinct (type, contents).",
 "C19": TYPES + "Case: one value formatted compact and pretty, natively (or by a native twin) and through reflection. Distinct: distinct outputs.",
 "C20": "Case: a generated sequence of keys, the path built in random ways, iterated, popped, extended, compared and printed. Distinct: distinct key sequences.",
 "C21": TYPES + "Case: generated type names simplified, and one registered type printed. Distinct: distinct names and declarations.",
 "C22": "Types: 60 declarations per run generated with unusual names, attribute places and spellings, generics, macros, visibilities and own conversions, compiled against /repo. Case: one case of the monitors of C01-C09, C13, C16, C18, C19 over one of them. Distinct: as in those.",
 "C23": TYPES + "Case: a sequence of building operations with repeated names, or one value converted. Distinct: distinct sequences and contents.",
}
RULES["C24"] = "Programs: the monitors and a workload trace, built against /repo with several feature selections (quick: none, serde+glam, std, all; thorough: all 24). Case: one value with everything observable about it written down and compared between the selections, or a case of the monitors of the other properties with one selection. Distinct: distinct observations, distinct cases as in the monitors."
# least numbers of observed events without which a run says nothing
NEEDS = {
 "C01": {"values restored": 1000},
 "C02": {"originals changed": 1000, "copies changed": 1000},
 "C03": {"accepted as required": 5000, "rejected as required": 5000},
 "C04": {"fields read": 5000, "fields written": 5000, "absent names probed": 5000, "typed reads with keys of every type": 1000},
 "C05": {"present paths": 5000, "absent paths": 5000, "parts written": 5000},
 "C06": {"nodes compared": 5000, "fields compared": 5000},
 "C07": {"paths with a type": 5000, "paths without a type": 5000, "values compared with their type": 1000},
 "C08": {"changed as required": 5000, "left unchanged as required": 5000},
 "C09": {"equal as required": 5000, "unequal as required": 5000},
 "C12": {"pushed": 5000, "removed": 1000, "entry added": 1000, "entry got": 1000},
 "C15": {"levels walked": 1000, "deep values converted": 100},
 "C16": {"leaves visited": 5000, "errors injected": 5000, "partial visits": 5000, "values with fields in another order": 1000},
 "C18": {"owned casts": 5000, "mutable casts": 5000, "scalars written": 500},
 "C13": {"defaults compared": 1000},
 "C10": {"triples checked": 100000, "equal pairs hashed": 5000},
 "C11": {"round trips": 20000},
 "C14": {"requests overlapping others": 500, "panics while describing": 50, "processes with many threads": 10},
 "C17": {"operations": 10000, "deeply nested values": 10, "patches": 1000},
 "C19": {"pretty outputs compared": 5000},
 "C20": {"paths read in every way": 5000},
 "C21": {"names simplified": 5000, "declarations printed": 200},
 "C22": {"cases of converting": 5000, "cases of field access": 5000, "cases of descriptions": 100, "cases of printing": 2000},
 "C24": {"cases of converting": 5000, "cases of patching": 5000, "cases of printing": 5000},
 "C23": {"values converted to dynamic containers": 5000},
}
ASSUME = ["the harness's model of each type is written by the generator next to the declaration, not derived from the library",
          "executions are sampled: what is not generated is not observed"]
ASSUMES = {}
SPECIAL = {"C13": "check_c13", "C14": "check_c14", "C22": "check_c22", "C24": "check_c24"}
TECHNIQUE = {
 "C14": "runtime monitoring: concurrent stress with injected waits, re-entrance and panics, and Miri (data races, deadlocks, UB) over varied schedules",
 "C24": "runtime monitoring: differential comparison of recorded observations between feature selections, and the online oracles in each",
}
NOTES = {}
NOT = {}
