"""C22: declarations written in unusual ways must compile, and the monitors of typed values must hold over them.
When the generated declarations do not compile, plain ones decide whether that is the derive's doing."""
import os, re, shutil


def wild_zoo(c, seed, n):
    os.makedirs(c.GEN, exist_ok=True)
    p = os.path.join(c.GEN, f"zoo_wild_{seed}_{n}.rs")
    r = c.sh([c.sys.executable, os.path.join(c.V, "tools", "wildgen.py"), p, str(seed), str(n)])
    if r.returncode:
        raise c.NoAnswer("wildgen failed:\n" + r.stdout[-3000:])
    return p


class Rejected(Exception):
    pass


def build(c, seed, n=60, mode="wild"):
    p = wild_zoo(c, seed, n)
    rc, out, t = c.cargo_build("wild", {"MMV_ZOO": p})
    if rc:
        q = wild_zoo(c, seed, 0)
        rc0, out0, _ = c.cargo_build("wild", {"MMV_ZOO": q})
        errors = "\n\n".join(c.errors_of(out)[:4])[:6000]
        if rc0:
            raise c.NoAnswer("not even plain declarations build against /repo:\n" + "\n".join(c.errors_of(out0)[:6])[-6000:])
        raise Rejected(f"{os.path.basename(p)} has declarations that do not compile (plain ones do):\n{errors}")
    return os.path.join(c.TARGET, "debug", "mmvw"), {"zoo": os.path.basename(p), "build_s": round(t, 1)}, None


EDITIONS = ["2015", "2018", "2021", "2024"]


def edition(c, ed):
    """the declarations of nostd/ as a crate of another edition"""
    d = os.path.join(c.GEN, "edition" + ed)
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(c.V, "nostd", "Cargo.toml")).read().replace('edition = "2021"', f'edition = "{ed}"').replace("mmnostd", f"mmed{ed}")
    open(os.path.join(d, "Cargo.toml"), "w").write(t + f'[lib]\npath = "{c.V}/nostd/src/lib.rs"\n')
    shutil.copy2(os.path.join(c.V, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    rc, out, _ = c.cargo_build(os.path.relpath(d, c.V), args=["--features", "mirror-mirror/std"])
    return rc, out


# What the derive cannot do or does not know must be reported when it is compiled, not ignored: pairs of a declaration
# to be rejected and the supported one closest to it.
D = "#[derive(Reflect, Clone, Debug)]\n"
F = "fn own(v: &dyn Reflect) -> Option<u8> { u8::from_reflect(v) }\n"
REJECTS = [
    ("an unknown attribute of a type", "#[reflect(bogus)] struct A { x: u8 }", "struct A { x: u8 }"),
    ("an unknown attribute of a type after a known one", "#[reflect(meta(a = 1), bogus(x))] struct A { x: u8 }", "#[reflect(meta(a = 1))] struct A { x: u8 }"),
    ("an unknown attribute of an enum", "#[reflect(bogus = 1)] enum A { X }", "enum A { X }"),
    ("an unknown attribute of a field", "struct A { #[reflect(bogus)] x: u8 }", "struct A { x: u8 }"),
    ("an unknown attribute of a later field", "struct A { y: u8, #[reflect(meta(a = 1), skipp)] x: u8 }", "struct A { y: u8, #[reflect(meta(a = 1), skip)] x: u8 }"),
    ("an unknown attribute of a positional field", "struct A(u8, #[reflect(bogus)] u8);", "struct A(u8, #[reflect(skip)] u8);"),
    ("an unknown attribute of a variant", "enum A { X, #[reflect(bogus)] Y }", "enum A { X, #[reflect(skip)] Y }"),
    ("an unknown attribute of a variant's field", "enum A { X { #[reflect(bogus)] x: u8 } }", "enum A { X { #[reflect(skip)] x: u8 } }"),
    ("an unknown attribute of a variant's positional field", "enum A { X(u8, #[reflect(bogus)] u8) }", "enum A { X(u8, #[reflect(skip)] u8) }"),
    ("an unknown opt out", "#[reflect(opt_out(Bogus))] struct A { x: u8 }", "#[reflect(opt_out(Debug))] struct A { x: u8 }"),
    ("an unknown opt out after a known one", "#[reflect(opt_out(Clone, PartialEq))] struct A(u8);", "#[reflect(opt_out(Clone, Debug))] struct A(u8);"),
    ("an opt out of a field", "struct A { #[reflect(opt_out(Clone))] x: u8 }", "#[reflect(opt_out(Clone))] struct A { x: u8 }"),
    ("a field's attribute on a type", "#[reflect(skip)] struct A { x: u8 }", "struct A { #[reflect(skip)] x: u8 }"),
    ("an own conversion of a type", F + D + "#[reflect(from_reflect_with(own))] struct A { x: u8 }", F + D + "struct A { #[reflect(from_reflect_with(own))] x: u8 }"),
    ("a crate name of a field", "struct A { #[reflect(crate_name(mirror_mirror))] x: u8 }", "#[reflect(crate_name(mirror_mirror))] struct A { x: u8 }"),
    ("metadata given twice on a type", "#[reflect(meta(a = 1, a = 2))] struct A { x: u8 }", "#[reflect(meta(a = 1, b = 2))] struct A { x: u8 }"),
    ("metadata given twice in two lists on a type", "#[reflect(meta(a = 1), meta(a = 2))] enum A { X }", "#[reflect(meta(a = 1), meta(b = 2))] enum A { X }"),
    ("metadata given twice on a field", "struct A { #[reflect(meta(a = 1, b = 2, a = 1))] x: u8 }", "struct A { #[reflect(meta(a = 1, b = 2, c = 1))] x: u8 }"),
    ("metadata given twice on a variant", "enum A { #[reflect(meta(a = 1), meta(a = 2))] X }", "enum A { #[reflect(meta(a = 1), meta(b = 2))] X }"),
    ("metadata given twice on a positional field", "struct A(#[reflect(meta(a = 1, a = 2))] u8);", "struct A(#[reflect(meta(a = 1, b = 2))] u8);"),
    ("metadata without a value", "#[reflect(meta(a))] struct A { x: u8 }", "#[reflect(meta(a = ()))] struct A { x: u8 }"),
    ("metadata with a value that is not reflected", "struct N; " + D + "#[reflect(meta(a = N))] struct A { x: u8 }", "#[reflect(meta(a = 1))] struct A { x: u8 }"),
    ("two attributes on a type", "#[reflect(meta(a = 1))] #[reflect(opt_out(Clone))] struct A { x: u8 }", "#[reflect(meta(a = 1), opt_out(Clone))] struct A { x: u8 }"),
    ("two attributes on a field", "struct A { #[reflect(meta(a = 1))] #[reflect(skip)] x: u8 }", "struct A { #[reflect(meta(a = 1), skip)] x: u8 }"),
    ("two attributes on a variant", "enum A { X, #[reflect(meta(a = 1))] #[reflect(skip)] Y }", "enum A { X, #[reflect(meta(a = 1), skip)] Y }"),
    ("two attributes on a positional field of a variant", "enum A { X(#[reflect(meta(a = 1))] #[reflect(skip)] u8) }", "enum A { X(#[reflect(meta(a = 1), skip)] u8) }"),
    ("a union", "#[derive(Copy)] union A { x: u8, y: u8 }", "#[derive(Copy)] struct A { x: u8, y: u8 }"),
    ("a hash map", "struct A { x: std::collections::HashMap<u8, u8> }", "struct A { x: std::collections::BTreeMap<u8, u8> }"),
    ("a hash map within another type", "enum A { X, Y(Vec<std::collections::HashMap<u8, u8>>) }", "enum A { X, Y(Vec<std::collections::BTreeMap<u8, u8>>) }"),
    ("a type that is not reflected", "#[derive(Clone, Debug)] struct N; " + D + "struct A { x: N }", "#[derive(Clone, Debug, Default)] struct N; " + D + "struct A { #[reflect(skip)] x: N }"),
    ("an excluded field without a default", "#[derive(Clone, Debug)] struct N; " + D + "struct A { #[reflect(skip)] x: N }", "#[derive(Clone, Debug, Default)] struct N; " + D + "struct A { #[reflect(skip)] x: N }"),
    ("an own conversion giving another type", F + D + "struct A { #[reflect(from_reflect_with(own))] x: u16 }", F + D + "struct A { #[reflect(from_reflect_with(own))] x: u8 }"),
]

# Names of types. Those of the first list are the known finding: the generated code uses the library's and the prelude's
# items by these names, so a type called like one of them (or a field of such a type) does not compile.
CLASH = """Any Array ArrayNode BTreeMap Box Breadcrumbs Cow DescribeType Enum EnumNode EnumValue From FromReflect GetField
    GetFieldMut GetPath GetTypePath IntoKeyOrIndex IntoValue Key KeyPath List ListNode Map MapNode NamedFieldNode
    NamedOrNumbered NodeId OnceBox OpaqueNode Option PairIterMut Reflect ReflectMut ReflectOwned ReflectRef ScalarMut
    ScalarNode ScalarOwned ScalarRef Struct StructNode StructValue StructVariantBuilder StructVariantNode ToOwned Tuple
    TupleNode TupleStruct TupleStructNode TupleStructValue TupleValue TupleVariantBuilder TupleVariantNode TypeDescriptor
    TypeGraph TypeId TypeNode UnitVariantNode UnnamedFieldNode Value ValueIterMut VariantField VariantFieldIter
    VariantFieldIterMut VariantFieldMut VariantKind VariantNode""".split()
FREE = """Clone Debug Default Drop Duration Entry Eq Error Field Hash HashMap Id Index Into IntoIter Item Iterator Kind Meta
    Name Node Opaque Ord Output PartialEq Range Ref Result Scalar Send String Sync Type Variant Vec Keys Path Config
    Player Vec2 Vec3 Transform Color Entity Component System Settings State Message Request Response User Account Order
    Shape Rect Circle Point Size Id_ A B T U E Self_ Other Data Info Item_ Rgba Tree Leaf Graph Edge Matrix Token Span""".split()
KNOWN = "types called like items that the generated code uses by name do not compile"


def named(n, i):
    body = [f"struct {n} {{ x: u8 }}", f"enum {n} {{ X(u8), Y }}", f"struct {n}(u8);", f"struct {n};"][i % 4]
    return f"mod name_{n.lower()} {{ #[derive(::mirror_mirror::Reflect, ::core::clone::Clone, ::core::fmt::Debug)] pub {body} }}\n"


def case_text(decl):
    return "use mirror_mirror::*;\n" + (decl if D in decl else D + decl) + "\n"


def rejects(c):
    """None or what is wrong with what the derive rejects; the number of declarations tried; known findings seen"""
    d = os.path.join(c.GEN, "rejects")
    src = os.path.join(d, "src")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    t = open(os.path.join(c.V, "nostd", "Cargo.toml")).read().replace("mmnostd", "mmrejects")
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    shutil.copy2(os.path.join(c.V, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    for i, (_, bad, good) in enumerate(REJECTS):
        open(os.path.join(src, f"bad{i}.rs"), "w").write(case_text(bad))
        open(os.path.join(src, f"good{i}.rs"), "w").write(case_text(good))

    def compile(mods, more=""):
        open(os.path.join(src, "lib.rs"), "w").write("#![allow(dead_code)]\n" + "".join(f"mod {m};\n" for m in mods) + more)
        return c.cargo_build(os.path.relpath(d, c.V), args=["--features", "mirror-mirror/std"])[:2]
    rc, out = compile([f"good{i}" for i in range(len(REJECTS))], "".join(named(n, i) for i, n in enumerate(FREE)))
    if rc:
        return "supported declarations do not compile:\n" + "\n\n".join(c.errors_of(out)[:4])[:6000], 0, []
    known = []
    rc, out = compile([], "".join(named(n, i) for i, n in enumerate(CLASH)))
    if rc:
        listed = any("known: property=C22" in l for l in open(os.path.join(c.V, "known-findings.txt")))
        if not listed:
            return KNOWN + ":\n" + "\n\n".join(c.errors_of(out)[:4])[:6000], 0, []
        known.append(KNOWN + " (struct Key, struct Map, ...: the names listed in known-findings.txt)")
    rc, out = compile([f"bad{i}" for i in range(len(REJECTS))])
    for i, (what, bad, _) in enumerate(REJECTS):
        if rc and re.search(r"src/bad%d\.rs:" % i, "\n".join(c.errors_of(out))):
            continue
        # errors of later phases do not appear next to those of the expansion
        rc1, out1 = compile([f"bad{i}"])
        if not rc1:
            return f"the derive accepts {what}:\n{case_text(bad)}", i, known
    return None, len(REJECTS), known


def setup(c):
    build(c, 1)
    for ed in EDITIONS:
        edition(c, ed)
    rejects(c)


def run(c, tier, seed):
    seeds = [seed, seed + 100000] if tier == "quick" else [seed + 100000 * i for i in range(12)]
    total = {"cases": 0, "distinct": 0, "events": {}, "samples": [], "runs": []}
    violations = []
    for s in seeds:
        try:
            v, t = c.monitor("C22", tier, s, build=lambda s: build(c, s), seeds=[s])
        except Rejected as e:
            violations.append({"seed": s, "label": "compile", "case": 0, "message": str(e), "zoo": f"zoo_wild_{s}_60.rs"})
            break
        violations += v
        total["cases"] += t["cases"]
        total["distinct"] += t["distinct"]
        for k, x in t["events"].items():
            total["events"][k] = total["events"].get(k, 0) + x
        total["samples"] += t["samples"][:6]
        total["runs"] += t["runs"]
        if violations:
            break
    for ed in EDITIONS if not violations else []:
        rc, out = edition(c, ed)
        if rc:
            violations.append({"seed": seed, "label": "edition", "case": 0, "zoo": None, "message": f"declarations that compile in other editions (or did before) do not in a crate of edition {ed}:\n" + "\n\n".join(c.errors_of(out)[:4])[:6000]})
            break
    tried, known = 0, []
    if not violations:
        m, tried, known = rejects(c)
        if m:
            violations.append({"seed": seed, "label": "rejects", "case": 0, "zoo": None, "message": m})
    return violations, total, known, {"names of types": len(FREE), "declarations that must be rejected": tried, "declarations compiled": 60 * len(total["runs"]), "editions": EDITIONS}
