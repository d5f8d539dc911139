#!/usr/bin/env python3
"""Generates the zoo: user types with #[derive(Reflect)] and, next to each, what the declaration
says written down independently of the library (impl Zoo).

usage: zoogen.py OUT SEED N_RANDOM [plain|exotic]"""
import random, re, sys

SCALARS = ["usize","u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","bool","char","f32","f64","String"]
SHADOW = ["name","value","index","f","graph","fields","struct_","enum_","new_value","variant_matches","other",
          "reflect","field","i","n","key","data","this","tuple","iter","variant","kind","self_","meta","docs","len",
          "idx","inner","info","x","a","b","c","_0","r","d","out","id","node","node_id","map","field_0","field_1","__self",
          "values","path","type_info","debug","to_value","patch","clone_reflect","describe","build","source","target","_unused",
          "fields_len","variant_name","type_name","any","as_any","from_reflect","get","iter_mut","result","ret","res","tmp","val","v","k","t","s","e","w"]
VNAMES = ["A","B","C","D","Some_","None_","Ok_","Struct","Tuple","Unit","Variant","Field","Value_","Name","X1","Foo","Bar","Baz","Err_","Iter"]

class T:
    def __init__(s, e, ord=False, clone=True, debug=True, any=False, skip=False, opq=False):
        s.e, s.ord, s.clone, s.debug, s.any, s.skip, s.opq = e, ord, clone, debug, any, skip, opq
    def w(s, e, **k):
        t = T(e, s.ord, s.clone, s.debug, s.any, s.skip, s.opq)
        for a, b in k.items(): setattr(t, a, b)
        return t

def scal(e): return T(e, ord=e not in ("f32", "f64"))
BASE = [scal(e) for e in SCALARS]
VIA = [T("NonZeroU8", True), T("NonZeroI64", True), T("NonZeroUsize", True), T("NonZeroU128", True), T("NonZeroI16", True), T("Duration", True)]

def comb(r, pool, d=0):
    """a random type expression over pool"""
    k = r.random()
    if d >= 2 or k < .34: return r.choice(pool)
    if k < .40: return r.choice(BASE)
    if k < .44: return r.choice(VIA)
    i = comb(r, pool, d + 1)
    if k < .58: return i.w(f"Vec<{i.e}>")
    if k < .66: return i.w(f"Option<{i.e}>", ord=i.ord)
    if k < .72: return i.w(f"[{i.e}; {r.choice([0,1,2,3,5])}]")
    if k < .78: return i.w(f"Box<{i.e}>")
    if k < .88:
        for _ in range(20):
            key = comb(r, pool, d + 1)
            if key.ord and not key.skip: break
        else: key = r.choice([b for b in BASE if b.ord])
        return i.w(f"BTreeMap<{key.e}, {i.e}>", ord=i.ord, clone=i.clone and key.clone, debug=i.debug and key.debug, any=i.any or key.any, skip=i.skip, opq=i.opq or key.opq)
    if k < .95:
        n = r.choice([0,1,2,2,3])
        ts = [comb(r, pool, d + 1) for _ in range(n)]
        ts = [t if t.clone else r.choice(BASE) for t in ts]
        return T("(" + "".join(t.e + "," for t in ts) + ")", all(t.ord for t in ts), True, all(t.debug for t in ts), any(t.any for t in ts), any(t.skip for t in ts), any(t.opq for t in ts))
    j = comb(r, pool, d + 1)
    return i.w(f"Result<{i.e}, {j.e}>", ord=i.ord and j.ord, clone=i.clone and j.clone, debug=i.debug and j.debug, any=i.any or j.any, skip=i.skip or j.skip, opq=i.opq or j.opq)

METAS = [("1_i32", "M::S(Sc::I32(1))"), ('"text"', 'M::str("text")'), ("true", "M::S(Sc::Bool(true))"), ("'c'", "M::S(Sc::Char('c'))"),
         ("vec![1_u8, 2]", "M::List(vec![M::S(Sc::U8(1)), M::S(Sc::U8(2))])"),
         ("Some(3_u16)", 'M::Enum("Some".into(), F::Tuple(vec![M::S(Sc::U16(3))]))'),
         ("(1_u8, -0.0_f64)", "M::Tuple(vec![M::S(Sc::U8(1)), M::S(Sc::F64((-0.0f64).to_bits()))])"),
         ("[7_i64; 2]", "M::List(vec![M::S(Sc::I64(7)), M::S(Sc::I64(7))])"),
         ('String::from("own")', 'M::str("own")'), ("u128::MAX", "M::S(Sc::U128(u128::MAX))"),
         ("1 + 2_usize", "M::S(Sc::Usize(3))"), ("MetaS { a: -5, b: None }", 'M::Struct(vec![("a".into(), M::S(Sc::I32(-5))), ("b".into(), M::Enum("None".into(), F::Unit))])')]
DOCS = ["///", "/// one line", "/// \"quoted\" \\ backslash {}", '#[doc = "no space"]', "/// 日本 unicode", "///    indented", '/** block */', '#[doc = "multi\\nline"]']
# documentation given by other expressions than a plain string literal (used by wildgen.py)
DOC_EXPRS = {'#[doc = concat!("con", "cat ", 1)]': "concat 1", '#[doc = stringify!(Some words)]': "Some words", '#[doc = r#"raw "q" \\n"#]': 'raw "q" \\n', '#[doc = concat!("", stringify!(T), "\\t")]': "T\t", '#[doc = concat!(1.5, \'-\', true)]': "1.5-true"}
def doc_text(d):
    if d in DOC_EXPRS: return DOC_EXPRS[d]
    if d.startswith("///"): return d[3:]
    if d.startswith("/**"): return d[3:-2]
    return d[len('#[doc = "'):-2].replace("\\n", "\n")
def rstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'

class Fl:
    def __init__(s, name, t, skip=False, meta=(), docs=(), with_=None):
        s.name, s.t, s.skip, s.meta, s.docs, s.with_ = name, t, skip, list(meta), list(docs), with_
class Va:
    def __init__(s, name, kind, fields=(), skip=False, meta=(), docs=()):
        s.name, s.kind, s.fields, s.skip, s.meta, s.docs = name, kind, list(fields), skip, list(meta), list(docs)

def attr_args(f):
    args = []
    if f.skip: args.append("skip")
    if f.meta: args.append("meta(" + ", ".join(f"{k} = {e}" for k, e, _ in f.meta) + ")")
    if getattr(f, "with_", None): args.append(f"from_reflect_with({f.with_})")
    return args
def split_lists(a, r):
    """one list of metadata or opt-outs written as several"""
    out = []
    for x in a:
        h, _, body = x.partition("(")
        if h in ("meta", "opt_out") and "," in body and r.random() < .4 and "(" not in body[:-1] and "{" not in body and "[" not in body:
            out += [f"{h}({y.strip()})" for y in body[:-1].split(",")]
        elif h in ("meta", "opt_out") and r.random() < .3: out.append(x[:-1] + ",)")
        else: out.append(x)
    return out
def join_args(a, r):
    return "".join(x + (r.choice([", ", ",", " "]) if i + 1 < len(a) else "") for i, x in enumerate(a))
def attrs(f, r):
    wild = hasattr(f, "extra")
    a = split_lists(attr_args(f), r) if wild else attr_args(f)
    r.shuffle(a)
    out = list(f.docs)
    for x in getattr(f, "extra", ()): out.insert(r.randrange(len(out) + 1), x)
    if a:
        tail = "," if r.random() < .3 else ""
        inner = join_args(a, r) if wild else ", ".join(a)
        at = f"reflect({inner}{tail})"
        if wild and r.random() < .1: at = f"cfg_attr(all(), {at})"
        out.insert(r.randrange(len(out) + 1), f"#[{at}]")
    return getattr(f, "pre", "") + "".join(x + "\n    " for x in out)
def meta_m(x): return "".join(f".meta({rstr(k)}, {m})" for k, _, m in x.meta)
def docs_m(x): return "".join(f".doc({rstr(doc_text(d))})" for d in x.docs)
def fty(f):
    h = f"FieldTy::named({rstr(f.name)}, ty_of::<{f.t.e}>)" if f.name else f"FieldTy::at(ty_of::<{f.t.e}>)"
    w = f".with({f.with_}_m)" if f.with_ else ""
    return h + meta_m(f) + docs_m(f) + w
def live(fs): return [f for f in fs if not f.skip]
SKT = T("Sk")

def emit(r, name, kind, body, *, clone=True, debug=True, ordd=False, meta=(), docs=(), generics=None, crate_name=None, extra_item=(), recursive=False, vis="pub ", custom=None, from_reflect=True, manual="", rec=(), extra=None, ig=None, wrap=None, derives=(), derive_first=True, nogen=False):
    """kind: struct|tuple|unit|enum; body: fields or variants. Returns rust text."""
    gp, ga, gw = generics or ("", "", "")
    o = []
    class I: pass
    item = I(); item.docs = list(docs)
    args = list(extra_item)
    oo = [x for x, y in (("Clone", clone), ("Debug", debug), ("FromReflect", from_reflect)) if not y]
    r.shuffle(oo)
    if oo: args.append(f"opt_out({', '.join(oo)})")
    if meta: args.append("meta(" + ", ".join(f"{k} = {e}" for k, e, _ in meta) + ")")
    if crate_name: args.append(f"crate_name({crate_name})")
    if extra is not None: args = split_lists(args, r)
    r.shuffle(args)
    lines = list(docs)
    for x in extra or (): lines.insert(r.randrange(len(lines) + 1), x)
    der = ["Reflect"] + (["Clone"] if clone else []) + (["Debug"] if debug is True else []) + (["PartialEq", "Eq", "PartialOrd", "Ord"] if ordd else [])
    der += list(derives)
    r.shuffle(der)
    if extra is not None and r.random() < .3:
        # several derives, ours first or last
        der.remove("Reflect")
        both = [["Reflect"], der] if r.random() < .5 else [der, ["Reflect"]]
        lines[:0] = [f"#[derive({', '.join(x)})]" for x in both if x]
    else: lines.insert(0, f"#[derive({', '.join(der)})]")
    lo = max(i for i, l in enumerate(lines) if l.startswith("#[derive")) + 1
    if args: lines.insert(r.randrange(lo, len(lines) + 1), f"#[reflect({', '.join(args) if extra is None else join_args(args, r)})]")
    o.append("\n".join(lines))
    def decl(fs, named, fvis):
        v = lambda f: getattr(f, "vis", fvis) if fvis else ""
        t = lambda f: getattr(f, "decl", f.t.e)
        if named: return "{\n    " + "".join(f"{attrs(f, r)}{v(f)}{f.name}: {t(f)},\n    " for f in fs) + "}"
        return "(\n    " + "".join(f"{attrs(f, r)}{v(f)}{t(f)},\n    " for f in fs) + ")"
    if kind == "struct": o.append(f"{vis}struct {name}{gp} {gw} " + decl(body, True, "pub "))
    elif kind == "tuple": o.append(f"{vis}struct {name}{gp} " + decl(body, False, "pub ") + f" {gw};")
    elif kind == "unit": o.append(f"{vis}struct {name}{gp} {gw};")
    else:
        vs = []
        for v in body:
            vs.append(attrs(v, r) + v.name + ({"unit": "", "tuple": " " + decl(v.fields, False, ""), "struct": " " + decl(v.fields, True, "")}[v.kind] + getattr(v, "disc", "")))
        o.append(f"{vis}enum {name}{gp} {gw} {{\n" + "".join(v + ",\n" for v in vs) + "}")
    if wrap: o = [wrap("\n".join(o))]
    # the independent description
    o.append(manual)
    ig = gp.replace(" = 2", "").replace(" = i32", "") if ig is None else ig
    z = [f"impl{ig} Zoo for {name}{ga} {gw} {{"]
    def shape_fields(fs): return "vec![" + ", ".join(fty(f) for f in live(fs)) + "]"
    if kind in ("struct", "unit"): z.append(f"fn shape() -> K {{ K::Struct({shape_fields(body)}) }}")
    elif kind == "tuple": z.append(f"fn shape() -> K {{ K::TupleStruct({shape_fields(body)}) }}")
    else:
        z.append("fn shape() -> K { K::Enum(vec![" + ",\n".join(
            f"VariantTy::new({rstr(v.name)}, VK::{v.kind.capitalize()}, {shape_fields(v.fields)}){meta_m(v)}{docs_m(v)}" for v in body if not v.skip) + "]) }")
    if meta: z.append("fn meta() -> Vec<(&'static str, M)> { vec![" + ", ".join(f"({rstr(k)}, {m})" for k, _, m in meta) + "] }")
    if docs: z.append("fn docs() -> Vec<&'static str> { vec![" + ", ".join(rstr(doc_text(d)) for d in docs) + "] }")
    if custom: z.append(f"fn custom() -> Option<fn(&M) -> Conv> {{ Some({custom}) }}")
    def gen(f): return f.dflt if getattr(f, "dflt", None) else "gen_sk(r_)" if f.skip and f.t is SKT else f"<{f.t.e} as Zoo>::gen(r_, d_.saturating_sub(1))"
    def ctor(path, fs, named):
        if named: return path + " { " + ", ".join(f"{f.name}: {gen(f)}" for f in fs) + " }"
        return path + "(" + ", ".join(gen(f) for f in fs) + ")"
    if kind == "struct": z.append("fn gen(r_: &mut Rng, d_: u32) -> Self { " + ctor(name, body, True) + " }")
    elif kind == "tuple": z.append("fn gen(r_: &mut Rng, d_: u32) -> Self { " + ctor(name, body, False) + " }")
    elif kind == "unit": z.append(f"fn gen(_: &mut Rng, _: u32) -> Self {{ {name} }}")
    else:
        usable = [v for v in body if not v.skip]
        leaf = [v for v in usable if not any("Box<" + name in f.t.e or f"<{name}" in f.t.e or any(re.search(rf"\b{q}\b", f.t.e) for q in rec) for f in v.fields)]
        arms = []
        for i, v in enumerate(usable):
            p = f"{name}::{v.name}"
            c = p if v.kind == "unit" else ctor(p, v.fields, v.kind == "struct")
            arms.append(f"{i} => {c},")
        if not usable: pick = "0"
        elif leaf and len(leaf) < len(usable):
            li = [usable.index(v) for v in leaf]
            pick = f"if d_ == 0 {{ *r_.pick(&[{', '.join(map(str, li))}]) }} else {{ r_.below({len(usable)}) }}"
        else: pick = f"r_.below({len(usable)})"
        z.append(f"fn gen(r_: &mut Rng, d_: u32) -> Self {{ let n_: usize = {pick}; match n_ {{ " + " ".join(arms) + " _ => unreachable!() } }")
    def pat(v):
        if v.kind == "unit": return f"{name}::{v.name}"
        if v.kind == "tuple": return f"{name}::{v.name}(" + ", ".join(f"b{i}_" for i in range(len(v.fields))) + ")"
        return f"{name}::{v.name} {{ " + ", ".join(f"{f.name}: b{i}_" for i, f in enumerate(v.fields)) + " }"
    sub = lambda f, i: f"self.{f.name or i}"
    def named_m(fs, acc): return "vec![" + ", ".join(f"({rstr(f.name)}.to_owned(), Zoo::model({acc(f, i)}))" for i, f in enumerate(fs) if not f.skip) + "]"
    def pos_m(fs, acc): return "vec![" + ", ".join(f"Zoo::model({acc(f, i)})" for i, f in enumerate(fs) if not f.skip) + "]"
    sref = lambda f, i: "&" + sub(f, i)
    bref = lambda f, i: f"b{i}_"
    if kind in ("struct", "unit"): z.append(f"fn model(&self) -> M {{ M::Struct({named_m(body, sref)}) }}")
    elif kind == "tuple": z.append(f"fn model(&self) -> M {{ M::TupleStruct({pos_m(body, sref)}) }}")
    else:
        arms = []
        for v in body:
            if v.skip: arms.append(f"{name}::{v.name}{ {'unit':'','tuple':'(..)','struct':' {..}'}[v.kind] } => M::str(\"skipped variant\"),"); continue
            f = "F::Unit" if v.kind == "unit" else f"F::Tuple({pos_m(v.fields, bref)})" if v.kind == "tuple" else f"F::Struct({named_m(v.fields, bref)})"
            arms.append(f"{pat(v)} => M::Enum({rstr(v.name)}.into(), {f}),")
        z.append("fn model(&self) -> M { match self { " + "\n".join(arms) + " } }")
    # excluded fields
    if kind in ("struct", "tuple"):
        sk = [(f, i) for i, f in enumerate(body) if f.skip and f.t is SKT]
        if sk:
            z.append("fn skips(&self) -> Vec<u64> { vec![" + ", ".join(f"{sub(f, i)}.0" for f, i in sk) + "] }")
            z.append("fn set_skips(&mut self, n_: u64) { " + " ".join(f"{sub(f, i)} = Sk(n_ + {j});" for j, (f, i) in enumerate(sk)) + " }")
    elif kind == "enum" and any(f.skip and f.t is SKT for v in body for f in v.fields):
        arms = [f"{pat(v)} => vec![" + ", ".join(f"b{i}_.0" for i, f in enumerate(v.fields) if f.skip and f.t is SKT) + "]," for v in body if not v.skip and any(f.skip and f.t is SKT for f in v.fields)]
        z.append("fn skips(&self) -> Vec<u64> { match self { " + "\n".join(arms) + " _ => vec![] } }")
    # debug
    tn = f"&dbg_name(type_name::<Self>(), s_)"
    def dst(head, fs, acc): return f"f_.debug_struct({head})" + "".join(f".field({rstr(f.name)}, &Dbg({acc(f, i)}, s_))" for i, f in enumerate(fs) if not f.skip) + ".finish()"
    def dtp(head, fs, acc): return f"f_.debug_tuple({head})" + "".join(f".field(&Dbg({acc(f, i)}, s_))" for i, f in enumerate(fs) if not f.skip) + ".finish()"
    if kind in ("struct", "unit"): g = dst(tn, body, sref)
    elif kind == "tuple": g = dtp(tn, body, sref)
    else:
        arms = []
        for v in body:
            if v.skip: continue
            e = f"f_.write_str({rstr(v.name)})" if v.kind == "unit" else dtp(rstr(v.name), v.fields, bref) if v.kind == "tuple" else dst(rstr(v.name), v.fields, bref)
            arms.append(f"{pat(v)} => {e},")
        if any(v.skip for v in body): arms.append("_ => Ok(()),")
        g = "match self { " + "\n".join(arms) + " }"
    z.append(f"fn dbg_generic(&self, f_: &mut std::fmt::Formatter<'_>, s_: bool) -> std::fmt::Result {{ let _ = s_; {g} }}")
    if debug: z.append("fn dbg(&self, f_: &mut std::fmt::Formatter<'_>, _: bool) -> std::fmt::Result { std::fmt::Debug::fmt(self, f_) }")
    else: z.append("fn dbg(&self, f_: &mut std::fmt::Formatter<'_>, s_: bool) -> std::fmt::Result { self.dbg_generic(f_, s_) }")
    z.append("}")
    o.append("#[allow(unused_variables, clippy::all)]\n" + "\n".join(z))
    return "\n".join(o)

def S(e): return T(e, ord="f32" not in e and "f64" not in e)

def perms(r):
    """excluded fields, own conversions, metadata and documentation in every order, in every kind of declaration"""
    def fl(c, nm):
        if c == "s": return Fl(nm, SKT, skip=True)
        if c == "w": return Fl(nm, S("i32"), with_="lenient_i32")
        if c == "x": return Fl(nm, S("String"), with_="lenient_string")
        return Fl(nm, S("u8"), meta=[("m",) + r.choice(METAS)], docs=[r.choice(DOCS)])
    ps = ["swp", "spw", "wsp", "wps", "psw", "pws", "sswx", "swsx", "xwsp", "sxpw"]
    def fs(p, named): return [fl(c, "abcd"[i] if named else None) for i, c in enumerate(p)]
    out = [(f"PermT{i}", "tuple", fs(p, False)) for i, p in enumerate(ps)] + [(f"PermS{i}", "struct", fs(p, True)) for i, p in enumerate(ps[::2])]
    out.append(("PermE", "enum", [Va(f"T{i}", "tuple", fs(p, False)) for i, p in enumerate(ps)] + [Va(f"S{i}", "struct", fs(p, True)) for i, p in enumerate(ps)]))
    return out

def curated(r, plain, mixed=True):
    out = []; reg = []
    def add(name, kind, body, t=None, **k):
        out.append(emit(r, name, kind, body, **k))
        if name not in ("MetaS",) or True:
            reg.append(T(name, k.get("ordd", False), k.get("clone", True), k.get("debug", True), t.any if t else False,
                         any(f.skip for f in (body if kind != "enum" else [f for v in body for f in v.fields])), t.opq if t else False))
        return reg[-1]
    add("MetaS", "struct", [Fl("a", S("i32")), Fl("b", S("Option<u8>"))], ordd=True)
    add("Unit", "unit", [], ordd=True)
    add("Empty", "struct", [])
    add("EmptyT", "tuple", [])
    add("Plain", "struct", [Fl("x", S("i32")), Fl("y", S("String")), Fl("z", S("f32"))])
    add("Pair", "tuple", [Fl(None, S("u8")), Fl(None, S("String"))], ordd=True)
    add("New", "tuple", [Fl(None, S("i64"))], ordd=True)
    add("KeyS", "struct", [Fl("a", S("u8")), Fl("b", S("(bool,char,)"))], ordd=True)
    add("En", "enum", [Va("A", "unit"), Va("B", "tuple", [Fl(None, S("i32")), Fl(None, S("String"))]), Va("C", "struct", [Fl("x", S("u8")), Fl("y", S("Option<bool>"))])], ordd=True)
    # keys of few values, alike in everything but the variant or the place of a value
    add("KeyTw", "enum", [Va("A", "tuple", [Fl(None, S("bool"))]), Va("B", "tuple", [Fl(None, S("bool"))]), Va("C", "struct", [Fl("x", S("bool"))]), Va("D", "struct", [Fl("x", S("bool"))]), Va("E", "struct", [Fl("y", S("bool"))]), Va("F", "unit"), Va("G", "tuple", []), Va("H", "struct", [])], ordd=True)
    add("KeyPl", "struct", [Fl("a", S("bool")), Fl("b", S("Option<bool>")), Fl("c", S("Result<bool, bool>"))], ordd=True)
    add("KeyMaps", "struct", [Fl("e", S("BTreeMap<KeyTw, u8>")), Fl("s", S("BTreeMap<KeyPl, u8>")), Fl("t", S("BTreeMap<(bool, bool, KeyTw), u8>")), Fl("l", S("BTreeMap<Vec<bool>, u8>")), Fl("m", S("BTreeMap<BTreeMap<bool, bool>, u8>")), Fl("r", S("BTreeMap<Result<bool, bool>, u8>"))])
    add("Units", "enum", [Va("A", "unit"), Va("B", "unit"), Va("C", "unit")], ordd=True)
    add("One", "enum", [Va("Only", "struct", [Fl("a", S("i32")), Fl("b", S("i32"))])], ordd=True)
    add("SkipS", "struct", [Fl("a", S("i32")), Fl("hidden", SKT, skip=True), Fl("b", S("String")), Fl("hidden2", SKT, skip=True)])
    add("SkipT", "tuple", [Fl(None, S("i32")), Fl(None, SKT, skip=True), Fl(None, S("String"))])
    add("SkipT0", "tuple", [Fl(None, SKT, skip=True), Fl(None, S("u8")), Fl(None, S("i32"))])
    add("SkipE", "enum", [Va("Gone", "unit", skip=True), Va("A", "tuple", [Fl(None, SKT, skip=True), Fl(None, S("u8")), Fl(None, S("i32"))]),
                          Va("Gone2", "tuple", [Fl(None, S("i32"))], skip=True),
                          Va("B", "struct", [Fl("a", S("i32")), Fl("s", SKT, skip=True), Fl("b", S("String"))]), Va("C", "unit")])
    m = [("m1",) + METAS[0], ("m2",) + METAS[1], ("m3",) + METAS[4]]
    add("Docd", "struct", [Fl("a", S("i32"), meta=[m[0]], docs=["/// field doc", "///", "/// after"]), Fl("b", S("String"), docs=[DOCS[2]]), Fl("c", S("u8"), meta=m)],
        meta=m, docs=["/// type doc", "/// second"])
    add("DocT", "tuple", [Fl(None, S("i32"), meta=[m[1]], docs=["/// t0"]), Fl(None, S("u8"), meta=[m[0]])], meta=[m[2]], docs=["/// dt"])
    add("DocE", "enum", [Va("A", "unit", meta=[m[0]], docs=["/// A doc"]), Va("B", "tuple", [Fl(None, S("i32"), meta=[m[1]], docs=["/// b0"])], meta=[m[1], m[2]]),
                         Va("C", "struct", [Fl("x", S("u8"), meta=[m[2]], docs=["/// cx"]), Fl("y", S("u8"))], docs=["/// C", "///  doc"])], meta=[m[0]], docs=["/// E"])
    add("WithS", "struct", [Fl("a", S("i32"), with_="lenient_i32"), Fl("b", S("String"), with_="lenient_string"), Fl("c", S("u8"))])
    add("WithT", "tuple", [Fl(None, S("i32"), with_="lenient_i32"), Fl(None, S("u8")), Fl(None, S("String"), with_="lenient_string")])
    add("WithE", "enum", [Va("A", "tuple", [Fl(None, S("u8")), Fl(None, S("i32"), with_="lenient_i32")]), Va("B", "struct", [Fl("s", S("String"), with_="lenient_string"), Fl("t", S("i32"))]), Va("C", "unit")])
    add("WithSO", "struct", [Fl("a", S("i32"), with_="lenient_i32"), Fl("b", S("String"), with_="lenient_string"), Fl("c", S("u8"))], clone=False)
    add("WithTO", "tuple", [Fl(None, S("i32"), with_="lenient_i32"), Fl(None, S("u8")), Fl(None, S("String"), with_="lenient_string")], clone=False)
    add("WithEO", "enum", [Va("A", "tuple", [Fl(None, S("u8")), Fl(None, S("i32"), with_="lenient_i32")]), Va("B", "struct", [Fl("s", S("String"), with_="lenient_string"), Fl("t", S("i32"))]), Va("C", "unit")], clone=False)
    add("WithSD", "struct", [Fl("k", SKT, skip=True), Fl("b", S("String"), with_="lenient_string"), Fl("c", S("u8")), Fl("a", S("i32"), with_="lenient_i32")], clone=False, debug=False)
    for i, (nm, kd, bd) in enumerate(perms(r) if mixed else []):
        add(nm, kd, bd)
        if kd == "enum" or i % 3 == 0: add(nm + "O", kd, bd, clone=False, debug=i % 2 == 0)
    if mixed:
        out.append('#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\n/// never\n#[reflect(meta(unit = "none"))]\npub enum NeverZ {}\nmmv_core::never!(NeverZ, vec![("unit", M::str("none"))], vec![" never"]);')
        for e in ["Option<NeverZ>", "BTreeMap<u8, NeverZ>", "Option<Box<NeverZ>>", "(u8, Vec<NeverZ>)", "Result<Option<NeverZ>, String>"]: reg.append(T(e, ord=True))
    add("NoClone", "struct", [Fl("a", S("i32")), Fl("b", S("Vec<String>"))], clone=False)
    add("NoCloneE", "enum", [Va("A", "unit"), Va("B", "tuple", [Fl(None, S("i32"))]), Va("C", "struct", [Fl("x", S("u8"))])], clone=False)
    add("NoDebug", "struct", [Fl("a", S("i32")), Fl("b", S("Vec<Plain>"))], debug=False)
    add("NoDebugT", "tuple", [Fl(None, S("f64")), Fl(None, S("Option<String>"))], debug=False)
    add("NoDebugE", "enum", [Va("A", "unit"), Va("B", "tuple", [Fl(None, S("i32")), Fl(None, S("char"))]), Va("C", "struct", [Fl("x", S("u8"))])], debug=False)
    add("Bare", "struct", [Fl("a", T("NoClone", clone=False)), Fl("b", T("NoDebugE", debug=False))], clone=False, debug=False)
    add("BareT", "tuple", [Fl(None, T("NoCloneE", clone=False)), Fl(None, T("NoDebugT", debug=False)), Fl(None, T("Vec<NoDebug>", debug=False))], clone=False, debug=False)
    add("Nest", "struct", [Fl("plain", S("Plain")), Fl("pair", S("Pair")), Fl("en", S("En")), Fl("list", S("Vec<En>")), Fl("map", S("BTreeMap<String, Pair>")), Fl("arr", S("[Pair; 2]")), Fl("tup", S("(u8, Plain)")), Fl("opt", S("Option<Box<Plain>>"))])
    add("Dyn", "struct", [Fl("v", T("Value", any=True)), Fl("l", T("Vec<Value>", any=True)), Fl("m", T("BTreeMap<Value, Value>", any=True)), Fl("n", S("i32"))], t=T("", any=True))
    add("HasOpq", "struct", [Fl("a", S("i32")), Fl("o", T("Opq", opq=True)), Fl("l", T("Vec<OpqD>", opq=True))], t=T("", opq=True))
    add("OpqDef", "tuple", [Fl(None, T("OpqD", opq=True)), Fl(None, S("u8"))], t=T("", opq=True), ordd=True)
    add("Vias", "struct", [Fl("a", S("NonZeroU8")), Fl("d", S("Duration")), Fl("l", S("Vec<NonZeroI32>")), Fl("m", S("BTreeMap<NonZeroU16, NonZeroI64>")), Fl("o", S("Option<NonZeroUsize>"))])
    add("Math", "struct", [Fl("v", S("glam::Vec3")), Fl("m", S("glam::Mat3"))])
    out[-1] = "with_glam! {\n" + out[-1] + "\n}"; reg.pop()
    add("MathC", "struct", [Fl("c", S("macaw::ColorRgba8"))])
    out[-1] = "with_macaw! {\n" + out[-1] + "\n}"; reg.pop()
    # self-containing
    add("Tree", "struct", [Fl("v", S("i32")), Fl("kids", S("Vec<Tree>")), Fl("named", S("BTreeMap<String, Tree>")), Fl("next", S("Option<Box<Tree>>"))])
    add("RecT", "tuple", [Fl(None, S("u8")), Fl(None, S("Vec<RecT>")), Fl(None, S("Option<Box<RecT>>"))])
    add("RecE", "enum", [Va("Leaf", "unit"), Va("Neg", "tuple", [Fl(None, S("Box<RecE>"))]), Va("Add", "struct", [Fl("l", S("Box<RecE>")), Fl("r", S("Box<RecE>"))]), Va("Many", "tuple", [Fl(None, S("Vec<RecE>"))]), Va("Num", "tuple", [Fl(None, S("i64"))])])
    add("MutA", "struct", [Fl("b", S("Vec<MutB>")), Fl("x", S("u8"))])
    add("MutB", "enum", [Va("None_", "unit"), Va("A", "tuple", [Fl(None, S("Box<MutA>"))]), Va("T", "struct", [Fl("t", S("(u8, Vec<MutB>,)"))])])
    # long chains, plain and closed
    for i in range(14):
        w = ["{}", "Vec<{}>", "(u8, {},)", "Option<{}>", "BTreeMap<u8, {}>", "Box<{}>", "[{}; 1]"][i % 7]
        nxt = w.format(f"Lv{i+1}") if i < 13 else "BTreeMap<String, Option<(u8, Vec<i64>,)>>"
        if i % 3 == 0: add(f"Lv{i}", "struct", [Fl("next", S(nxt)), Fl("n", S("u8"))])
        elif i % 3 == 1: add(f"Lv{i}", "tuple", [Fl(None, S("bool")), Fl(None, S(nxt))])
        else: add(f"Lv{i}", "enum", [Va("End", "unit"), Va("On", "tuple", [Fl(None, S(nxt))]), Va("Named", "struct", [Fl("next", S(nxt)), Fl("c", S("char"))])])
    for i in range(12):
        w = ["Vec<{}>", "Option<Box<{}>>", "BTreeMap<u8, {}>", "Vec<(u8, {},)>", "Vec<Option<{}>>"][i % 5]
        nxt = w.format(f"Cy{(i+1) % 12}")
        if i % 3 == 0: add(f"Cy{i}", "struct", [Fl("next", S(nxt)), Fl("n", S("u8"))])
        elif i % 3 == 1: add(f"Cy{i}", "tuple", [Fl(None, S("bool")), Fl(None, S(nxt))])
        else: add(f"Cy{i}", "enum", [Va("End", "unit"), Va("On", "tuple", [Fl(None, S(nxt))])], rec=[f"Cy{(i+1) % 12}"])
    if not plain:
        add("Shadow", "struct", [Fl(n, S(t)) for n, t in zip(["name","value","index","f","graph","fields","struct_","new_value","other","reflect","field","i","key","data"], ["i32","String","u8","bool","Vec<u8>","i64","Option<u8>","char","u16","f32","usize","u32","i8","i16"])])
        add("ShadowE", "enum", [Va("A", "struct", [Fl(n, S(t)) for n, t in zip(["name","value","index","f","graph","fields","enum_","variant_matches","reflect","iter"], ["i32","String","u8","bool","Vec<u8>","i64","Option<u8>","char","f32","u16"])]),
                                Va("B", "struct", [Fl(n, S(t)) for n, t in zip(["field","i","n","key","data","this","tuple","variant","kind","new_value"], ["i32","String","u8","bool","Vec<u8>","i64","Option<u8>","char","f32","u16"])]), Va("Some", "tuple", [Fl(None, S("u8"))]), Va("None", "unit")])
        add("Raw", "struct", [Fl("r#type", S("i32")), Fl("r#match", S("String"))])
        add("RenamedCrate", "struct", [Fl("a", S("i32"))], crate_name="mirror_mirror")
        out.append("pub mod renamed { pub use mirror_mirror as mm; }")
        add("RenamedCrate2", "enum", [Va("A", "tuple", [Fl(None, S("i32"))]), Va("B", "unit")], crate_name="renamed::mm")
        add("ManualFrom", "struct", [Fl("v", S("i32"))], from_reflect=False,
            manual="""impl FromReflect for ManualFrom { fn from_reflect(x: &dyn Reflect) -> Option<Self> {
                if let Some(x) = x.downcast_ref::<ManualFrom>() { return Some(x.clone()); }
                if let Some(s) = x.as_struct() { return Some(ManualFrom { v: *s.field("v")?.downcast_ref::<i32>()? }); }
                Some(ManualFrom { v: x.downcast_ref::<i32>()?.wrapping_mul(2) }) } }""",
            custom="""|m| match m { M::S(Sc::I32(x)) => Conv::Ok(M::Struct(vec![("v".into(), M::S(Sc::I32(x.wrapping_mul(2))))])),
                M::Struct(v) => match v.iter().find(|x| x.0 == "v") { Some((_, M::S(Sc::I32(x)))) => Conv::Ok(M::Struct(vec![("v".into(), M::S(Sc::I32(*x)))])), _ => Conv::Fail }, _ => Conv::Fail }""")
        Wd = [Fl(f"w{i}", S(SCALARS[i % 16])) for i in range(20)]
        add("Wide", "struct", Wd)
        add("WideT", "tuple", [Fl(None, S(SCALARS[(i * 5) % 16])) for i in range(13)])
        few = ["u8", "bool", "i32", "u16", "char"]
        add("HugeS", "struct", [Fl(f"h{(i * 37) % 70}", S(few[i % 5]), docs=[f"/// h {i}"] if i in (3, 33, 66) else []) for i in range(70)])
        add("HugeT", "tuple", [Fl(None, S(few[(i * 3) % 5])) for i in range(36)])
        add("HugeE", "enum", [Va(f"V{(i * 29) % 72}", "tuple" if i % 9 == 4 else "struct" if i % 9 == 8 else "unit",
                                 [Fl(None if i % 9 == 4 else f"f{(j * 11) % 35}", S(few[(i + j) % 5])) for j in range(35 if i in (4, 71) else i % 4)] if i % 9 in (4, 8) else [])
                              for i in range(72)])
        B = "T: Zoo + Clone + std::fmt::Debug"
        def addg(name, kind, body, gen, insts, **k):
            out.append(emit(r, name, kind, body, generics=gen, **k))
            for i in insts: reg.append(i)
        addg("Gen", "struct", [Fl("a", T("T")), Fl("b", T("Vec<T>")), Fl("c", S("u8"))], ("<T>", "<T>", f"where {B}"), [T("Gen<i32>"), T("Gen<En>"), T("Gen<Gen<String>>")])
        addg("GenB", "tuple", [Fl(None, T("T")), Fl(None, T("Option<U>"))], (f"<{B}, U>", "<T, U>", "where U: Zoo + Clone + std::fmt::Debug"), [T("GenB<u8, String>"), T("GenB<Vec<u8>, Pair>")])
        addg("GenE", "enum", [Va("L", "tuple", [Fl(None, T("T"))]), Va("R", "struct", [Fl("r", T("U")), Fl("n", S("u8"))]), Va("N", "unit")], ("<T, U>", "<T, U>", f"where {B}, U: Zoo + Clone + std::fmt::Debug"), [T("GenE<i32, bool>"), T("GenE<GenE<u8, u8>, Vec<f32>>")])
        addg("GenC", "struct", [Fl("arr", T("[T; N]"))], (f"<T, const N: usize>", "<T, N>", f"where {B}"), [T("GenC<u8, 3>"), T("GenC<Pair, 0>"), T("GenC<u8, 2>")])
        addg("GenD", "struct", [Fl("x", T("T"))], ("<T = i32>", "<T>", f"where {B}"), [T("GenD"), T("GenD<String>")])
        addg("GenNC", "struct", [Fl("x", T("T")), Fl("y", T("Option<T>"))], ("<T>", "<T>", "where T: Zoo"), [T("GenNC<NoClone>", clone=False, debug=False), T("GenNC<u8>", clone=False, debug=False)], clone=False, debug=False)
        addg("GenRec", "struct", [Fl("v", T("T")), Fl("n", T("Vec<GenRec<T>>"))], ("<T>", "<T>", f"where {B}"), [T("GenRec<u8>"), T("GenRec<Tree>")])
        add("Recs", "struct", [Fl("a", S("GenRec<Recs2>")), Fl("t", S("Tree"))])
        add("Recs2", "enum", [Va("E", "unit"), Va("R", "tuple", [Fl(None, S("Vec<Recs>")), Fl(None, S("Tree"))])])
        add("TupleVarEmpty", "enum", [Va("A", "tuple", []), Va("B", "struct", []), Va("C", "unit"), Va("D", "tuple", [Fl(None, SKT, skip=True)]), Va("E", "struct", [Fl("s", SKT, skip=True)])])
        add("AllSkipped", "struct", [Fl("s", SKT, skip=True)])
        add("AllSkippedT", "tuple", [Fl(None, SKT, skip=True), Fl(None, SKT, skip=True)])
    return out, reg

def random_types(r, n, pool, prefix, plain, exotic_names=True):
    out = []; reg = []
    def fields(named, self_name, selfrec, ordd, allow_skip, want_clone, want_debug, k=None):
        n = r.choice([0,1,1,2,2,3,3,4,5,6]) if k is None else k
        names = r.sample(SHADOW, n) if r.random() < .6 and exotic_names else [f"{c}{i}" for i, c in enumerate(r.choices("abcxyz", k=n))]
        fs = []
        for i in range(n):
            nm = names[i] if named else None
            if allow_skip and r.random() < .15:
                fs.append(Fl(nm, SKT, skip=True, docs=[r.choice(DOCS)] if r.random() < .2 else [])); continue
            if selfrec and r.random() < .3:
                t = T(r.choice([f"Vec<{self_name}>", f"Option<Box<{self_name}>>", f"BTreeMap<u8, {self_name}>", f"Vec<Option<{self_name}>>", f"BTreeMap<String, Vec<{self_name}>>"]))
            else:
                for _ in range(40):
                    t = comb(r, pool + reg)
                    if ordd and not t.ord: continue
                    if ordd and t.skip: continue
                    if want_clone and not t.clone: continue
                    if want_debug and not t.debug: continue
                    break
                else: t = r.choice([b for b in BASE if b.ord])
            w = None
            if t.e == "i32" and r.random() < .3: w = "lenient_i32"
            if t.e == "String" and r.random() < .3: w = "lenient_string"
            mk = r.sample(["m", "unit", "name", "min", "r_", "key", "value"], r.choice([1, 2, 3])) if r.random() < .25 else []
            fs.append(Fl(nm, t, meta=[(k_,) + r.choice(METAS) for k_ in mk], docs=[r.choice(DOCS) for _ in range(r.choice([1, 2, 3]))] if r.random() < .25 else [], with_=w))
        return fs
    for i in range(n):
        name = f"{prefix}{i}"
        ordd = r.random() < .25
        selfrec = not ordd and r.random() < .25
        clone = ordd or r.random() < .8; debug = ordd or r.random() < .8
        skip_ok = not ordd and r.random() < .5
        mk = r.sample(["m", "unit", "name", "min", "key"], r.choice([1, 2])) if r.random() < .3 else []
        kw = dict(clone=clone, debug=debug, ordd=ordd, meta=[(k_,) + r.choice(METAS) for k_ in mk], docs=[r.choice(DOCS) for _ in range(r.choice([1, 2, 3]))] if r.random() < .3 else [])
        kind = r.choice(["struct", "struct", "tuple", "enum", "enum", "enum"])
        if kind == "enum":
            k = r.choice([1,2,3,3,4,5,7])
            body = []
            for j, vn in enumerate(r.sample(VNAMES, k)):
                vk = r.choice(["unit", "tuple", "struct"])
                fs = [] if vk == "unit" else fields(vk == "struct", name, selfrec and j > 0, ordd, skip_ok, clone, debug)
                vm = [(k_,) + r.choice(METAS) for k_ in r.sample(["m", "label", "x"], r.choice([1, 2]))] if r.random() < .2 else []
                body.append(Va(vn, vk, fs, skip=False, meta=vm, docs=[r.choice(DOCS)] if r.random() < .2 else []))
            if k > 1 and r.random() < .25: r.choice(body).skip = True
            if selfrec:
                body[0].kind, body[0].fields, body[0].skip = "unit", [], False
            allf = [f for v in body for f in v.fields]
        else:
            body = fields(kind == "struct", name, selfrec, ordd, skip_ok, clone, debug)
            allf = body
        out.append(emit(r, name, kind, body, **kw))
        lf = [f for f in allf if not f.skip]
        reg.append(T(name, ordd, clone, debug, any(f.t.any for f in lf), any(f.skip for f in allf) or any(f.t.skip for f in lf), any(f.t.opq for f in lf)))
    return out, reg

def groups(r, n, pool):
    """types that contain each other"""
    out = []; reg = []
    for g in range(n):
        k = r.choice([2, 2, 3, 4])
        names = [f"Gr{g}x{i}" for i in range(k)]
        for i, name in enumerate(names):
            def link():
                t = r.choice(names)
                return T(r.choice(["Vec<{}>", "Option<Box<{}>>", "BTreeMap<u8, {}>", "Vec<(u8, {},)>", "BTreeMap<String, Vec<{}>>", "Box<Option<Box<{}>>>", "(u8, Vec<{}>,)", "Vec<Box<{}>>", "Option<Vec<{}>>", "[Vec<{}>; 1]"]).format(t))
            def other():
                for _ in range(30):
                    t = comb(r, pool)
                    if t.clone and t.debug: return t
                return BASE[1]
            ts = [T(f"Vec<{names[(i + 1) % k]}>") if j == 0 else link() if r.random() < .5 else other() for j in range(r.choice([1, 2, 3]))]
            r.shuffle(ts)
            kind = r.choice(["struct", "tuple", "enum"])
            fl = [Fl(f"f{j}" if kind == "struct" else None, t) for j, t in enumerate(ts)]
            if kind == "enum":
                body = [Va("Z", "unit"), Va("T", "tuple", fl), Va("S", "struct", [Fl("s", link()), Fl("o", other())]), Va("B", "tuple", [Fl(None, T(f"Box<{r.choice(names)}>"))])]
            else: body = fl
            out.append(emit(r, name, kind, body, rec=names))
            reg.append(T(name))
    return out, reg

COMPOSITES = ["usize","u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","bool","char","f32","f64","String",
 "NonZeroUsize","NonZeroU8","NonZeroU16","NonZeroU32","NonZeroU64","NonZeroU128","NonZeroI8","NonZeroI16","NonZeroI32","NonZeroI64","NonZeroI128","Duration",
 "Value","Opq","OpqD","Vec<i32>","Vec<String>","Vec<u8>","Vec<Vec<f32>>","Vec<Value>","Vec<(u8, String)>","Vec<Option<i32>>","Vec<[u8; 2]>","Vec<BTreeMap<u8, i32>>","Vec<Opq>","Vec<Duration>","Vec<Box<i32>>","Vec<bool>","Vec<char>","Vec<()>",
 "[i32; 3]","[String; 1]","[u8; 0]","[Vec<u8>; 2]","[[i16; 2]; 2]","[Option<u8>; 4]","[f64; 5]","[Opq; 0]","[OpqD; 2]",
 "BTreeMap<String, i32>","BTreeMap<i32, String>","BTreeMap<u8, Vec<u8>>","BTreeMap<bool, Option<f32>>","BTreeMap<(u8, char), u8>","BTreeMap<Value, Value>","BTreeMap<String, BTreeMap<i8, i8>>","BTreeMap<Vec<u8>, u8>","BTreeMap<[u8; 2], char>","BTreeMap<NonZeroU8, Duration>","BTreeMap<Option<u8>, u64>","BTreeMap<usize, i32>",
 "BTreeMap<u8, ()>","BTreeMap<(), u8>","BTreeMap<(), ()>","BTreeMap<String, [u8; 0]>","BTreeMap<char, RangeFull>","Vec<RangeFull>","Vec<[u8; 0]>","[(); 3]","Option<()>","Box<()>","Result<(), ()>","((),)","Option<Option<()>>",
 "Option<i32>","Option<String>","Option<Option<bool>>","Option<Vec<u8>>","Option<Box<String>>","Result<i32, String>","Result<Vec<u8>, Option<bool>>","Option<Value>","Option<Opq>",
 "Box<i32>","Box<String>","Box<usize>","Box<u8>","Box<u16>","Box<u32>","Box<u64>","Box<u128>","Box<i8>","Box<i16>","Box<i64>","Box<i128>","Box<bool>","Box<char>","Box<f32>","Box<f64>",
 "Option<Infallible>","Result<u8, Infallible>","Result<Infallible, Vec<u8>>","Vec<Infallible>","BTreeMap<Infallible, u8>","Box<Box<u8>>","Box<Vec<i32>>","Box<Option<u8>>","Box<Value>","Box<Duration>","Box<[u8; 2]>","Box<(u8, u8)>",
 "Range<i32>","RangeFrom<u8>","RangeTo<f32>","RangeToInclusive<String>","RangeFull","Range<Vec<u8>>",
 "()","(i32,)","(u8, String)","(f32, Vec<i32>, Option<u8>)","(u8, (i8, (bool, char)))","(u8,u16,u32,u64,u128,usize,i8,i16,i32,i64,i128,f32,f64,bool,char,String)",
 "(u8,u8,u8,u8,u8)","(i32,i32,i32,i32,i32,i32,i32,i32)","(u8,i8,u8,i8,u8,i8,u8,i8,u8,i8,u8)"]
GLAM = ["glam::Vec2","glam::Vec3","glam::Mat3","Vec<glam::Vec2>","Math"]
MACAW = ["macaw::ColorRgba8","MathC","Option<macaw::ColorRgba8>"]
USER_COMPOSITES = ["Vec<Plain>","Vec<En>","Vec<SkipS>","BTreeMap<En, Plain>","BTreeMap<KeyS, Vec<KeyS>>","Option<Nest>","Box<Plain>","Box<En>","Box<Pair>","[En; 2]","(Plain, En, Pair)","Result<Plain, En>","Vec<NoClone>","Vec<NoDebug>","Option<NoDebugE>","Box<NoDebug>","Box<Tree>","Vec<RecE>","BTreeMap<Units, u8>","BTreeMap<KeyTw, KeyTw>","BTreeMap<[KeyTw; 2], char>","Range<Pair>","Vec<Unit>","BTreeMap<Unit, Unit>","BTreeMap<u8, Unit>","BTreeMap<i16, EmptyT>","Option<Unit>","[Unit; 4]","Vec<Empty>","(Unit, Empty, EmptyT)","Vec<DocE>","Vec<WithS>","Option<WithE>","Box<HasOpq>","[Tree; 1]","Box<SkipS>","Vec<Box<En>>"]

def twins(r):
    """different types whose full names are the same (from sibling and nested blocks of one function)"""
    a = emit(r, "Twin", "struct", [Fl("a", S("i32")), Fl("more", S("Vec<Twin>"))], rec=["Twin"])
    b = emit(r, "Twin", "enum", [Va("A", "unit"), Va("B", "struct", [Fl("a", S("String")), Fl("first", S("Option<Box<First>>"))]), Va("C", "tuple", [Fl(None, S("Vec<Twin>")), Fl(None, S("BTreeMap<u8, First>"))])], rec=["Twin"])
    c = emit(r, "Twin", "tuple", [Fl(None, S("u8")), Fl(None, S("Box<Plain>")), Fl(None, S("[u8; 2]"))])
    b2 = emit(r, "Both", "struct", [Fl("one", S("First")), Fl("two", S("Twin")), Fl("ones", S("Vec<First>")), Fl("twos", S("Vec<Twin>"))])
    reg = lambda l: "".join(f"v.push(({rstr(e + n)}, ty_of::<{e}>));\n" for e, n in l)
    return ("pub fn twins(v: &mut Vec<(&'static str, fn() -> &'static Ty)>) {\n{\n" + a + "\ntype First = Twin;\n" + reg([("Twin", " 1"), ("Vec<Twin>", " 1"), ("Option<Twin>", " 1")]) +
            "{\n" + b + "\n" + b2 + "\n" + reg([("Twin", " 2"), ("Both", ""), ("(First, Twin)", ""), ("Option<Twin>", " 2"), ("Result<Twin, First>", ""), ("BTreeMap<u8, Vec<Twin>>", " 2")]) + "}\n}\n{\n" + c + "\n" +
            reg([("Twin", " 3"), ("Vec<Twin>", " 3"), ("Option<Twin>", " 3"), ("BTreeMap<u8, Vec<Twin>>", " 3")]) + "}\n}\n")

def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    mode = sys.argv[4] if len(sys.argv) > 4 else "exotic"
    plain = mode == "plain"
    r = random.Random(seed * 7919 + 13)
    text, reg = curated(r, plain, n > 0)
    pool = [t for t in reg if t.e not in ("Wide", "WideT", "HugeS", "HugeT", "HugeE")] + BASE + VIA
    t2, reg2 = random_types(r, n, pool, "Rz", plain, not plain)
    t3, reg3 = groups(r, n // 8, pool)
    t2 += t3; reg2 += reg3
    extra = [comb(r, reg + reg2) for _ in range(max(0, n // 2))]
    names = []
    seen = set()
    for e in COMPOSITES + [t.e for t in reg] + USER_COMPOSITES + [t.e for t in reg2] + [t.e for t in extra]:
        k = e.replace(" ", "").replace(",)", ")")
        if k not in seen: seen.add(k); names.append(e)
    body = "\n\n".join(text + t2 + [twins(r)])
    regtext = "pub fn registry() -> Vec<(&'static str, fn() -> &'static Ty)> {\n    #[allow(unused_mut)]\n    let mut v: Vec<(&'static str, fn() -> &'static Ty)> = vec![\n" + "".join(f"        ({rstr(e)}, ty_of::<{e}>),\n" for e in names) + "    ];\n" + "".join(f"    with_{w}! {{ v.push(({rstr(e)}, ty_of::<{e}>)); }}\n" for w, l in (("glam", GLAM), ("macaw", MACAW)) for e in l) + "    twins(&mut v);\n    v\n}\n"
    new = "// generated by tools/zoogen.py\n" + body + "\n\n" + regtext
    try:
        if open(out).read() == new: return
    except OSError: pass
    open(out, "w").write(new)

if __name__ == "__main__": main()
