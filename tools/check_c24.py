"""C24: the same program built with several feature selections. In each one the monitors must hold, and every observation
of the common workload must be the same in all of them; a crate without the standard library must compile."""
import itertools, os, shutil

ALL = "std,serde,speedy,glam,macaw"
QUICK = ["", "serde,glam", "std", ALL]
MONITORED = ["", "serde,glam"]


def selections():
    """every selection that is different from the others, speedy needs the standard library"""
    out = []
    for k in range(6):
        for c in itertools.combinations(ALL.split(","), k):
            if "speedy" not in c or "std" in c:
                out.append(",".join(c))
    return out


def build(c, p, sel):
    rc, out, t = c.cargo_build("harness", {"MMV_ZOO": p}, ["--no-default-features", "--features", sel])
    if rc:
        return None, out, t
    os.makedirs(os.path.join(c.TARGET, "sel"), exist_ok=True)
    b = os.path.join(c.TARGET, "sel", "mmv_" + (sel.replace(",", "_") or "none"))
    shutil.copy2(os.path.join(c.TARGET, "debug", "mmv"), b)
    return b, out, t


def nostd(c, features):
    return c.cargo_build("nostd", args=["--features", features] if features else [])


def zoo(c, seed):
    """declarations that compile with all features; (path, binary)"""
    for n, mode in ((8, "exotic"), (8, "plain"), (0, "plain")):
        p = c.zoo(seed, n, mode)
        b, out, _ = build(c, p, ALL)
        if b:
            return p, b
    raise c.NoAnswer("the monitors do not build against /repo:\n" + "\n".join(c.errors_of(out)[:6])[-6000:])


def setup(c):
    p, _ = zoo(c, 1)
    for s in QUICK:
        build(c, p, s)
    nostd(c, "")


def run(c, tier, seed):
    total = {"cases": 0, "distinct": 0, "events": {}, "samples": [], "runs": []}
    violations, sels, lines, bins = [], {}, {}, {}
    p, bins[ALL] = zoo(c, seed)
    name = os.path.basename(p)
    chosen = QUICK if tier == "quick" else sorted(selections())

    def bad(label, message, case=0):
        violations.append({"seed": seed, "label": label, "case": case, "message": message, "zoo": None})

    for sel in chosen:
        if sel not in bins:
            bins[sel], out, _ = build(c, p, sel)
            if not bins[sel]:
                bad("compile", f"does not compile with features [{sel}], but does with [{ALL}]:\n" + "\n".join(c.errors_of(out)[:4])[:5000])
                return violations, total, [], {"selections": sels}
    for f in ("", "mirror-mirror/serde"):
        rc, out, _ = nostd(c, f)
        if rc:
            rc2, out2, _ = nostd(c, "mirror-mirror/std")
            if rc2:
                raise c.NoAnswer("the crate without the standard library does not build against /repo with it either:\n" + "\n".join(c.errors_of(out2)[:4])[:4000])
            bad("compile", f"a crate without the standard library does not compile with features [{f}]:\n" + "\n".join(c.errors_of(out)[:4])[:5000])
            return violations, total, [], {"selections": sels}
    # the same observations everywhere
    texts = 0
    for sel in chosen:
        f = os.path.join(c.GEN, "lines")
        if os.path.exists(f):
            os.remove(f)
        r = c.run_child(bins[sel], "trace", seed, tier, timeout=200 if tier == "quick" else 1800, extra=["--lines", f])
        if r["rc"] != 0 or not r["json"]:
            raise c.NoAnswer(f"no observations with features [{sel}]: status {r['rc']} {r['text'][-1500:]}")
        d = {}
        for l in open(f):
            a, n, h = l.rstrip("\n").split("\t")
            d[a, n] = h
        lines[sel] = d
        texts += r["json"]["events"].get("observations written", 0)
        sels[sel or "none"] = {"cases observed": len(d)}
        total["distinct"] = max(total["distinct"], r["json"]["distinct"])
        total["cases"] += len(d)
        if len(d) < 10000:
            raise c.NoAnswer(f"too little observed with features [{sel}]: {len(d)} cases")
    total["events"]["observations compared"] = texts
    ref = chosen[0]
    for sel in chosen[1:]:
        common = sorted(set(lines[ref]) & set(lines[sel]))
        if len(common) < 10000:
            raise c.NoAnswer(f"[{ref}] and [{sel}] have only {len(common)} cases in common")
        diff = [k for k in common if lines[ref][k] != lines[sel][k]]
        for k in diff[:2]:
            t = []
            for s in (ref, sel):
                r = c.run_child(bins[s], "trace", seed, tier, only=f"{k[0]}:{k[1]}", timeout=200)
                t.append(r["text"].splitlines())
            at = next(((a, b) for a, b in zip(*t) if a != b), (str(t[0])[:500], str(t[1])[:500]))
            bad(f"{k[0]}", f"{len(diff)} of {len(common)} cases differ between features [{ref}] and [{sel}], {k[0]} case {k[1]}:\n [{ref}] {at[0][:1200]}\n [{sel}] {at[1][:1200]}", int(k[1]))
        if violations:
            return violations, total, [], {"selections": sels}
    # whatever the selection, the oracles hold
    for sel in (MONITORED if tier == "quick" else chosen):
        v, t = c.monitor("C24", tier, seed, build=lambda s: (bins[sel], {"zoo": name, "features": sel or "none"}, None), seeds=[seed])
        for x in v:
            x["message"] = f"with features [{sel}]: {x['message']}"
            x["zoo"] = None
        violations += v
        total["cases"] += t["cases"]
        total["distinct"] += t["distinct"]
        for k, n in t["events"].items():
            total["events"][k] = total["events"].get(k, 0) + n
        total["samples"] += t["samples"][:3]
        total["runs"] += t["runs"]
        if violations:
            break
    return violations, total, [], {"selections": sels}
