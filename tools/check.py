#!/usr/bin/env python3
"""Runs one check: generates the zoo, builds the monitors against /repo's working tree, runs them and
writes the evidence.

usage: check.py PROPERTY quick|thorough        (VERIF_SEED picks every random choice)
       check.py --setup
       check.py --replay FILE
exit: 0 the property held on everything explored; 1 violation; 2 no answer"""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(V, "target")
GEN = os.path.join(TARGET, "gen")
sys.path.insert(0, os.path.join(V, "tools"))
import rules

ENV = dict(os.environ)
ENV.pop("RUSTFLAGS", None)
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"
ENV["RUST_BACKTRACE"] = "0"


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def zoo(seed, n, mode):
    os.makedirs(GEN, exist_ok=True)
    p = os.path.join(GEN, f"zoo_{mode}_{seed}_{n}.rs")
    r = sh([sys.executable, os.path.join(V, "tools", "zoogen.py"), p + ".new", str(seed), str(n), mode])
    if r.returncode:
        raise NoAnswer("zoogen failed:\n" + r.stdout[-3000:])
    new = open(p + ".new").read()
    if not os.path.exists(p) or open(p).read() != new:
        os.replace(p + ".new", p)
    else:
        os.remove(p + ".new")
    return p


def cargo_build(crate, env=None, args=(), timeout=800):
    e = dict(ENV)
    e.update(env or {})
    t = time.time()
    r = sh(["cargo", "build", "--offline", "--manifest-path", os.path.join(V, crate, "Cargo.toml"),
            "--target-dir", TARGET, *args], env=e, timeout=timeout)
    return r.returncode, r.stdout, time.time() - t


def errors_of(out):
    """the compiler's error messages"""
    blocks, cur = [], None
    for l in out.splitlines():
        if re.match(r"error(\[|:)", l):
            cur = [l]
            blocks.append(cur)
        elif cur is not None:
            if not l.strip():
                cur = None
            else:
                cur.append(l)
    return ["\n".join(b) for b in blocks if not b[0].startswith(("error: could not compile", "error: aborting"))]


def build_harness(seed, n=40, mode="exotic"):
    """Builds the monitors; falls back to the plain zoo when the exotic declarations are not accepted."""
    p = zoo(seed, n, mode)
    rc, out, t = cargo_build("harness", {"MMV_ZOO": p})
    note = {"zoo": os.path.basename(p), "build_s": round(t, 1)}
    if rc and mode == "exotic":
        note["exotic_zoo_rejected"] = errors_of(out)[:3] or [out[-2000:]]
        p = zoo(seed, n, "plain")
        rc, out2, t = cargo_build("harness", {"MMV_ZOO": p})
        note["zoo"] = os.path.basename(p)
        if rc:
            p = zoo(seed, 0, "plain")
            rc, out2, t = cargo_build("harness", {"MMV_ZOO": p})
            note["zoo"] = os.path.basename(p)
    if rc:
        raise NoAnswer("the monitors do not build against /repo:\n" + "\n".join(errors_of(out)[:6])[-6000:] + "\n" + out[-1500:])
    bin_ = os.path.join(TARGET, "debug", "mmv")
    key = hashlib.sha256(open(bin_, "rb").read()).hexdigest()[:12]
    return bin_, note, key


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_child(bin_, prop, seed, tier, only=None, timeout=860, threads=8, cap=None, extra=()):
    out = os.path.join(GEN, f"{prop}.out.json")
    crumb = os.path.join(GEN, f"{prop}.crumb")
    for f in (out, crumb):
        if os.path.exists(f):
            os.remove(f)
    cmd = [bin_, prop, "--seed", str(seed), "--tier", tier, "--out", out, "--crumb", crumb, "--threads", str(threads), *extra]
    if only:
        cmd += ["--only", only]
    if cap:
        cmd += ["--cap", str(cap)]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits, env=ENV)
    try:
        text, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        text, _ = p.communicate()
        return {"rc": "timeout", "text": text, "json": None, "crumbs": crumbs(crumb), "wall": time.time() - t}
    j = None
    if os.path.exists(out):
        try:
            j = json.load(open(out))
        except ValueError:
            j = None
    return {"rc": p.returncode, "text": text, "json": j, "crumbs": crumbs(crumb), "wall": time.time() - t}


def crumbs(path):
    got = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return got
    for i in range(0, len(data), 256):
        s = data[i:i + 256].split(b"\0")[0].decode("utf8", "replace").strip("\n")
        if "\t" in s:
            l, n = s.rsplit("\t", 1)
            got.append((l, n))
    return got


def died(rc):
    return isinstance(rc, int) and rc < 0 or rc in (77, 78, 101)


def why(rc, text):
    if rc == 77:
        return "one case used more than 60 s of cpu time (runs away)"
    if rc == 78:
        return "one case made no progress for a long time (deadlock)"
    tail = " / ".join(l for l in text.splitlines()[-4:] if l.strip())
    return f"the process died with status {rc}: {tail}"


def replay_file(prop, data):
    d = os.path.join(V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{int(time.time() * 1000)}-{os.getpid()}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def monitor(prop, tier, seed, build=None, seeds=None):
    """Runs the monitors of one property and gives (violations, coverage)."""
    build = build or build_harness
    seeds = seeds or ([seed] if tier == "quick" else [seed + 1000 * i for i in range(4)])
    total = {"cases": 0, "distinct": 0, "events": {}, "samples": [], "runs": []}
    violations = []
    for s in seeds:
        bin_, note, key = build(s)
        cap = None if tier == "quick" else 1500
        r = run_child(bin_, prop, s, tier, timeout=420 if tier == "quick" else 3600, cap=cap)
        if died(r["rc"]):
            # which case was it?
            if r["rc"] == -signal.SIGKILL:
                raise NoAnswer("the monitors were killed: " + r["text"][-500:])
            confirmed, t1 = [], time.time()
            for l, n in r["crumbs"]:
                if confirmed and time.time() - t1 > 60:
                    break
                q = run_child(bin_, prop, s, tier, only=f"{l}:{n}", timeout=420)
                if died(q["rc"]) and q["rc"] != -signal.SIGKILL:
                    confirmed.append((l, n, why(q["rc"], q["text"])))
                elif q["rc"] == 1 and q["json"]:
                    v = q["json"]["violations"][0]
                    confirmed.append((l, n, v["message"]))
            if not confirmed:
                # not a matter of one case: does it happen again?
                for _ in range(2):
                    q = run_child(bin_, prop, s, tier, timeout=420)
                    if died(q["rc"]) and q["rc"] != -signal.SIGKILL:
                        l, n = (q["crumbs"] or [("?", 0)])[0]
                        confirmed.append((l, n, why(q["rc"], q["text"])))
                        break
                    if q["rc"] == 1:
                        r = q
                        break
            for l, n, m in confirmed:
                violations.append({"seed": s, "label": l, "case": int(n), "message": m, "zoo": note["zoo"]})
            if not confirmed and r["rc"] != 1:
                raise NoAnswer(f"the monitors died once and did not again: {why(r['rc'], r['text'])}")
        if r["rc"] == 1 and r["json"]:
            for v in r["json"]["violations"]:
                violations.append({"seed": s, "zoo": note["zoo"], **v})
        elif r["rc"] == "timeout":
            raise NoAnswer("the monitors did not finish in time: " + r["text"][-500:])
        elif r["rc"] not in (0, 1) and not violations:
            raise NoAnswer(f"harness error (status {r['rc']}): " + r["text"][-3000:])
        j = r["json"]
        if j:
            total["cases"] += j["cases"]
            total["distinct"] += j["distinct"]
            for k, v in j["events"].items():
                total["events"][k] = total["events"].get(k, 0) + v
            total["samples"] += j["samples"][:6]
            total["runs"].append({**note, "seed": s, "types": j["types"], "wall_s": round(j["wall_s"], 2), "cut_short": j["cut_short"]})
            for k, lo in rules.NEEDS.get(prop, {}).items():
                if r["rc"] == 0 and not j["cut_short"] and j["events"].get(k, 0) < lo:
                    raise NoAnswer(f"the monitors observed too little: {k}={j['events'].get(k, 0)} < {lo}")
        if violations:
            break
    return violations, total


def evidence(prop, tier, seed, total, t0, nviol, extra=None):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cov = {
        "evaluations": total["cases"],
        "distinct_nontrivial": total["distinct"],
        "rule": rules.RULES[prop],
        "samples": total["samples"][:16],
        "observed_events": total["events"],
        "runs": total["runs"],
    }
    cov.update(extra or {})
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": rules.ASSUME + rules.ASSUMES.get(prop, []),
         "wall_s": round(time.time() - t0, 2), "violations": nviol}
    with open(os.path.join(V, "evidence", f"{prop}.json"), "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    known, extra = [], {}
    mod = rules.SPECIAL.get(prop)
    if mod:
        m = __import__(mod)
        violations, total, known, extra = m.run(sys.modules[__name__], tier, seed)
    else:
        violations, total = monitor(prop, tier, seed)
    evidence(prop, tier, seed, total, t0, len(violations), extra)
    for k in known:
        log(f"KNOWN-FINDING: property={prop} {k}")
    if violations:
        for v in violations[:4]:
            log(f"{v.get('label')}:{v.get('case')} (seed {v.get('seed')}): {str(v.get('message'))[:3000]}")
        p = replay_file(prop, {"property": prop, "tier": tier, "seed": seed, "violations": violations})
        log(f"VIOLATION property={prop} replay={p}")
        return 1
    log(f"{prop} {tier} seed {seed}: {total['cases']} cases, {total['distinct']} distinct, "
        f"{sum(total['events'].values())} observations, no violation, {time.time() - t0:.1f} s")
    return 0


def setup():
    build_harness(1)
    for m in sorted(set(rules.SPECIAL.values())):
        mm = __import__(m)
        if hasattr(mm, "setup"):
            mm.setup(sys.modules[__name__])
    log("setup done")
    return 0


def replay(path):
    d = json.load(open(path))
    bad = 0
    for v in d["violations"]:
        if not v.get("zoo"):
            log(v)
            continue
        mode, s, n = re.match(r"zoo_(\w+)_(\d+)_(\d+)\.rs", v["zoo"]).groups()
        if mode == "wild":
            import check_c22
            try:
                bin_, _, _ = check_c22.build(sys.modules[__name__], int(s), int(n))
            except check_c22.Rejected as e:
                log(e)
                bad = True
                continue
        else:
            bin_, _, _ = build_harness(int(s), int(n), mode)
        r = run_child(bin_, d["property"], v["seed"], d["tier"], only=f"{v['label']}:{v['case']}")
        log(f"{v['label']}:{v['case']} status {r['rc']}\n{r['text']}")
        bad |= r["rc"] != 0
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except NoAnswer as e:
        log(f"NO ANSWER: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        log(f"NO ANSWER: {e}")
        return 2


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.exit(main())
