"""C14: the process monitors, and the same kind of race under Miri, which changes the schedule with every seed and
reports data races, deadlocks and undefined behaviour."""
import os, re


def miri(c, first, n, timeout):
    e = dict(c.ENV)
    e["MIRIFLAGS"] = f"-Zmiri-many-seeds={first}..{first + n} -Zmiri-preemption-rate=0.05"
    try:
        r = c.sh(["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", os.path.join(c.V, "conc", "Cargo.toml"),
                  "--target-dir", os.path.join(c.TARGET, "miri")], env=e, timeout=timeout)
    except Exception as x:  # the monitors above have decided already
        return None, f"miri did not finish: {type(x).__name__}"
    return r.returncode, r.stdout


def setup(c):
    miri(c, 0, 1, 600)


def run(c, tier, seed):
    violations, total = c.monitor("C14", tier, seed)
    n = 16 if tier == "quick" else 512
    first = seed * 1000
    rc, out = miri(c, first, n, 300 if tier == "quick" else 2400)
    orders = re.findall(r"^ORDER (\d+)", out, re.M)
    extra = {"miri": {"schedules": len(orders), "distinct_orders": len(set(orders)), "status": rc,
                      "reports": "data races, deadlocks, undefined behaviour, incomplete or unshared descriptions"}}
    if rc not in (0, None):
        bad = re.search(r"(Undefined Behavior.*|.*[Dd]eadlock.*|PANIC.*)", out)
        if bad:
            s = (re.findall(r"(?:FAILING SEED|seed): (\d+)", out) or ["?"])[-1]
            i = max(0, bad.start() - 300)
            violations.append({"seed": seed, "label": "miri", "case": s, "message": out[i:bad.start() + 1500]})
        else:
            extra["miri"]["unusable"] = out[-800:]
    if rc is None:
        extra["miri"]["unusable"] = out
    total["cases"] += len(orders)
    return violations, total, [], extra
