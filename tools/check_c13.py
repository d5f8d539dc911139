"""C13: the monitors, and the one known finding, which overflows the stack and so runs in a process of its own."""
import os, signal, subprocess
KNOWN = "default value of an enum whose first variant contains the enum itself"


def run(c, tier, seed):
    violations, total = c.monitor("C13", tier, seed)
    bin_ = os.path.join(c.TARGET, "debug", "mmv")
    known = []
    p = subprocess.run([bin_, "known-default-recursion"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       preexec_fn=c.limits, timeout=300)
    listed = any("known: property=C13" in l for l in open(os.path.join(c.V, "known-findings.txt")))
    if p.returncode == -signal.SIGABRT and "overflow" in p.stdout:
        if listed:
            known.append(KNOWN + " (enum Endless { Again(Box<Endless>), Stop }) overflows the stack")
        else:
            violations.append({"seed": seed, "label": "known-default-recursion", "case": 0, "message": p.stdout[-500:]})
    elif p.returncode == 1:
        violations.append({"seed": seed, "label": "known-default-recursion", "case": 0, "message": p.stdout[-2000:]})
    elif p.returncode != 0:
        raise c.NoAnswer(f"known-default-recursion ended with {p.returncode}: {p.stdout[-500:]}")
    return violations, total, known, {"known_finding_reproduced": bool(known)}
