"""check.py ID [--thorough]: decides one property on /repo's current source.

exit 0: holds; exit 1 with VIOLATION lines otherwise.  Rewrites evidence/ID.json.
"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props"))
sys.setrecursionlimit(20000)

import analyse
import rules
import wsgen

VERIF = wsgen.VERIF
OUT = wsgen.OUT
EVID = f"{VERIF}/evidence" if OUT == f"{VERIF}/build" else f"{OUT}/evidence"
TRUSTED = [
    "rustc nightly front end and MIR construction",
    "driver/ (MIR dump), tools/engine.py (abstract interpreter), tools/models.py (library summaries)",
    "the type-level stand-ins under stubs/ have the signatures of the crates they stand for",
]


def known():
    out = {}
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property="):
                head, _, text = line[len("known: property="):].partition(" :: ")
                pid, _, key = head.partition(" ")
                out[(pid, key.strip())] = text
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv else "quick"
    t0 = time.time()
    c = rules.Check(pid, tier)
    mod = None
    try:
        want, missing, log = analyse.run(force=tier == "thorough")
        if missing:
            os.makedirs(f"{OUT}/replay", exist_ok=True)
            open(f"{OUT}/replay/frontend.log", "w").write(log)
    except Exception as x:
        c.fail("frontend", f"the compiler front end did not run: {x!r}")
        want = {}
    try:
        mod = importlib.import_module(pid.lower())
    except Exception as x:
        c.fail("rules", f"rules of {pid} do not load: {x!r}", rules.traceback.format_exc())
    if mod is not None and not c.findings:
        for g in mod.GROUPS:
            rules.guarded(c, g)
        for r in list(c.rules):
            c.need(r, getattr(mod, "FLOORS", {}).get(r, 1))
    kf = known()
    new = {}
    for k, v in c.findings.items():
        if (pid, k) in kf:
            print(f"KNOWN-FINDING: property={pid} {kf[(pid, k)]}")
        else:
            new[k] = v
    os.makedirs(f"{OUT}/replay", exist_ok=True)
    replay = f"{OUT}/replay/{pid}.txt"
    if os.path.exists(replay):
        os.remove(replay)
    if new:
        with open(replay, "w") as f:
            for k, (msg, detail) in new.items():
                f.write(f"{k}\n  {msg}\n")
                if detail:
                    f.write("  path:\n    " + detail.replace("\n", "\n    ") + "\n")
        for k, (msg, _) in list(new.items())[:20]:
            print(f"  {msg}")
    crates = sorted({p for prog in c._programs for p in prog})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": (
                "Static analysis: every feasible-by-provenance path of the listed functions (calls to workspace "
                "functions, closures and async bodies followed, loops widened to a fixpoint) was enumerated by abstract "
                "interpretation of the MIR of the current source, and each rule was decided on each path. "
                "Nothing was executed and no solver was used."
            ),
            "crates": crates,
            "functions": {k: v for k, v in sorted(c.functions.items())},
            "functions_entered": len(c.inlined),
            "paths": c.paths,
            "call_sites": c.calls,
            "abstract_steps": c.steps,
            "obligations": c.obligations,
            "discharged": c.discharged,
            "rules": {k: {"text": v, "obligations": c.counts.get(k, 0)} for k, v in c.rules.items()},
            "trusted_base": TRUSTED,
            "samples": samples(c),
        },
        "assumptions": c.assumptions or list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(f"{EVID}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    print(f"{pid}: {c.discharged}/{c.obligations} obligations on {c.paths} paths of {len(c.functions)} functions "
          f"({len(c.inlined)} entered), {ev['wall_s']} s")
    sys.exit(0)


def samples(c):
    return [f"{k}: {n} paths" for k, n in list(c.functions.items())[:3]]


if __name__ == "__main__":
    main()
