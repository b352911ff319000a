"""Writes properties.jsonl and MANIFEST.json from the entries of props/catalog/*.py text files."""
import glob
import importlib.util
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("path-sensitive abstract interpretation of the compiler's MIR over a value-provenance domain "
        "(typestate/effect rules per path, loops widened to a fixpoint; nothing executed, no solver)")
NOTE = ("Sound for every path of the analysed functions under the stated library summaries: each rule is decided on each "
        "path the abstract interpreter cannot exclude, and anything it cannot follow is reported. Trusts rustc's MIR, the "
        "interpreter and its summaries of std/tokio/parking_lot calls. ")


def main():
    spec = importlib.util.spec_from_file_location("catalog", f"{V}/props/catalog.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    props, checks, na = [], [], []
    for e in m.ENTRIES:
        pid = e["id"]
        props.append({
            "id": pid, "title": e["title"], "statement": e["statement"],
            "quantifier": {"over": e["over"].split(), "text": e["text"]},
            "why_tests_cant": e["why"],
            "anchors": {"files": e["files"].split(),
                        "mechanism": [{"name": n, "where": w} for n, w in e["mech"]],
                        "hook_needed": None},
        })
        assert len(e["title"]) <= 80, e["title"]
        if "na" in e:
            na.append({"property": pid, "reason": e["na"]})
        else:
            assert os.path.exists(f"{V}/props/{pid.lower()}.py"), pid
            checks.append({
                "property": pid, "quick_cmd": f"./check.sh {pid}", "thorough_cmd": f"./check.sh {pid} --thorough",
                "evidence_file": f"evidence/{pid}.json", "technique": TECH, "level": "other",
                "level_note": NOTE + e.get("note", ""),
            })
    ids = [p["id"] for p in props]
    assert len(ids) == len(set(ids))
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump({
            "version": 1, "setup_cmd": "python3 tools/analyse.py",
            "checks": checks, "not_applicable": na,
            "notes": "No hooks: the checks read the compiler's MIR of /repo's unmodified source (private items included). "
                     "known_findings.txt lists repaired and recorded defects.",
        }, f, indent=1, ensure_ascii=False)
        f.write("\n")
    design(m.ENTRIES)
    print(len(props), "properties", len(checks), "checks")




def design(entries):
    """DESIGN.md: props/design.md with the generated parts filled in (rule texts come from the last evidence)."""
    out = []
    for e in entries:
        if "na" in e:
            continue
        out.append(f"### {e['id']} {e['title']}")
        where = "; ".join(f"{w} ({n})" for n, w in e["mech"])
        out.append(f"Anchors: {where}. Why tests cannot: {e['why']}")
        ev = f"{V}/evidence/{e['id']}.json"
        if os.path.exists(ev):
            cov = json.load(open(ev))["coverage"]
            out.append(f"Analysed: {', '.join('`' + f + '`' for f in cov['functions'])}.")
            out += [f"- {k}: {r['text']}" for k, r in cov["rules"].items()]
        if e.get("note"):
            out.append(f"Note: {e['note']}")
        out.append("")
    na = [f"* {e['id']} {e['title']}: {e['na']}" for e in entries if "na" in e]
    seeds = []
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        m = json.load(open(d))
        seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    s = open(f"{V}/props/design.md").read()
    kf = [x.strip() for x in open(os.path.join(V, "known_findings.txt"))]
    fx = [re.match(r"fixed: property=(C\d+) (\w+) (.*)", x) for x in kf if x.startswith("fixed:")]
    kn = [re.match(r"known: property=(C\d+) (\S+) :: (.*)", x) for x in kf if x.startswith("known:")]
    s = s.replace("@FIXED@", "\n".join(f"* {m[1]} ({m[2]}): {m[3]}" for m in fx)).replace("@KNOWN@", "\n".join(f"* {m[1]} at `{m[2]}`: {m[3]}" for m in kn))
    s = s.replace("@PROPS@", "\n".join(out)).replace("@NA@", "\n".join(na) or "None.")
    s = s.replace("@SEEDS@", "\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(seeds))
    open(f"{V}/DESIGN.md", "w").write(s)


main()
