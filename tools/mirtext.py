"""Prints functions of the facts in readable form: mirtext.py CRATE PATTERN..."""
import json, sys, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def pl(p):
    s = f"_{p[0]}"
    for e in p[1]:
        if e == "*": s = f"(*{s})"
        elif e[0] == "f": s += "." + e[2]
        elif e[0] == "v": s += f" as {e[2]}"
        else: s += str(e)
    return s
def op(o):
    if "c" in o: return pl(o["c"])
    if "m" in o: return "move " + pl(o["m"])
    k = o["k"]
    if "fn" in k:
        f = k["fn"]
        return f"fn<{f['p']}|r={f.get('r')}|virt={f.get('virt')}|shim={f.get('shim')}|self={f.get('self')}|ga={f['ga']}>"
    return "const " + json.dumps({a: b for a, b in k.items()})
def rv(r):
    if r[0] == "use": return op(r[1])
    if r[0] == "ref": return f"&{r[1]} {pl(r[2])}"
    if r[0] == "bin": return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if r[0] == "un": return f"{r[1]}({op(r[2])})"
    if r[0] == "cast": return f"{op(r[2])} as {r[3]} [{r[1]}]"
    if r[0] == "discr": return f"discr({pl(r[1])}) {r[2]} {r[3]}"
    if r[0] == "agg": return f"agg {r[1]} [{', '.join(op(o) for o in r[2])}]"
    return str(r)
def show(f):
    print("FN", f["id"], f["kind"], f.get("span"), "argc", f["argc"], "up", f.get("upvars"))
    for i, l in enumerate(f["locals"]):
        print("   let", f"_{i}: {l[0]}", l[1] or "")
    for i, (st, t, cl) in enumerate(f["blocks"]):
        if cl: continue
        print(f" bb{i}:")
        for s in st:
            if s[0] == "=": print("   ", pl(s[1]), "=", rv(s[2]), "#", s[3])
            else: print("   ", s)
        if t[0] == "call":
            print("   ", pl(t[3]), "= CALL", op(t[1]), [op(a) for a in t[2]], "->", t[4], "mac", t[6], "line", t[5])
        elif t[0] == "switch": print("    switch", op(t[1]), t[2], t[3], t[4])
        elif t[0] == "drop": print("    drop", pl(t[1]), "->", t[2], t[3])
        elif t[0] == "assert": print("    assert", op(t[1]), t[2:])
        elif t[0] == "yield": print("    yield", op(t[1]), t[2:])
        else: print("   ", t)
if __name__ == "__main__":
    d = json.load(open(f"{V}/build/facts/{sys.argv[1]}.json"))
    for f in d["fns"]:
        if any(re.search(p, f["id"]) for p in sys.argv[2:]):
            show(f)
            for i, p in enumerate(f["promoted"]):
                print("  promoted", i); show(dict(p, id="", kind="promoted"))
