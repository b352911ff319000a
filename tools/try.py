"""try.py [-o OPAQUE_RE]... [-w W] [-n N] crates PATTERN...: prints the paths of matching functions, abbreviated.

The result of the n-th opaque call of a path is printed as @n."""
import sys, time
from engine import *; from program import Program
a = sys.argv[1:]
opq = []; W = 260; N = 40
while a[0].startswith("-"):
    if a[0] == "-o": opq.append(a[1])
    if a[0] == "-w": W = int(a[1])
    if a[0] == "-n": N = int(a[1])
    a = a[2:]
crates, pats = a[0].split(","), a[1:]
p = Program(crates)
cut = lambda s: s if len(s) <= W else s[:W] + "…"
def short(s, names):
    for k, n in names: s = s.replace(k, n)
    return cut(s)
for pat in pats:
    for f in list(p.by_id.values()):
        if f.kind in ("fn","closure","coroutine") and re.search(pat, f.id) and ("{closure" not in f.id or "closure" in pat):
            e = Engine(p, Config(opaque=opq)); t=time.time()
            print("=====", f.id, f.span)
            try:
                outs = e.run_async(f) if f.meta.get("async") else e.run(f)
            except Exception as x:
                import traceback; traceback.print_exc(); continue
            for o in outs[:N]:
                names = []
                st = o.state
                ls = []
                def evs(tr, ind):
                    for ev in tr:
                        if ev.kind == "done": continue
                        if ev.kind == "loop":
                            L=e.loops[ev.extra]; ls.append(f"{ind}LOOP {L.name} {L.src or ''}")
                            for es, s in L.iters:
                                ls.append(f"{ind}  iter: if " + ", ".join(("" if v else "!") + show(k) for k, v in s.facts.items() if st.facts.get(k) is not v) + " heap " + str({show(r[1]):show(v) for r,v in s.store.items() if r[0]=='H'}))
                                evs(es, ind + "    ")
                            continue
                        ls.append(f"{ind}{repr(ev)}")
                        r = getattr(ev, "res", None)
                        if r is not None and len(show(r)) > 6 and not ev.kind.startswith("un"):
                            names.append((show(r), f"@{len(names)+1}"))
                            ls[-1] += f"  =@{len(names)}"
                evs(o.trace, "       ")
                # longer first, results of later calls contain earlier ones
                nm = sorted(names, key=lambda x: -len(x[0]))
                print(short(f"[{o.kind} {o.why or ''}] ret=" + (show(e.view(st, o.ret)) if o.ret is not None else "-"), nm))
                print(short("    if " + ", ".join(sorted(("" if v else "!") + "(" + show(k) + ")" for k, v in st.facts.items())), nm))
                for l in ls:
                    i = l.rfind("  =@")
                    own = l[i+3:] if i >= 0 else ""
                    print(short(l, [x for x in nm if x[1] != own] ))
                for k, v in o.heap().items():
                    print(short(f"    set {show(k)} := {show(e.resolve(st, v))}", nm))
            print("--", len(outs), "exits", e.steps, "steps", round(time.time()-t,2), "s")
