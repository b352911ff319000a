"""mut.py LIST.py [NAME-RE] [-c C01,C02]: edits a scratch copy of /repo and reports which checks fire (development only)."""
import os, re, subprocess, sys, importlib.util, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MUT_DIR", "/tmp/mrepo")
O = R + ".out" if "MUT_DIR" in os.environ else "/tmp/mout"
env = dict(os.environ, ANALYSIS_REPO=R, ANALYSIS_OUT=O)


def sh(*a):
    return subprocess.run(a, env=env, capture_output=True, text=True, cwd=V)


def main():
    args = [a for a in sys.argv[1:]]
    only = None
    if "-c" in args:
        i = args.index("-c")
        only = args[i + 1].split(",")
        del args[i:i + 2]
    spec = importlib.util.spec_from_file_location("m", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    pat = re.compile(args[1]) if len(args) > 1 else None
    os.makedirs(O, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", R + "/"], check=True)
    allc = sorted(f[:-3].upper() for f in os.listdir(f"{V}/props") if re.fullmatch(r"c\d+\.py", f))
    bad = 0
    for name, kind, edits in m.M:
        if pat and not pat.search(name):
            continue
        saved = {}
        okk = True
        for f, old, new in edits:
            p = f"{R}/{f}"
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                print(f"?? {name}: text not found in {f}: {old[:60]!r}")
                okk = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if okk:
            t = time.time()
            a = sh("python3", "tools/analyse.py")
            hits = []
            if "error" in a.stdout + a.stderr and re.search(r"error(\[|:)", a.stdout + a.stderr):
                hits = ["FRONTEND"]
                print((a.stdout + a.stderr)[-1500:])
            from concurrent.futures import ThreadPoolExecutor
            cs = only or allc
            with ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(lambda c: sh("python3", "tools/check.py", c), cs))
            msgs = []
            for c, r in zip(cs, rs):
                if r.returncode:
                    hits.append(c)
                    msgs += [f"      {c}: {x.strip()[:230]}" for x in r.stdout.splitlines() if not x.startswith("VIOLATION")][:3]
            want = kind.split()[1:] if kind.startswith("bug") else []
            good = (not hits) if kind == "same" else any(w in hits for w in want)
            print(("ok " if good else "XX "), name, kind, "->", " ".join(hits) or "quiet", f"{time.time()-t:.0f}s")
            if not good:
                bad += 1
            if not good or "-v" in sys.argv:
                print("\n".join(msgs))
        for p, s in saved.items():
            open(p, "w").write(s)
    print("bad:", bad)


main()
