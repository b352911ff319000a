"""Rate-limited logging: the first warning at once, then at most one per period, per place."""
import glob
import json

from rules import *

W = "bd_log::rate_limit_log::WarnTracker"


def limiter(c):
    p = c.program("bd_log")
    last = field(p, W, r"Instant")
    c.rule("first", "the first warning is let through")
    c.rule("period", "a later warning is let through exactly when its period has passed since the last one let through")
    c.rule("recorded", "a warning let through is remembered as the last one, a suppressed one is not")
    c.rule("atomic", "deciding and remembering are one critical section, so two threads never both pass")
    for q in c.paths_of(p, f"{W}::should_warn"):
        if not c.ob("atomic", q.kind == "ret" and len(q.ev(r"^lock:")) == 1, q, "not decided in one critical section"):
            continue
        lock = q.ev(r"^lock:")[0].res
        cur = lock
        had = q.decide(mk("is", cur, "Some"))
        nows = [e.res for e in q.ev(r"^Instant::now\(")]
        tests = [(k, v) for k, v in q.state.facts.items() if k.op in ("lt", "le") and has_sub(k, lock)]
        passed = None
        for k, v in tests:
            a, b = k.a[0], k.a[1]
            ea, eb = elapsed(a, lock, nows), elapsed(b, lock, nows)
            if eb and is_period(a) and k.op == "lt":
                passed = v
            elif ea and is_period(b) and k.op == "le":
                passed = not v
        new = [v for k, v in q.x.heap().items() if k is lock]
        wrote = new[0] if new else None
        rec = wrote is not None and known_variant(wrote) == "Some" and any(fld(wrote, "0") is n or show(fld(wrote, "0")) == show(n) for n in nows)
        kept = wrote is None or wrote is cur
        if had is False:
            c.ob("first", q.ret == "true", q, "the first warning is suppressed")
        elif had is None or passed is None:
            c.ob("period", False, q, "decided without comparing the time since the last warning with the period")
            continue
        else:
            c.ob("period", q.ret == ("true" if passed else "false"), q, "the answer does not follow the elapsed time")
        c.ob("recorded", rec if q.ret == "true" else kept, q, "what is remembered does not follow the answer")
        c.ob("atomic", q.idx(r"^unlock:")[-1] > q.idx(r"^lock:")[0] if q.has(r"^unlock:") else False, q, "the lock is not released")


def has_sub(t, x):
    return any(s is x for s in subterms(t))


def elapsed(t, lock, nows):
    """now - last, in one of its spellings."""
    t = strip_scalar(t)
    if t.op == "call" and re.search(r"(^|::)(sub|duration_since|saturating_duration_since)$", t.a[0]) and len(t.a[1]) == 2:
        x, y = t.a[1]
        return any(show(x) == show(n) for n in nows) and show(y) == show(fld(downcast(lock, "Some"), "0"))
    if t.op == "call" and t.a[0].endswith("elapsed"):
        return show(t.a[1][0]) == show(fld(downcast(lock, "Some"), "0"))
    return False


def strip_scalar(t):
    return t


def is_period(t):
    return show(t) == "$2"


def sites(c):
    c.rule("own-limiter", "every rate-limited log statement has a limiter of its own")
    users = {}
    for f in sorted(glob.glob(f"{wsgen.OUT}/facts/*.json")):
        if ".std." in f:
            continue
        for fn in json.load(open(f))["fns"]:
            calls, statics = 0, []
            for b in fn.get("blocks", []):
                t = json.dumps(b)
                calls += len(re.findall(r'"r": ?"bd_log::rate_limit_log::WarnTracker::should_warn"', t))
                statics += re.findall(r'OnceLock<bd_log::rate_limit_log::WarnTracker>", ?"static": ?"([^"]*)"', t)
            if not calls or fn["id"].startswith("bd_log::"):
                continue
            if statics:
                c.ob("own-limiter", len(statics) == calls and len(set(statics)) == len(statics), fn["id"],
                     f"{calls} rate-limited statements share {len(set(statics))} limiters")
            for s in set(statics):
                users.setdefault(s, set()).add(fn["id"])
    for s, u in users.items():
        c.ob("own-limiter", len(u) == 1, s, f"shared by {sorted(u)}")


def levels(fn, start, other, cut):
    """The log levels used only on the way from start."""
    def reach(x):
        seen, todo = set(), [x]
        while todo:
            n = todo.pop()
            if n in seen or n in cut:
                continue
            seen.add(n)
            t = fn["blocks"][n][1]
            todo += targets(t)
        return seen
    only = reach(start) - reach(other)
    return {m for n in only for m in re.findall(r'"adt", "log::Level", "(\w+)"', json.dumps(fn["blocks"][n][0]))}


def targets(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if t[0] == "call":
        return [t[4]] if isinstance(t[4], int) else []
    return [x for x in [t[{"drop": 2, "assert": 4, "yield": 2}.get(t[0], 0)]] if isinstance(x, int)]


def branches(fn, n):
    """Where a rate-limited statement goes on when its limiter answers true, and when false."""
    t = fn["blocks"][n][1]
    if t[0] != "call" or not isinstance(t[4], int):
        return None
    yes, no = {json.dumps(t[3])}, set()
    at = t[4]
    for _ in range(20):
        stmts, t, *_x = fn["blocks"][at]
        for s in stmts:
            if s[0] == "=" and s[2][0] in ("use", "un"):
                src = [json.dumps(v) for x in s[2][1:] if isinstance(x, dict) for k, v in x.items() if k in "mc"]
                flip = s[2][0] == "un" and "ot" in json.dumps(s[2][1])
                if s[2][0] == "un" and not flip:
                    continue
                if any(x in yes for x in src):
                    (no if flip else yes).add(json.dumps(s[1]))
                elif any(x in no for x in src):
                    (yes if flip else no).add(json.dumps(s[1]))
        if t[0] == "goto":
            at = t[1]
        elif t[0] == "switch":
            on = next((json.dumps(v) for k, v in t[1].items()), "")
            if on not in yes | no or not t[2] or t[2][0][0] != "0":
                return None
            a, b = t[3], t[2][0][1]
            return (a, b) if on in yes else (b, a)
        else:
            return None
    return None


def said(c):
    c.rule("level", "a statement logs at its level where its limiter lets it through, and for debugging at most where not")
    for f in sorted(glob.glob(f"{wsgen.OUT}/facts/*.json")):
        if ".std." in f:
            continue
        for fn in json.load(open(f))["fns"]:
            if fn["id"].startswith("bd_log::"):
                continue
            for n, b in enumerate(fn.get("blocks", [])):
                if '"bd_log::rate_limit_log::WarnTracker::should_warn"' not in json.dumps(b[1]):
                    continue
                way = branches(fn, n)
                if way is None:
                    continue
                yes, no = levels(fn, way[0], way[1], {n}), levels(fn, way[1], way[0], {n})
                if yes or no:
                    c.ob("level", bool(yes) and yes <= {"Error", "Warn", "Info"} and no <= {"Debug", "Trace"}, fn["id"],
                         f"logs at {sorted(yes)} where it is let through and at {sorted(no)} where it is not")


GROUPS = [limiter, sites, said]
FLOORS = {"first": 1, "period": 1, "recorded": 1, "atomic": 1, "own-limiter": 2, "level": 2}
