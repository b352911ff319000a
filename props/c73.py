"""Locks: which are held where, what is called meanwhile, and in which order they are taken."""
import glob
import os

from rules import *
from program import FACTS, mentioned, successors

GUARD = re.compile(r"(?:Mutex|RwLockRead|RwLockWrite|MappedMutex|OwnedMutex)Guard<'_, (?:parking_lot::Raw\w+, )?(.+)$")
SHARD = re.compile(r"dashmap::(?:mapref::(?:entry|one|multiple)::)?(?!DashMap)\w+<'_, (.+)$")
SHOWN = re.compile(r"tokio::sync::watch::Ref<'_, (.+)$")
WAITS = re.compile(r"(^|::)(lock|read|write|upgradable_read|blocking_lock|entry|get|get_mut|iter|iter_mut|insert|remove|retain|alter|contains_key|clear|len|is_empty|view|shrink_to_fit|remove_if\w*|alter_all|capacity|clone)$")


def arg(s):
    """the type argument a text starts with, up to where its angle bracket closes"""
    d = 0
    for i, ch in enumerate(s):
        if ch in "<([":
            d += 1
        elif ch in ">)]" and s[i - 1:i + 1] != "->":
            if d == 0:
                return s[:i]
            d -= 1
    return s


def lock_of(crate, t, future=False):
    """the class of lock whose guard the type holds: what it guards"""
    t = str(t)
    if t.startswith(("&", "*")) or not future and ("Future" in t or "Pin<" in t or "{" in t):
        return None
    for kind, pat in (("", GUARD), ("map ", SHARD), ("watch ", SHOWN)):
        g = pat.search(t)
        if g:
            w = re.sub(r"(\w+::)+", "", arg(g[1]))
            return f"{crate}:{kind}{w}"
    return None


def moved(o):
    """the locals a statement or terminator moves out of"""
    if isinstance(o, dict):
        for k, v in o.items():
            if k == "m" and isinstance(v, list):
                yield v[0]
            else:
                yield from moved(v)
    elif isinstance(o, list):
        for x in o:
            yield from moved(x)


class Locks:
    def __init__(self, p):
        self.p = p
        self.traits = {}
        for i in p.impls:
            for name, path in i["items"]:
                if i["trait"]:
                    self.traits.setdefault((i["trait"].split("<")[0].split("::")[-1], name), []).append(path)
        self.kids = {}
        for f in p.fns.values():
            if f.kind != "std" and "::{closure#" in f.id:
                self.kids.setdefault(f.id.rsplit("::{closure#", 1)[0], []).append(f)
        # what dropping a value runs
        self.drops = {re.sub(r"<.*", "", i["self"]).split("::", 1)[-1]: [self.p.by_id[x].d for n, x in i["items"] if n == "drop" and x in self.p.by_id]
                      for i in p.impls if i["trait"] and re.search(r"(^|::)Drop$", i["trait"])}
        self.taken, self.calls, self.all = {}, {}, {}
        self.fns = [f for f in p.fns.values() if f.kind != "std" and not re.search(r"(^|::)(tests?|test_\w+|\w+_test)(::|$)", f.id)]
        for f in self.fns:
            self.taken[f.d] = {k for b in f.blocks for k in [self.takes(f, b[1])] if k}
        for f in self.fns:
            self.calls[f.d] = self.targets(f)
        # what a function takes, itself or in what it calls
        self.all = {d: set(v) for d, v in self.taken.items()}
        again = True
        while again:
            again = False
            for f in self.fns:
                mine = self.all[f.d]
                n = len(mine)
                for d in self.calls[f.d]:
                    mine |= self.all.get(d, set())
                again |= len(mine) > n

    def takes(self, f, t):
        """the lock a call waits for"""
        if t[0] != "call":
            return None
        fn = t[1].get("k", {}).get("fn", {}) if isinstance(t[1], dict) else {}
        path = fn.get("p", "")
        if not path or fn.get("rd", fn.get("d", "")) in self.p.fns and self.p.fns[fn.get("rd", fn.get("d", ""))].kind != "std":
            return None
        if re.search(r"watch::Sender::<.*>::(send|send_replace|send_if_modified|send_modify)$", path):
            whose = self.receiver(f, t, "tokio::sync::watch::Sender")  # waits until nobody looks at the value
            return f"{f.crate}:watch {whose}" if whose else None
        if not WAITS.search(path) or "try_" in path:
            return None
        if path.startswith("dashmap::") and "DashMap::<" not in path:
            return None  # what is had of a map already
        whose = self.receiver(f, t)
        if whose:  # a map in shards: asking it anything may wait for the shard held
            return f"{f.crate}:map {whose}"
        if "dashmap" not in path and re.search(r"::(is_empty|view|shrink_to_fit|remove_if\w*|alter_all|capacity|clone)$", path):
            return None
        return lock_of(f.crate, t[7], future=path.startswith("tokio::"))

    def receiver(self, f, t, kind="dashmap::DashMap"):
        """what the map in shards, or the watch, holds that a call is made on"""
        o = t[2][0] if t[2] else None
        for k in ("c", "m"):
            if isinstance(o, dict) and isinstance(o.get(k), list):
                g = re.match(r"&(?:'\w+ )?(?:mut )?" + kind + "<(.+)$", str(f.locals[o[k][0]][0])) if not o[k][1] else None
                if g:
                    kv = re.sub(r"(\w+::)+", "", arg(g[1])).split(", ")
                    return ", ".join(x for x in kv if "RandomState" not in x)
        return None

    def impls(self, fn):
        tr = fn.get("tr")
        if not tr or fn.get("rd") in self.p.fns:
            return []
        ids = self.traits.get((tr.split("<")[0].split("::")[-1], fn.get("p", "").rsplit("::", 1)[-1]), [])
        return [self.p.by_id[i].d for i in ids if i in self.p.by_id]

    def dropped(self, t):
        ty = re.sub(r"std::sync::(Arc|Weak)<.*", "", str(t[3]))  # shared: most often not the last
        return {d for w in re.findall(r"[\w:]+", ty) for v in (w, w.split("::", 1)[-1]) for d in self.drops.get(v, ())}

    def targets(self, f):
        out = {d for d in mentioned(f) if d in self.taken}
        for b in f.blocks:
            if b[1][0] == "call" and isinstance(b[1][1], dict):
                out |= set(self.impls(b[1][1].get("k", {}).get("fn", {})))
            elif b[1][0] == "drop":
                out |= self.dropped(b[1])
        return out | {g.d for g in self.kids.get(f.id, ()) if g.d in self.taken}

    def called(self, f, t, made):
        """the functions a call runs: what it names, and the closures it is given"""
        out = set()
        fn = t[1].get("k", {}).get("fn", {}) if isinstance(t[1], dict) else {}
        for k in ("d", "rd"):
            if fn.get(k) in self.taken:
                out.add(fn[k])
        out |= set(self.impls(fn))
        if re.search(r"(^|::)spawn(_\w+)?$", fn.get("p", "")):
            return out  # runs elsewhere, and is not waited for
        for l in moved(t[2]):
            out |= made.get(l, set())
        return out

    def made(self, f):
        """the closures the locals of a function hold"""
        made = {}
        for b in f.blocks:
            for s in b[0]:
                if s[0] == "=" and isinstance(s[2], list) and s[2][0] == "agg" and not s[1][1]:
                    ds = {d for d in mentioned_in(s[2]) if d in self.taken}
                    if ds:
                        made.setdefault(s[1][0], set()).update(ds)
        return made

    def held(self, f):
        """for each block, the guards held when it ends, before its terminator: {local: lock}"""
        types = {i: lock_of(f.crate, l[0]) for i, l in enumerate(f.locals)}
        if not any(types.values()):
            return {}
        # what takes a lock when dropped is followed too, as a drop of what was moved away does nothing
        drops = {i for i, l in enumerate(f.locals) if not types[i] and self.dropped([0, 0, 0, l[0]])}
        at, out, todo = {0: {}}, {}, [0]
        while todo:
            i = todo.pop()
            st, t = f.blocks[i][0], f.blocks[i][1]
            h = dict(at[i])
            for s in st:
                if s[0] == "dead":
                    h.pop(s[1], None)
                elif s[0] == "=":
                    for l in list(moved(s[2])):
                        h.pop(l, None)
                    if not s[1][1] and s[1][0] in drops:
                        h[s[1][0]] = None
                    if not s[1][1] and types[s[1][0]] and any(lock_of(f.crate, f.locals[l][0]) for l in moved(s[2])):
                        h[s[1][0]] = types[s[1][0]]
            out[i] = dict(h)
            if t[0] == "call":
                for l in list(moved(t[2])):
                    h.pop(l, None)
                if (types[t[3][0]] or t[3][0] in drops) and not t[3][1]:
                    h[t[3][0]] = types[t[3][0]]
            elif t[0] == "drop" and not t[1][1]:
                h.pop(t[1][0], None)
            for n in successors(t):
                if n is None:
                    continue
                was = at.get(n)
                new = {**(was or {}), **h}
                if was is None or new != was:
                    at[n] = new
                    todo.append(n)
        return out


def origin(f, l):
    """the parameter a reference comes from"""
    for _ in range(30):
        if 1 <= l <= f.argc:
            return l
        src = [s[2] for b in f.blocks for s in b[0] if s[0] == "=" and s[1] == [l, []]] + \
              [b[1][2][0] for b in f.blocks if b[1][0] == "call" and b[1][3] == [l, []] and b[1][2]]
        if len(src) != 1:
            return None
        at = [x for x in places(src[0])]
        if len(at) != 1:
            return None
        l = at[0]
    return None


def places(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("m", "c") and isinstance(v, list):
                yield v[0]
    elif isinstance(x, list):
        if len(x) == 3 and x[0] == "ref":
            yield x[2][0]
        elif x and x[0] in ("use", "cast"):
            for y in x[1:]:
                yield from places(y)


def apart(f, locks, a, t):
    """two locks of one kind, of two things given to the function, the first given taken first"""
    hs = [l for l, k in locks.items() if k == a]
    now = origin(f, next(iter(places(t[2][0])), 0)) if t[2] else None
    was = [origin(f, l) for l in hs]
    return now is not None and all(w is not None and w < now for w in was)


def order(c):
    c.rule("not-twice", "while a lock is held nothing is called that waits for a lock of the same kind (two things given to one function may be locked together, the first given first)")
    c.rule("one-order", "no two locks are taken in both orders")
    c.rule("not-across-await", "a lock that blocks its thread is not held while a future waits")
    p = c.program(*sorted(os.path.basename(x)[:-5] for x in glob.glob(FACTS + "/*.json") if not x.endswith(".std.json")))
    k = Locks(p)
    edges, holds = {}, {}
    for f in k.fns:
        h = k.held(f)
        if not h:
            continue
        made = k.made(f)
        if "::{closure#" not in f.id:
            holds[f.d] = {x for v in h.values() for x in v.values() if x}
        for i, locks in h.items():
            t = f.blocks[i][1]
            there = {l for l, x in locks.items() if x is None}
            locks = {l: x for l, x in locks.items() if x}
            if not locks:
                continue
            if t[0] == "yield":
                c.ob("not-across-await", all("tokio" in str(f.locals[l][0]) for l in locks), f, f"waits while holding {sorted(set(locks.values()))}")
            mine = set(locks.values())
            if t[0] == "drop" and t[1][0] in there:
                ds = k.dropped(t)
                for d in ds:
                    c.ob("not-twice", not mine & k.all[d], f, f"line {t[4]}: dropping a {t[3]} takes {sorted(mine & k.all[d])} while holding it")
                    for a in mine:
                        for b in k.all[d] - mine:
                            edges.setdefault(a, {}).setdefault(b, (f, t[4]))
            if t[0] != "call":
                continue
            takes = {k.takes(f, t)} - {None}
            for d in k.called(f, t, made):
                takes |= k.all[d]
            ln = t[5]
            one = k.takes(f, t)
            if one in mine and apart(f, locks, one, t) and not any(one in k.all[d] for d in k.called(f, t, made)):
                takes.discard(one)
            c.ob("not-twice", not mine & takes, f, f"line {ln}: takes {sorted(mine & takes)} while holding it")
            for a in mine:
                for b in takes - mine:
                    edges.setdefault(a, {}).setdefault(b, (f, ln))
    # a closure given to a function that holds a lock runs, as far as is known, with the lock held
    for f in k.fns:
        made = k.made(f)
        for b in f.blocks:
            t = b[1]
            if t[0] != "call" or not made or not isinstance(t[1], dict):
                continue
            fn = t[1].get("k", {}).get("fn", {})
            given = {d for l in moved(t[2]) for d in made.get(l, ())}
            inside = set().union(*[holds.get(fn.get(x), set()) for x in ("d", "rd")])
            for d in given if inside else ():
                c.ob("not-twice", not inside & k.all[d], f, f"line {t[5]}: what is run inside {fn.get('p')} takes {sorted(inside & k.all[d])}, held there")
                for a in inside:
                    for x in k.all[d] - inside:
                        edges.setdefault(a, {}).setdefault(x, (f, t[5]))
    # orders are kept if what follows a lock never leads back to it
    for a in edges:
        for b, (f, ln) in edges[a].items():
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += edges.get(x, {})
            c.ob("one-order", a not in seen, f, f"line {ln}: {b} is taken while {a} is held, and elsewhere the other way round")
    return edges


def mentioned_in(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("d", "rd", "def") and isinstance(v, str):
                yield v
            else:
                yield from mentioned_in(v)
    elif isinstance(x, list):
        if len(x) > 1 and x[0] in ("closure", "coroutine") and isinstance(x[1], str):
            yield x[1]
        for y in x:
            yield from mentioned_in(y)


GROUPS = [order]
FLOORS = {"not-twice": 300, "one-order": 3, "not-across-await": 2}
