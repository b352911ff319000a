"""The program under analysis: every function body of the facts, with its control-flow structure."""
import json
import os

import terms
import wsgen

FACTS = f"{wsgen.OUT}/facts"


class Fn:
    __slots__ = (
        "id", "d", "kind", "span", "argc", "locals", "blocks", "promoted", "upvars", "parent", "meta",
        "_cfg", "crate",
    )

    def __init__(self, j, crate):
        self.crate = crate
        self.id = j.get("id", "")
        self.d = j.get("d", self.id)
        self.kind = j.get("kind", "promoted")
        self.span = j.get("span")
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.promoted = j.get("promoted", [])
        self.upvars = j.get("upvars", [])
        self.parent = j.get("parent")
        self.meta = {k: j.get(k) for k in ("async", "pub", "self", "trait", "trait_default", "name", "up")}
        self._cfg = None

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

    def where(self):
        return f"{self.span[0]}:{self.span[1]}" if self.span else "?"


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]] if t[1] is not None else []
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    return []  # ret, unreachable, resume, yield (a future that is never ready goes nowhere)


class Cfg:
    """Reverse post-order, natural loops, liveness."""

    def __init__(self, fn):
        n = len(fn.blocks)
        self.succ = [successors(b[1]) for b in fn.blocks]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._meet(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(preds[x])
        self.fn = fn
        self._live = None

    def _meet(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @property
    def live(self):
        """Block -> locals that may still be read (or whose address was taken) at its entry."""
        if self._live is None:
            fn = self.fn
            borrowed = set()
            use, kill = {}, {}

            def uses(p, acc):
                acc.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i":
                        acc.add(e[1])

            def ops(o, acc):
                for k in ("c", "m"):
                    if k in o:
                        uses(o[k], acc)

            for b in self.order:
                st, t, _ = fn.blocks[b]
                u, k = set(), set()

                def read(acc):
                    u.update(x for x in acc if x not in k)

                for s in st:
                    if s[0] == "=":
                        acc = set()
                        r = s[2]
                        if r[0] in ("use", "repeat"):
                            ops(r[1], acc)
                        elif r[0] == "ref":
                            uses(r[2], acc)
                            if not (r[2][1] and "*" in r[2][1]):
                                borrowed.add(r[2][0])
                        elif r[0] == "cast":
                            ops(r[2], acc)
                        elif r[0] == "bin":
                            ops(r[2], acc)
                            ops(r[3], acc)
                        elif r[0] == "un":
                            ops(r[2], acc)
                        elif r[0] == "discr":
                            uses(r[1], acc)
                        elif r[0] == "agg":
                            for o in r[2]:
                                ops(o, acc)
                        if s[1][1]:
                            uses(s[1], acc)
                        read(acc)
                        if not s[1][1]:
                            k.add(s[1][0])
                    elif s[0] == "setdiscr":
                        acc = set()
                        uses(s[1], acc)
                        read(acc)
                acc = set()
                if t[0] == "switch":
                    ops(t[1], acc)
                elif t[0] == "call":
                    ops(t[1], acc)
                    for o in t[2]:
                        ops(o, acc)
                    if t[3][1]:
                        uses(t[3], acc)
                elif t[0] == "drop":
                    uses(t[1], acc)
                elif t[0] == "assert":
                    ops(t[1], acc)
                elif t[0] == "ret":
                    acc.add(0)
                    acc.update(range(1, fn.argc + 1))
                read(acc)
                if t[0] == "call" and not t[3][1]:
                    k.add(t[3][0])
                use[b], kill[b] = u, k
            live = {b: set(use[b]) for b in self.order}
            changed = True
            while changed:
                changed = False
                for b in reversed(self.order):
                    out = set()
                    for s in self.succ[b]:
                        out |= live[s]
                    new = use[b] | (out - kill[b])
                    if new != live[b]:
                        live[b] = new
                        changed = True
            for b in live:
                live[b] |= borrowed
            self._live = live
        return self._live


class Program:
    """Lazily loaded bodies of the named crates (and of the std combinators they call)."""

    def __init__(self, crates):
        self.fns = {}
        self.by_id = {}
        self.adts = {}
        self.impls = []
        self.crates = list(crates)
        self.missing = []
        for c in crates:
            self.load(c)

    def load(self, crate):
        p = f"{FACTS}/{crate}.json"
        if not os.path.exists(p):
            self.missing.append(crate)
            return
        with open(p) as f:
            j = json.load(f)
        for x in j["fns"]:
            fn = Fn(x, crate)
            self.fns[fn.d] = fn
            self.by_id.setdefault(fn.id, fn)
        for a in j["adts"]:
            a["crate"] = crate
            self.adts[a["id"]] = a
            if a["enum"]:
                vs = tuple(v[0] for v in a["variants"])
                terms.VARIANTS[a["id"]] = vs
        for i in j["impls"]:
            i["crate"] = crate
            self.impls.append(i)
        with open(f"{FACTS}/{crate}.std.json") as f:
            for x in json.load(f)["fns"]:
                self.fns.setdefault(x["d"], Fn(x, "std"))

    def find(self, pattern):
        """The one function whose generic-free id ends with the pattern (`Type::method`)."""
        hits = [f for f in self.by_id.values() if f.kind != "std" and (f.id == pattern or norm(f.id) == pattern)]
        return hits[0] if len(hits) == 1 else None


    def users(self, f):
        """The functions whose bodies mention f, closures counted for the function they are written in."""
        if not hasattr(self, "_users"):
            self._users = {}
            for g in self.fns.values():
                if g.kind == "std":
                    continue
                for d in mentioned(g):
                    self._users.setdefault(d, set()).add(self.root(g).d)
        return {self.fns[d] for d in self._users.get(f.d, ()) if d in self.fns}

    def reach(self, f):
        """f and every function of the workspace its body mentions, directly or not."""
        seen, todo = {}, [f]
        while todo:
            g = todo.pop()
            if g.d in seen:
                continue
            seen[g.d] = g
            todo += [self.fns[d] for d in mentioned(g) if d in self.fns and self.fns[d].kind != "std"]
            todo += [h for h in self.fns.values() if h.kind != "std" and h.id.startswith(g.id + "::{closure#")]
        return list(seen.values())

    def root(self, g):
        """The function a closure is written in."""
        while "::{closure#" in g.id and g.kind != "std":
            up = self.by_id.get(g.id.rsplit("::{closure#", 1)[0])
            if up is None:
                break
            g = up
        return g

    def helper_of(self, f, owners, seen=()):
        """Whether f is a private helper that only the owning functions (ids) reach."""
        f = self.root(f)
        if f.id in owners:
            return True
        if f.meta.get("pub") or f.meta.get("trait") or f.id in seen:
            return f.id in seen
        us = self.users(f) - {f}
        return bool(us) and all(self.helper_of(g, owners, (*seen, f.id)) for g in us)


def mentioned(g):
    out = set()

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("d", "rd") and isinstance(v, str):
                    out.add(v)
                else:
                    go(v)
        elif isinstance(x, list):
            for y in x:
                go(y)

    go(g.blocks)
    for x in g.promoted:
        go(x if isinstance(x, (dict, list)) else x.blocks)
    return out


_norm = {}


def norm(i):
    r = _norm.get(i)
    if r is None:
        # keep "<X as Trait>::m" of local impls distinct: crate::<X as T>::m
        r = _norm[i] = i
    return r
