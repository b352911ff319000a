"""What a property's rules are written with: analysed functions, their paths, obligations."""
import json
import os
import re
import time
import traceback

import engine
from engine import Config, Engine
from program import Program, norm
from terms import *
import wsgen

VERIF = wsgen.VERIF


class Anchor(Exception):
    """Something a rule is about is no longer there."""


class Path:
    """One abstract path through a function: its conditions, events in order, result, final heap."""

    def __init__(self, eng, fn, x):
        self.e, self.fn, self.x = eng, fn, x
        self.kind = x.kind
        self.term = x.ret
        self.state = x.state
        self.why = x.why
        self._ret = None
        self._evs = None

    @property
    def ret(self):
        """Printed result, with what references point at filled in."""
        if self._ret is None:
            t = self.e.view(self.state, self.term) if self.term is not None else None
            d = self.e.decide(self.state, t) if t is not None and (t.op in ("not", "and", "eq", "is", "lt") or t in self.state.facts) else None
            self._ret = "" if t is None else show(t) if d is None else ("true" if d else "false")
        return self._ret

    @property
    def rett(self):
        return self.e.resolve(self.state, self.term)

    @property
    def trace(self):
        return self.state.trace

    def events(self, deep=True):
        """Events in order; the events of a loop's iterations stand where the loop does."""
        if deep and self._evs is not None:
            return self._evs
        out = []
        self._flat(self.trace, out, deep, set())
        if deep:
            self._evs = out
        return out

    def _flat(self, trace, out, deep, seen):
        for ev in trace:
            if ev.kind == "done":
                continue
            out.append(ev)
            if ev.kind == "loop" and deep and ev.extra not in seen:
                lp = self.e.loops[ev.extra]
                for evs, _ in lp.iters:
                    self._flat(evs, out, deep, seen | {ev.extra})

    def ev(self, pat, deep=True):
        """Events whose printed form matches."""
        r = rx(pat)
        return [x for x in self.events(deep) if r.search(repr(x))]

    def idx(self, pat, deep=True):
        r = rx(pat)
        return [i for i, x in enumerate(self.events(deep)) if r.search(repr(x))]

    def has(self, pat, deep=True):
        return bool(self.idx(pat, deep))

    def before(self, a, b):
        """Every event matching b comes after some event matching a."""
        ia, ib = self.idx(a), self.idx(b)
        return all(any(x < y for x in ia) for y in ib)

    def facts(self, pat):
        r = rx(pat)
        return [(k, v) for k, v in self.state.facts.items() if r.search(show(k))]

    def truth(self, pat):
        """The truth on this path of the condition whose whole printed form matches (None: not tested)."""
        r = re.compile(pat)
        for k, v in self.state.facts.items():
            if r.fullmatch(show(k)):
                return v
        return None

    def decide(self, f):
        return self.e.decide(self.state, f)

    def heap(self, pat):
        """Printed final content of the objects whose name matches (written ones only)."""
        r = re.compile(pat)
        return {show(k): show(self.e.resolve(self.state, v)) for k, v in self.x.heap().items() if r.fullmatch(show(k))}

    def loops(self, pat=None):
        out = []
        for ev in self.events():
            if ev.kind == "loop":
                lp = self.e.loops[ev.extra]
                if pat is None or rx(pat).search(lp.name or ""):
                    out.append(lp)
        return out

    def whole(self, lp=None):
        """Whether this path went through every item of the loop (of every loop it has)."""
        tr = self._tr()
        done = {ev.extra for ev in tr if ev.kind == "done"}
        return all(ev.extra in done for ev in tr if ev.kind == "loop" and (lp is None or self.e.loops[ev.extra] is lp))

    def _tr(self):
        return self.trace

    def describe(self):
        return repr(self.x)

    def __repr__(self):
        return self.describe()


def closure_fn(q, t):
    """The function of a closure value."""
    v = q.e.closure_of(q.state, t)
    return q.e.p.fns.get(v.a[0][1]) if v is not None else None


def spawned(q, t):
    """The paths of a task, from where the path hands it out; their traces are the task's own."""
    st = q.state.copy()
    st.trace = ()
    v = q.e.resolve(st, t)
    if v.op != "agg" or not isinstance(v.a[0], tuple):
        return []
    return [Path(q.e, q.fn, x) for x in q.e.merge_exits(q.e.split_bool(q.e.poll_coroutine(st, v, (("task",),))))]


class Iter(Path):
    """One iteration of a loop seen as a path."""

    def __init__(self, q, tr, st):
        self.e, self.fn, self.q = q.e, q.fn, q
        self.kind, self.term, self.state, self.x = "iter", None, st, q.x
        self._ret, self._top = "", tr
        self._evs = [x for x in tr if x.kind != "done"]
        self.why = None

    def _tr(self):
        return self._top

    def heap(self, pat):
        r = re.compile(pat)
        return {show(k[1]): show(self.e.resolve(self.state, v)) for k, v in self.state.store.items() if k[0] == "H" and r.fullmatch(show(k[1]))}

    def describe(self):
        return f"iteration: {self._evs} {({show(k): v for k, v in self.state.facts.items()})}"


def iterations(q, pat=None):
    """Every iteration of the loops of a path (their names matching pat), each as a path."""
    return [Iter(q, tr, st) for lp in q.loops(pat) for tr, st in lp.iters]


def has_sub(t, x):
    """Whether x occurs in t."""
    return any(s is x or s.op == x.op and show(s) == show(x) for s in subterms(t))


_rx = {}


def rx(p):
    if not isinstance(p, str):
        return p
    r = _rx.get(p)
    if r is None:
        r = _rx[p] = re.compile(p)
    return r


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.obligations = 0
        self.discharged = 0
        self.findings = {}  # key -> (message, details)
        self.known_hit = []
        self.functions = {}
        self.paths = 0
        self.calls = 0
        self.steps = 0
        self.inlined = set()
        self.rules = {}
        self.counts = {}
        self.assumptions = []
        self._programs = {}

    # ---------------------------------------------------------------- program
    def program(self, *crates):
        k = tuple(crates)
        if k not in self._programs:
            p = Program(crates)
            for c in p.missing:
                self.fail(f"no-facts:{c}", f"the compiler front end produced no MIR for crate {c}")
            self._programs[k] = p
        return self._programs[k]

    def fn(self, p, path):
        f = p.by_id.get(path)
        if f is None:
            hits = [g for g in p.by_id.values() if g.kind != "std" and g.id.endswith(path)]
            if len(hits) == 1:
                return hits[0]
            raise Anchor(f"function {path}: {len(hits)} definitions")
        return f

    def paths_of(self, p, path, config=None, is_async=None, **kw):
        """Every path of a function, or a finding when the analysis cannot follow it."""
        f = self.fn(p, path) if isinstance(path, str) else path
        e = Engine(p, config)
        run_async = f.meta.get("async") if is_async is None else is_async
        xs = e.run_async(f, **kw) if run_async else e.run(f, **kw)
        out = [Path(e, f, x) for x in xs]
        self.functions[f.id] = self.functions.get(f.id, 0) + len(out)
        self.paths += len(out)
        self.calls += e.calls
        self.steps += e.steps
        self.inlined |= e.functions
        if not out:
            self.fail(f"{f.id}:no-path", f"{f.id} ({f.where()}): no path returns")
        return out

    # ---------------------------------------------------------------- obligations
    def rule(self, name, text):
        """Names a rule; obligations are counted per rule, and a rule with none is a finding."""
        self.rules[name] = text
        self.counts.setdefault(name, 0)
        return name

    def ob(self, rule, ok, where, msg, detail=None):
        """One obligation: `ok` or a finding at `where` (a function or call path, no line numbers)."""
        self.obligations += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if ok:
            self.discharged += 1
            return True
        w = where
        loc = ""
        if isinstance(where, Path):
            loc = f" ({where.fn.where()})"
            detail = detail or where.describe()
            w = where.fn.id
        elif hasattr(where, "where"):
            loc = f" ({where.where()})"
            w = where.id
        self.fail(f"{w}:{rule}", f"{w}{loc}: {msg}", detail)
        return False

    def fail(self, key, msg, detail=None):
        if key not in self.findings:
            self.findings[key] = (msg, str(detail) if detail is not None else "")

    def need(self, rule, n=1):
        """A rule that applied to fewer than n constructs no longer sees what it is about."""
        if self.counts.get(rule, 0) < n:
            self.fail(f"{rule}:floor", f"rule {rule}: {self.counts.get(rule, 0)} obligations, expected at least {n}: "
                                       "the construct it is about is gone or no longer recognised")


def guarded(c, f, *a, **kw):
    """Runs one group of rules; what it cannot follow is a finding, never a crash."""
    try:
        f(c, *a, **kw)
    except Anchor as x:
        c.fail(f"anchor:{x}", f"anchor missing: {x}")
    except engine.Budget as x:
        c.fail(f"{f.__name__}:budget", f"{f.__name__}: analysis does not converge: {x}")
    except Exception as x:  # fail closed
        c.fail(f"{f.__name__}:error", f"{f.__name__}: the analysis cannot follow the current source: {x!r}",
               traceback.format_exc())


# -------------------------------------------------------------------- helpers over the program
def fields(p, adt):
    a = p.adts.get(adt)
    if a is None:
        raise Anchor(f"type {adt}")
    return {n: t for v in a["variants"] for n, t, _ in v[1]}


def field(p, adt, ty, n=0):
    """Name of the field of adt whose type matches (private names may change, roles do not)."""
    hits = [k for k, t in fields(p, adt).items() if re.search(ty, t)]
    if len(hits) != n + 1 and not (n == 0 and len(hits) == 1):
        raise Anchor(f"field of type /{ty}/ in {adt}: {len(hits)} candidates")
    return hits[n]


def writers(p, name, crate):
    """Functions of a crate that assign a field of that name, or lend it mutably."""
    out = {}
    def on(pl):
        pr = pl[1] if isinstance(pl, list) and len(pl) > 1 and isinstance(pl[1], list) else []
        return any(isinstance(x, list) and x[0] == "f" and x[2] == name for x in pr)
    for f in p.by_id.values():
        if f.kind == "std" or f.crate != crate:
            continue
        for b in f.blocks:
            for s in b[0]:
                if s[0] == "=" and (on(s[1]) or (s[2][0] == "ref" and str(s[2][1]).startswith("mut") and on(s[2][2]))):
                    out.setdefault(f.id, []).append(s)
            t = b[1]
            if t[0] == "call" and on(t[3]):
                out.setdefault(f.id, []).append(t)
    return out


def arg(p, i, name=None):
    """Printed name of argument i (1-based) of a path's function."""
    return "self" if p.fn.locals[i][1] == "self" else f"${i}"


# ------------------------------------------------ deciding extracted conditions at given values
STR_PREDS = {"starts_with": str.startswith, "ends_with": str.endswith, "contains": str.__contains__}


def static_value(c, p, name):
    """What a lazily initialised static holds: its initialiser's only result."""
    memo = p.__dict__.setdefault("_statics", {})
    if name not in memo:
        memo[name] = None
        f = p.by_id.get(name + "::{closure#0}")
        if f is not None:
            xs = Engine(p, Config()).run(f)
            if len(xs) == 1 and xs[0].kind == "ret":
                memo[name] = xs[0].ret
    return memo[name]


def fold(c, p, t, m):
    """t with the terms of m replaced and constant calls evaluated."""
    t = subst(t, m)

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        a = tuple(go(y) for y in x.a)
        y = subst(mk(x.op, *a), {})
        if x.op == "not":
            y = not_(a[0])
        elif x.op == "and":
            y = and_(*a)
        elif x.op == "eq":
            y = eq(*a)
            if "float" in (a[0].op, a[1].op) and None not in (number(a[0]), number(a[1])):
                y = boolean(number(a[0]) == number(a[1]))
        elif x.op == "lt":
            y = lt(*a)
            if "float" in (a[0].op, a[1].op) and None not in (number(a[0]), number(a[1])):
                y = boolean(number(a[0]) < number(a[1]))
        elif x.op == "fle":
            y = mk("fle", *a)
            if None not in (number(a[0]), number(a[1])):
                y = boolean(number(a[0]) <= number(a[1]))
        elif x.op == "fld":
            y = fld(*a)
        elif x.op == "as":
            y = downcast(*a)
        elif x.op == "cast" and isinstance(a[0], T):
            y = cast_number(a[0], a[1]) or y
        elif x.op == "bin" and len(a) == 3 and all(isinstance(v, T) and v.op == "int" for v in a[1:]):
            y = arith(a[0], a[1].a[0], a[2].a[0]) or y
        elif x.op == "is":
            y = is_(a[0], a[1])
        elif x.op == "item" and isinstance(a[1], int) and a[0].op == "call" and a[0].a[0].endswith("chars") and a[0].a[1][0].op == "str":
            s = a[0].a[1][0].a[0]
            y = string(s[a[1]]) if a[1] < len(s) else mk("call", "no_such_char", (), 0)
        elif x.op == "call":
            nm, args = x.a[0].split("::")[-1], list(a[1])
            if args and args[0].op == "sym" and args[0].a[0].startswith("static:"):
                args[0] = static_value(c, p, args[0].a[0][7:]) or args[0]
            v = numeric(nm, args)
            if v is not None:
                return v
            if args and args[0].op == "call" and args[0].a[0].startswith("collect:") and nm in ("contains", "contains_key"):
                args[0] = args[0].a[1][0]
            if nm == "strip_prefix" and len(args) == 2 and all(v.op == "str" for v in args):
                x, y = args[0].a[0], args[1].a[0]
                return some(string(x[len(y):])) if x.startswith(y) else NONE
            if nm == "strip_suffix" and len(args) == 2 and all(v.op == "str" for v in args):
                x, y = args[0].a[0], args[1].a[0]
                return some(string(x[:len(x) - len(y)])) if x.endswith(y) else NONE
            if nm in ("to_string", "to_owned", "as_str", "into", "from", "clone", "as_ref", "borrow") and len(args) == 1 and args[0].op == "str":
                return args[0]
            if nm == "contains" and len(args) == 2 and args[0].op == "agg" and args[0].a[0] == "array":
                return fold(c, p, any_of([eq(v, args[1]) for v in args[0].a[3]]), {})
            if nm in STR_PREDS and len(args) == 2 and all(v.op == "str" for v in args):
                return boolean(STR_PREDS[nm](args[0].a[0], args[1].a[0]))
            if nm in ("len", "is_empty") and len(args) == 1 and args[0].op == "str":
                n = len(args[0].a[0].encode())
                return integer(n) if nm == "len" else boolean(n == 0)
        return y

    return go(t)


def number(t):
    return t.a[0] if t.op == "int" else float(t.a[0]) if t.op == "float" else None


def numeric(nm, args):
    """A numeric library call on known numbers (None: not one)."""
    import math

    vs = [number(a) for a in args]
    if not vs or None in vs:
        return None
    x = vs[0]
    fl = isinstance(x, float)
    out = (lambda v: mk("float", repr(float(v)))) if fl else integer
    if nm in ("get", "into", "from", "clone", "to_owned") and len(vs) == 1:
        return args[0]
    if nm in ("max", "min") and len(vs) == 2:
        return out((max if nm == "max" else min)(vs))
    if nm == "clamp" and len(vs) == 3:
        return out(max(vs[1], min(x, vs[2])))
    if nm in ("saturating_sub", "saturating_add", "saturating_mul", "wrapping_add", "wrapping_sub", "div_ceil", "abs_diff") and len(vs) == 2 and not fl:
        y = vs[1]
        return integer({"saturating_sub": max(0, x - y), "saturating_add": x + y, "saturating_mul": x * y, "wrapping_add": x + y,
                        "wrapping_sub": (x - y) % 2**64, "div_ceil": -(-x // y) if y else 0, "abs_diff": abs(x - y)}[nm])
    if fl and len(vs) == 1:
        fin = math.isfinite(x)
        b = {"is_normal": fin and abs(x) >= 2.2250738585072014e-308, "is_finite": fin, "is_nan": math.isnan(x), "is_infinite": math.isinf(x),
             "is_sign_positive": math.copysign(1, x) > 0, "is_sign_negative": math.copysign(1, x) < 0}.get(nm)
        if b is not None:
            return boolean(b)
        if nm in ("floor", "ceil", "trunc", "round", "abs"):
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1), "abs": abs}[nm]
            return out(f(x) if fin else x)
    return None


INT_RANGE = {"usize": (0, 2**64 - 1), "u64": (0, 2**64 - 1), "u32": (0, 2**32 - 1), "u16": (0, 65535), "u8": (0, 255),
             "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i32": (-2**31, 2**31 - 1), "u128": (0, 2**128 - 1)}


def cast_number(v, ty):
    import math

    x = number(v)
    if x is None:
        return None
    if ty in ("f64", "f32"):
        return mk("float", repr(float(x)))
    lo, hi = INT_RANGE.get(ty, (None, None))
    if lo is None:
        return None
    if isinstance(x, float):
        return integer(0 if math.isnan(x) else lo if x < lo else hi if x > hi else int(x))
    return integer((x - lo) % (hi - lo + 1) + lo)


def arith(op, x, y):
    op = op.replace("WithOverflow", "").replace("Unchecked", "")
    if op in ("Rem", "Div") and y == 0:
        return None
    f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Rem": lambda: x % y, "Div": lambda: x // y}.get(op)
    return None if f is None else integer(f())


def ints_in(ts):
    return {x.a[0] for t in ts for x in subterms(t) if x.op == "int"}


def any_of(fs):
    r = FALSE
    for f in fs:
        r = or_(r, f)
    return r


def holds(c, p, guards, m):
    """Whether every (formula, truth) holds once m fixes what they depend on (None: still open)."""
    res = True
    for f, b in guards:
        v = fold(c, p, f, m)
        if v is TRUE or v is FALSE:
            if (v is TRUE) != b:
                return False
        else:
            res = None
    return res


def strings_in(c, p, ts):
    """The string constants a decision compares against (representatives for its input)."""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "str":
                out.add(x.a[0])
            elif x.op == "sym" and x.a[0].startswith("static:"):
                v = static_value(c, p, x.a[0][7:])
                if v is not None:
                    out |= strings_in(c, p, [v])
    return out


def same_value(p, q, x, y, ty, depth=0):
    """Whether a path knows x == y: compared whole, or part by part (None: not known)."""
    r = q.decide(eq(x, y))
    if r is not None:
        return r
    a = p.adts.get(ty)
    if a is None or depth > 3:
        return None
    vs = a["variants"]
    if len(vs) > 1:
        for v in vs:
            if q.decide(is_(x, v[0], ty)) or q.decide(is_(y, v[0], ty)):
                break
        else:
            return None
        i, j = q.decide(is_(x, v[0], ty)), q.decide(is_(y, v[0], ty))
        if i is None or j is None:
            return None
        if i != j:
            return False
        x, y = downcast(x, v[0]), downcast(y, v[0])
    else:
        v = vs[0]
    res = True
    for n, t, _ in v[1]:
        t = strip(t)
        r = same_value(p, q, fld(x, n), fld(y, n), t if t in p.adts else f"{a['crate']}::{t}", depth + 1)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def map_view(t):
    """A map value as (what it started from, {key: value} of what was put in since); None where unknown."""
    if t.op == "upd_by" and t.a[0].op == "call":
        nm, args = t.a[0].a[0], t.a[0].a[1]
        base, d = map_view(args[0])
        if nm.endswith("::insert") and len(args) == 3:
            d = dict(d)
            d[show(args[1])] = args[2]
            return base, d
        if nm.endswith("Extend::extend") and args[1].op == "agg" and args[1].a[0] == "array":
            d = dict(d)
            for x in args[1].a[3]:
                d[show(fld(x, "0"))] = fld(x, "1")
            return base, d
        if nm.endswith(("::reserve", "::shrink_to_fit")):
            return base, d
    return t, {}


def linear(t, zero=()):
    """t as {atom: coefficient} (+ "" for the constant), taking saturation and casts away; None if it is not linear."""
    out = {}

    def add(x, k):
        while x.op == "cast":
            x = x.a[0]
        if x.op == "int":
            out[""] = out.get("", 0) + k * x.a[0]
        elif x.op == "bin" and x.a[0] in ("Add", "Sub"):
            add(x.a[1], k)
            add(x.a[2], k if x.a[0] == "Add" else -k)
        elif x.op == "call" and x.a[0].endswith(("saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add")) and len(x.a[1]) == 2:
            add(x.a[1][0], k)
            add(x.a[1][1], k if x.a[0].endswith("_add") else -k)
        else:
            s = show(x)
            if s not in zero:
                out[s] = out.get(s, 0) + k

    add(t, 1)
    return {k: v for k, v in out.items() if v}


def diff(a, b):
    """a - b of two linear forms."""
    return {k: v for k, v in ((k, a.get(k, 0) - b.get(k, 0)) for k in set(a) | set(b)) if v}


def carried(q, lp, pat):
    """The loop variable (printed as pat) of a loop: (its values before, {iteration number: value after})."""
    for k, v in lp.vars.items():
        if re.fullmatch(pat, show(k)):
            return v
    return None


class World:
    """A case of a decision table: which variants values have, how they compare, what else holds.

    is_: {printed value: variant}; order: {(a, b): "<" | "=" | ">"}; facts: {printed condition: bool};
    the values are regular expressions when they start with "~"."""

    def __init__(self, is_=(), order=(), facts=()):
        self.is_, self.order, self.facts = dict(is_), dict(order), dict(facts)

    @staticmethod
    def same(pat, text):
        return re.fullmatch(pat[1:], text) is not None if pat.startswith("~") else pat == text

    def says(self, k):
        """True/False/None: what this case says of a printed condition."""
        for f, v in self.facts.items():
            if self.same(f, k):
                return v
        m = re.fullmatch(r"(.*) is (\w+)", k)
        if m:
            for s, v in self.is_.items():
                if self.same(s, m.group(1)):
                    return v == m.group(2)
        for (a, b), o in self.order.items():
            for x, y, oo in ((a, b, o), (b, a, {"<": ">", ">": "<", "=": "="}[o])):
                for sep, yes in (("<", oo == "<"), ("==", oo == "=")):
                    n = 0
                    while True:
                        n = k.find(sep, n)
                        if n < 0:
                            break
                        if k[n:n + 2] != "<=" and self.same(x, k[:n]) and self.same(y, k[n + len(sep):]):
                            return yes
                        n += 1
                m = re.fullmatch(r"cmp\((.*)\) is (Less|Equal|Greater)", k)
                if m:
                    for n, ch in enumerate(m.group(1)):
                        if ch == "," and self.same(x, m.group(1)[:n]) and self.same(y, m.group(1)[n + 1:]):
                            return {"Less": "<", "Equal": "=", "Greater": ">"}[m.group(2)] == oo
        return None

    def fits(self, q):
        """Whether a path is taken in this case (None: it cannot tell)."""
        res = True
        for k, v in q.state.facts.items():
            w = self.says(show(k))
            if w is None:
                res = None
            elif w != v:
                return False
        return res

    def answer(self, q):
        """What the path returns in this case."""
        r = q.ret
        neg = False
        while r.startswith("!"):
            r, neg = r[1:], not neg
        w = self.says(r)
        return q.ret if w is None else "true" if w != neg else "false"


def table(c, rule, fn, qs, cases):
    """Every case of a decision table [(name, World, expected)] has the expected outcome on every path taken in it; the expected outcome is a text, or a function of the path."""
    for name, w, want in cases:
        fit = [(q, w.fits(q)) for q in qs]
        on = [q for q, f in fit if f is not False]
        if not c.ob(rule, bool(on), fn, f"{name}: no way through the function"):
            continue
        for q in on:
            if callable(want):
                c.ob(rule, want(q), q, f"{name}: {q.kind} {q.ret[:160]}")
            else:
                c.ob(rule, (q.ret if q.kind == "ret" else q.kind) == want or w.answer(q) == want, q, f"{name}: {q.kind} {q.ret[:160]}, not {want}")
