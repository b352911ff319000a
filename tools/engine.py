"""Path-sensitive abstract interpretation of MIR over a value-provenance domain.

The abstract state at a program point is (where each value came from, which conditions hold, which
calls were made, in order).  States meeting at a block are merged when they differ only in a
condition and its negation; loops are widened to a fixpoint; calls to workspace functions,
closures, async bodies and the small std combinators are followed, every other call is an event.
No path is handed to a solver and nothing is executed: conditions are looked up, never solved.
"""
import json
import re

from terms import *
from terms import T
import terms as _t
import models


class Budget(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "trace", "cnt")

    def __init__(self, store=None, facts=None, trace=(), cnt=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else {}
        self.trace = trace
        self.cnt = cnt if cnt is not None else {}

    def copy(self):
        return State(dict(self.store), dict(self.facts), self.trace, dict(self.cnt))


class Event:
    """One call (or lock release, drop, loop) made on a path."""

    __slots__ = ("kind", "name", "path", "args", "res", "line", "fn", "extra", "_k")

    def __init__(self, kind, name, path, args, res, line, fn, extra=None):
        self.kind = kind
        self.name = name
        self.path = path
        self.args = args
        self.res = res
        self.line = line
        self.fn = fn
        self.extra = extra
        self._k = (kind, path, args, res, extra)

    def __eq__(self, o):
        return self._k == o._k

    def __hash__(self):
        return hash(self._k)

    def __repr__(self):
        if self.kind == "loop":
            return f"LOOP[{self.name}]"
        return ("" if self.kind == "call" else self.kind + ":") + f"{self.name}(" + ", ".join(show(a) for a in self.args) + ")"


class Exit:
    __slots__ = ("kind", "ret", "state", "why")

    def __init__(self, kind, ret, state, why=None):
        self.kind = kind  # ret | panic | diverge
        self.ret = ret
        self.state = state
        self.why = why

    @property
    def facts(self):
        return self.state.facts

    @property
    def trace(self):
        return self.state.trace

    def heap(self):
        return {r[1]: v for r, v in self.state.store.items() if r[0] == "H" and v is not r[1]}

    def __repr__(self):
        f = ", ".join(sorted((show(k) if v else f"!({show(k)})") for k, v in self.facts.items()))
        h = "; ".join(f"{show(k)} := {show(v)}" for k, v in sorted(self.heap().items(), key=lambda kv: show(kv[0])))
        return (
            f"[{self.kind}{' ' + str(self.why) if self.why else ''}] ret={show(self.ret) if self.ret is not None else '-'}\n"
            f"    if {f}\n    do " + "\n       ".join(repr(x) for x in self.trace if x.kind != "done") + (f"\n    set {h}" if h else "")
        )


class Loop:
    """What one abstract iteration of a loop can do: the states at its back edges."""

    def __init__(self, name):
        self.name = name
        self.solutions = {}
        self.vars = {}  # carried variable -> (values before the loop, {iteration number: value after it})
        self.iters = []  # (events of the iteration, state at the back edge)
        self.src = None
        self.entry = None  # the state before the loop


LOGGING = re.compile(
    r"(^|::)(trace|debug|info|warn|error|log|log_every|warn_every|debug_every|error_every|info_every"
    r"|warn_every_debug_assert|warn_every_debug_panic)$"
)
DEBUG_ASSERT = re.compile(r"(^|::)debug_assert(_eq|_ne)?$")
PANICS = re.compile(
    r"panic|unreachable|assert_failed|unwrap_failed|expect_failed|slice_.*_fail|begin_unwind|handle_error|"
    r"panic_nounwind|borrow_already|already_(mutably_)?borrowed"
)


class Config:
    """How one analysis treats calls."""

    def __init__(self, opaque=(), pure=(), silent=(), inline=(), model=None, drops=(), virt=None, asserts=False,
                 depth=24, logs=False, budget=400000, width=1500):
        self.opaque = [re.compile(x) for x in opaque]
        self.pure = [re.compile(x) for x in pure]
        self.silent = [re.compile(x) for x in silent]
        self.inline = [re.compile(x) for x in inline]
        self.model = model or {}
        self.drops = [re.compile(x) for x in drops]
        self.virt = virt or {}
        self.asserts = asserts
        self.depth = depth
        self.logs = logs
        self.budget = budget
        self.width = width


def merged_into(v, P, ren, item):
    """The kind of map into which v inserts the loop's item, key and value unchanged; None if v is anything else."""
    if v.op != "upd_by" or v.a[0].op != "call" or v.a[1] != 0:
        return None
    m = re.search(r"(HashMap|BTreeMap|AHashMap|IndexMap)(::<.*>)?::insert$", v.a[0].a[0])
    args = [subst(x, ren) for x in v.a[0].a[1]]
    if m and len(args) == 3 and args[0] is P and args[1] is fld(item, "0") and args[2] is fld(item, "1"):
        return m.group(1)
    return None


def grown(v, P):
    """(the kind of map, what is added) when v is the map P with entries inserted; None if v is anything else."""
    if v.op == "call" and v.a[0].startswith("collect:") and v.a[0].endswith("Map") and v.a[1][0].op == "seq":
        ps = parts_of(v.a[1][0])
        if ps and ps[0] is mk("all", P) and not any(P in subterms(x) for x in ps[1:]):
            return v.a[0], ps[1:]
        return None
    added = ()
    while v.op == "upd_by" and v.a[0].op == "call" and v.a[1] == 0:
        m = re.search(r"(HashMap|BTreeMap|AHashMap|IndexMap)(::<.*>)?::insert$", v.a[0].a[0])
        args = v.a[0].a[1]
        if not m or len(args) != 3 or any(P in subterms(x) for x in args[1:]):
            return None
        added = (mk("one", agg("tuple", None, ("0", "1"), (args[1], args[2]))),) + added
        v = args[0]
        if v is P:
            return "collect:" + m.group(1), added
    return None


UNSIGNED = ("u8", "u16", "u32", "u64", "u128", "usize")


class Engine:
    def __init__(self, program, config=None):
        self.p = program
        self.c = config or Config()
        self.loops = {}
        self.nloop = 0
        self.nloop_last = {}
        self.steps = 0
        self.consts = {}
        self.functions = set()
        self.calls = 0

    # ------------------------------------------------------------------ conditions
    def decide(self, st, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f.op == "not":
            d = self.decide(st, f.a[0])
            return None if d is None else not d
        if f.op == "and":
            a, b = self.decide(st, f.a[0]), self.decide(st, f.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        facts = st.facts
        if f in facts:
            return facts[f]
        if f.op == "is":
            v, variant = f.a
            for k, b in facts.items():
                if k.op == "is" and k.a[0] is v and b and k.a[1] != variant:
                    return False
            return None
        if f.op == "eq":
            a, b = f.a
            c = b if b.op in ("int", "str") else a if a.op in ("int", "str") else None
            x = a if c is b else b
            if c is not None:
                for k, v in facts.items():
                    if v and k.op == "eq" and x in k.a:
                        o = k.a[0] if k.a[1] is x else k.a[1]
                        if o.op == c.op and o is not c:
                            return False
                    if c.op == "int" and k.op == "lt" and k.a[0] is x and k.a[1].op == "int":
                        n = k.a[1].a[0]
                        if v and c.a[0] >= n or not v and c.a[0] < n:
                            return False
            if facts.get(mk("lt", a, b)) or facts.get(mk("lt", b, a)):
                return False
            if facts.get(mk("lt", a, b)) is False and facts.get(mk("lt", b, a)) is False:
                return True
            return None
        if f.op == "lt":
            a, b = f.a
            if facts.get(mk("lt", b, a)) or facts.get(eq(a, b)):
                return False
            if facts.get(mk("lt", b, a)) is False and facts.get(eq(a, b)) is False:
                return True
            if b.op == "int":
                n = b.a[0]
                for k, v in facts.items():
                    if k.op == "lt" and k.a[0] is a and k.a[1].op == "int":
                        m = k.a[1].a[0]
                        if v and m <= n:
                            return True
                        if not v and m >= n:
                            return False
                    elif v and k.op == "eq" and a in k.a:
                        o = k.a[0] if k.a[1] is a else k.a[1]
                        if o.op == "int":
                            return o.a[0] < n
            return None
        return None

    def assume(self, st, f, truth):
        """States in which f has the given truth (a conjunction's negation splits)."""
        d = self.decide(st, f)
        if d is not None:
            return [st] if d == truth else []
        if f.op == "not":
            return self.assume(st, f.a[0], not truth)
        if f.op == "and":
            a, b = f.a
            if truth:
                return [s2 for s in self.assume(st, a, True) for s2 in self.assume(s, b, True)]
            out = self.assume(st, a, False)
            for s in self.assume(st, a, True):
                out = out + self.assume(s, b, False)
            return out
        st = st.copy()
        if f.op == "is" and truth:
            for k in [k for k in st.facts if k.op == "is" and k.a[0] is f.a[0]]:
                del st.facts[k]
        st.facts[f] = truth
        return [st]

    def branch(self, st, f):
        return [(True, s) for s in self.assume(st, f, True)] + [(False, s) for s in self.assume(st, f, False)]

    # ------------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == "H" else UNINIT
        return v

    def read(self, st, root, path):
        v = self.root_value(st, root)
        for k, n in path:
            v = fld(v, n) if k == "f" else downcast(v, n)
        return v

    def _write(self, v, path, x):
        if not path:
            return x
        (k, n), rest = path[0], path[1:]
        if k == "f":
            return with_field(v, n, self._write(fld(v, n), rest, x))
        return self._write(downcast(v, n), rest, x)

    def write(self, st, root, path, x):
        v = self._write(self.root_value(st, root), path, x)
        if root[0] == "H" and v is root[1]:
            st.store.pop(root, None)
        else:
            st.store[root] = v

    def place(self, st, fid, p):
        """(root, path) a MIR place denotes in this state."""
        root, path = ("L", fid, p[0]), ()
        for e in p[1]:
            if e == "*":
                v = self.read(st, root, path)
                root, path = self.deref(v, root, path)
            elif e[0] == "f":
                path += (("f", e[2]),)
            elif e[0] == "v":
                path += (("v", e[2]),)
            elif e[0] == "i":
                i = self.read(st, ("L", fid, e[1]), ())
                v = self.read(st, root, path)
                if v.op == "agg" and v.a[0] == "array" and i.op == "int":
                    path += (("f", str(i.a[0])),)
                else:
                    path += (("f", ("i", i)),)
            elif e[0] == "c":
                v = self.read(st, root, path)
                if v.op == "agg" and v.a[0] == "array" and not e[2]:
                    path += (("f", str(e[1])),)
                else:
                    path += (("f", ("i", integer(-e[1] if e[2] else e[1]))),)
            else:
                path += (("f", tuple(x if not isinstance(x, list) else tuple(x) for x in e)),)
        return root, path

    def deref(self, v, root, path):
        if v.op == "ref":
            return v.a[0], v.a[1]
        if v.op in ("agg", "upd", "moved", "uninit", "str", "int", "bool", "iter"):
            return root, path
        return ("H", v), ()

    def resolve(self, st, v, depth=0, view=False):
        """v with every reference replaced by what it points at now.  A view names an object that a
        followed-up call has changed by the object, not by its content."""
        if v.op == "ref":
            if depth > 8:
                return v
            x = self.read(st, v.a[0], v.a[1])
            if view and v.a[0][0] == "H" and x.op in ("upd_by", "upd", "phi"):
                return models.ident(self, st, v)
            return self.resolve(st, x, depth + 1, view)
        if v.op == "agg":
            vals = tuple(self.resolve(st, x, depth + 1, view) if depth < 8 else x for x in v.a[3])
            return v if vals == v.a[3] else mk("agg", v.a[0], v.a[1], v.a[2], vals)
        if v.op == "upd":
            return mk("upd", v.a[0], tuple((k, self.resolve(st, x, depth + 1, view)) for k, x in v.a[1]))
        if v.op == "iter":
            src = self.resolve(st, v.a[0], depth + 1, view)
            ads = tuple((n, self.resolve(st, f, depth + 1, view) if isinstance(f, T) else f) for n, f in v.a[2])
            return mk("iter", src, v.a[1], ads)
        h = st.store.get(("H", v))
        if h is not None and view and h.op in ("upd_by", "upd", "phi"):
            return v
        if h is not None and depth < 8 and h.op != "upd_by":
            if h.op == "upd" and h.a[0] is v:
                return h
            return self.resolve(st, h, depth + 1, view)
        if h is not None:
            return h
        return v

    def view(self, st, v):
        return self.resolve(st, v, 0, True)

    # ------------------------------------------------------------------ operands and rvalues
    def const(self, st, fid, k, fn):
        if "fn" in k:
            f = k["fn"]
            return self.fnref(f)
        if "closure" in k:
            return agg(("closure", k["closure"]), None, (), ())
        if "v" in k:
            v = k["v"]
            if isinstance(v, bool):
                return boolean(v)
            if isinstance(v, int):
                return integer(v)
            if v.endswith(("f64", "f32")):
                return mk("float", v[:-3])
            if v.isdigit():
                return integer(int(v))
            return string(v)
        if "str" in k:
            return string(k["str"])
        if "fv" in k:
            v = k["fv"]
            return agg(k["adt"], None, (k["fname"],), (integer(int(v)),))
        if "static" in k:
            return sym("static:" + k["static"])
        if "promoted" in k:
            key = (k["def"], k["promoted"])
            if key not in self.consts:
                owner = self.p.by_id.get(k["def"]) or fn
                self.consts[key] = self.eval_const_body(owner.promoted[k["promoted"]], str(key), owner)
            return self.consts[key]
        if k.get("ty") == "()":
            return UNIT
        if "def" in k:
            d = k["def"]
            if d not in self.consts:
                f = self.p.by_id.get(d)
                self.consts[d] = sym("const:" + d)
                if f is not None:
                    v = self.eval_const_body(f, d, f)
                    if v is not None:
                        self.consts[d] = v
            return self.consts[d]
        t = k.get("txt", "?")
        if re.match(r"^\{transmute\(0x0+\): (std|core)::option::Option<", t) or re.match(r"^(std|core)::option::Option::<.*>::None$", t):
            return NONE
        if k.get("ty") == "&str" or t.startswith('"'):
            return string(t)
        return sym("const:" + re.sub(r"alloc\d+", "alloc", t))

    def eval_const_body(self, body, name, owner):
        from program import Fn

        if not isinstance(body, Fn):
            body = Fn(dict(body, id=name, d=name), "const")
        try:
            saved = self.c.budget, self.steps
            outs = self.exec_fn(State(), body, [], (("const", name),), const=True)
            self.steps = saved[1]
        except (Budget, KeyError, RecursionError):
            return sym("const:" + name)
        outs = [o for o in outs if o.kind == "ret"]
        if len(outs) != 1:
            return sym("const:" + name)
        o = outs[0]
        if o.state.trace:
            # the initialiser calls something: keep the call as the value
            return self.resolve(o.state, o.ret)
        return self.resolve(o.state, o.ret)

    def fnref(self, f):
        key = json.dumps(f, sort_keys=True)
        return mk("fnref", f.get("r") or f["p"], key)

    def operand(self, st, fid, o, fn, consume=True):
        if "k" in o:
            return self.const(st, fid, o["k"], fn)
        p = o.get("c") or o.get("m")
        root, path = self.place(st, fid, p)
        v = self.read(st, root, path)
        if "m" in o and consume and "*" not in p[1]:
            if not (v.op in ("int", "bool", "str", "float")):
                if not path:
                    st.store[root] = MOVED
                else:
                    self.write(st, root, path, MOVED)
        return v

    def binop(self, op, a, b, st, tya=None):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        floats = a.op == "float" or b.op == "float" or tya in ("f64", "f32")
        if base == "Eq":
            return eq(a, b)
        if base == "Ne":
            return not_(eq(a, b))
        if base in ("Lt", "Gt", "Le", "Ge"):
            r = {"Lt": lt, "Gt": lambda x, y, f: lt(y, x, f), "Le": le, "Ge": lambda x, y, f: le(y, x, f)}[base](a, b, floats)
            neg = r.op == "not"
            c = r.a[0] if neg else r
            if tya in UNSIGNED and c.op == "lt" and c.a[1].op == "int" and c.a[1].a[0] == 1:
                # x < 1 is x == 0
                c = eq(c.a[0], integer(0))
                return not_(c) if neg else c
            return r
        ab = {"bool", "eq", "lt", "not", "and", "is", "fle"}
        if base in ("BitAnd", "BitOr") and (a.op in ab or b.op in ab or tya == "bool"):
            return and_(a, b) if base == "BitAnd" else or_(a, b)
        if base == "BitXor" and tya == "bool":
            return not_(eq(a, b))
        r = None
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                r = {
                    "Add": lambda: x + y,
                    "Sub": lambda: x - y,
                    "Mul": lambda: x * y,
                    "BitAnd": lambda: x & y,
                    "BitOr": lambda: x | y,
                    "BitXor": lambda: x ^ y,
                    "Shl": lambda: x << y,
                    "Shr": lambda: x >> y,
                    "Rem": lambda: x % y,
                    "Div": lambda: x // y,
                }[base]()
            except (KeyError, ZeroDivisionError):
                r = None
            r = integer(r) if r is not None else None
        if r is None:
            if base in ("Add", "Sub") and b.op == "int":
                # x + 1 + 2, x - 1 + 1
                n = b.a[0] if base == "Add" else -b.a[0]
                if a.op == "bin" and a.a[0] == "Add" and a.a[2].op == "int":
                    n += a.a[2].a[0]
                    a = a.a[1]
                r = a if n == 0 else mk("bin", "Add", a, integer(n))
            elif base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor"):
                if (b.op != "int" and (a.op == "int" or show(a) > show(b))):
                    a, b = b, a
                r = self.binop("Add", a, b, st) if base == "Add" and b.op == "int" else mk("bin", base, a, b)
            else:
                r = mk("bin", base, a, b)
        if "WithOverflow" in op:
            return tup(r, FALSE)
        return r

    def operand_type(self, fn, o):
        if "k" in o:
            return o["k"].get("ty")
        p = o.get("c") or o.get("m")
        if not p[1]:
            return fn.locals[p[0]][0]
        last = p[1][-1]
        if isinstance(last, list) and last[0] == "f":
            return last[3]
        t = fn.locals[p[0]][0]
        if p[1] == ["*"]:
            return re.sub(r"^&(mut )?('\w+ )?(mut )?", "", t)
        return None

    def rvalue(self, st, fid, r, fn, line):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1], fn)
        if k == "ref":
            pl = r[2]
            if r[1] == "shared" and pl[1] and pl[1][-1] == "*":
                # a reborrow of a reference held as a plain value is that value
                root, path = self.place(st, fid, [pl[0], pl[1][:-1]])
                v = self.read(st, root, path)
                if v.op == "str" or v.op in ("agg", "upd", "int", "bool") and len(pl[1]) == 1 and fn.locals[pl[0]][0].startswith("&"):
                    return v
            root, path = self.place(st, fid, pl)
            return ref(root, path, r[1] == "mut")
        if k == "cast":
            v = self.operand(st, fid, r[2], fn)
            ty = r[3]
            if "Pointer" in r[1] or "Unsize" in r[1] or "Transmute" in r[1] or "PtrToPtr" in r[1]:
                if ty in INT_TYPES and v.op not in ("int",):
                    return mk("cast", v, ty)
                return v
            if "IntToInt" in r[1] or "IntToFloat" in r[1] or "FloatToInt" in r[1] or "FloatToFloat" in r[1]:
                if v.op == "int" and "IntToInt" in r[1]:
                    return integer(wrap_int(v.a[0], ty))
                return models.int_cast(v, self.operand_type(fn, r[2]), ty)
            if v.op == "int":
                return v
            return mk("cast", v, ty)
        if k == "bin":
            ty = self.operand_type(fn, r[2])
            a = self.operand(st, fid, r[2], fn)
            b = self.operand(st, fid, r[3], fn)
            return self.binop(r[1], a, b, st, ty)
        if k == "un":
            v = self.operand(st, fid, r[2], fn)
            if r[1] == "Not" and (v.op in ("bool", "eq", "lt", "not", "and", "is", "fle")
                                  or self.operand_type(fn, r[2]) == "bool"):
                return not_(v)
            if r[1] == "Neg" and v.op == "int":
                return integer(-v.a[0])
            if r[1] == "PtrMetadata":
                return models.length(self.resolve(st, v))
            return mk("un", r[1], v)
        if k == "discr":
            root, path = self.place(st, fid, r[1])
            v = self.resolve_top(st, self.read(st, root, path))
            if r[2]:
                vs = tuple(x[1] for x in r[3])
                if vs:
                    _t.VARIANTS.setdefault(r[2], vs)
            kv = known_variant(v)
            table = {val: name for val, name in r[3]}
            if kv is not None:
                for val, name in r[3]:
                    if name == kv:
                        return integer(int(val))
            return mk("discr", v, r[2], tuple(sorted(table.items())))
        if k == "agg":
            vals = [self.operand(st, fid, o, fn) for o in r[2]]
            kind = r[1]
            if kind[0] == "tuple":
                return tup(*vals)
            if kind[0] == "array":
                return agg("array", None, [str(i) for i in range(len(vals))], vals)
            if kind[0] == "adt":
                return agg(kind[1], kind[2], kind[3], vals)
            if kind[0] in ("closure", "coroutine", "coroutine_closure"):
                names = kind[2] if len(kind[2]) == len(vals) else [str(i) for i in range(len(vals))]
                names = list(names)
                return agg((kind[0], kind[1]), None, names, vals)
            return tup(*vals)
        if k == "repeat":
            return mk("call", "repeat", (self.operand(st, fid, r[1], fn), string(r[2])), 0)
        if k == "tls":
            return sym("static:" + r[1])
        return mk("sym", "other:" + re.sub(r"_\d+|alloc\d+", "", str(r[1])))

    def resolve_top(self, st, v):
        return v

    # ------------------------------------------------------------------ events
    def emit(self, st, kind, path, args, line, fn, extra=None, res=None):
        st.trace = st.trace + (Event(kind, short(path), path, tuple(args), res, line, fn, extra),)

    def occurrence(self, st, path, args):
        k = (path, args)
        n = st.cnt.get(k, 0) + 1
        st.cnt[k] = n
        return n

    # ------------------------------------------------------------------ functions
    def run(self, fn, args=None, facts=None, init=None):
        """Exits of fn called with symbolic arguments."""
        st = State()
        if init:
            init(st)
        if args is None:
            args = [self.arg(fn, i) for i in range(1, fn.argc + 1)]
        for f, v in (facts or {}).items():
            st.facts[f] = v
        outs = self.exec_fn(st, fn, args, ())
        if fn.kind in ("fn",):
            outs = self.split_bool(outs)
        return self.merge_exits(outs)

    def run_async(self, fn, **kw):
        """Exits of an async fn's body: what is true once the returned future completes."""
        outs = []
        for o in self.run(fn, **kw):
            if o.kind != "ret" or o.ret.op != "agg" or not isinstance(o.ret.a[0], tuple):
                outs.append(o)
                continue
            outs.extend(self.poll_coroutine(o.state, o.ret, (("async",),)))
        return self.merge_exits(self.split_bool(outs))

    def poll_coroutine(self, st, value, fid):
        body = self.p.fns.get(value.a[0][1])
        if body is None:
            raise KeyError(value.a[0][1])
        return self.exec_fn(st, body, [value, sym("cx")], fid)

    def arg(self, fn, i):
        t = sym("self" if fn.locals[i][1] == "self" else f"${i}")
        if fn.locals[i][0] in UNSIGNED:
            NONNEG.add(t)
        return t

    def split_bool(self, outs):
        res = []
        for o in outs:
            if o.kind == "ret" and o.ret is not None and o.ret.op in ("eq", "lt", "not", "and", "is", "fle"):
                for b, s in self.branch(o.state, o.ret):
                    res.append(Exit("ret", boolean(b), s))
            else:
                res.append(o)
        return res

    def merge_exits(self, outs):
        groups = {}
        for o in outs:
            key = (o.kind, o.ret, o.why, o.state.trace, frozenset((r, v) for r, v in o.state.store.items() if r[0] == "H"))
            groups.setdefault(key, []).append(o)
        res = []
        for g in groups.values():
            for s in self.reduce([o.state for o in g]):
                res.append(Exit(g[0].kind, g[0].ret, s, g[0].why))
        return res

    def reduce(self, states):
        """Merges states that differ in one condition only."""
        if len(states) == 1:
            return states
        cubes = {}
        for s in states:
            cubes[frozenset(s.facts.items())] = s
        changed = True
        while changed and len(cubes) > 1:
            changed = False
            keys = sorted(cubes, key=len)
            for c in keys:
                if c not in cubes:
                    continue
                # absorption
                for d in list(cubes):
                    if d is not c and d != c and c < d:
                        del cubes[d]
                        changed = True
                for lit in c:
                    other = (c - {lit}) | {(lit[0], not lit[1])}
                    if other in cubes and other != c:
                        m = c - {lit}
                        s = cubes.pop(c)
                        cubes.pop(other)
                        s = s.copy()
                        del s.facts[lit[0]]
                        cubes[m] = s
                        changed = True
                        break
                if changed:
                    break
                r = self.merge_variants(cubes, c)
                if r:
                    changed = True
                    break
        return list(cubes.values())

    def merge_variants(self, cubes, c):
        """{x is A}, {x is B}, ... over every variant of x's type is no condition."""
        for k, v in c:
            if k.op == "is" and v:
                adt = models.ADT_OF.get(k.a[0])
                vs = _t.VARIANTS.get(adt)
                if not vs or len(vs) < 3:
                    continue
                rest = c - {(k, v)}
                others = [rest | {(mk("is", k.a[0], w), True)} for w in vs]
                if all(o in cubes for o in others):
                    s = cubes[c]
                    for o in others:
                        del cubes[o]
                    s = s.copy()
                    del s.facts[k]
                    cubes[rest] = s
                    return True
        return False

    def exec_fn(self, st, fn, args, fid, const=False):
        if len(fid) > self.c.depth:
            raise Budget(f"call depth at {fn.id}")
        self.functions.add(fn.id)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[("L", fid, i + 1)] = a
        exits, leaves = self.region(fn, fid, set(fn.cfg.order), 0, [st], None)
        assert not leaves
        out = []
        for o in exits:
            s = o.state
            s = State({r: v for r, v in s.store.items() if not (r[0] == "L" and r[1] == fid)} if not const else s.store,
                      s.facts, s.trace, s.cnt)
            out.append(Exit(o.kind, o.ret, s, o.why))
        return self.merge_exits_full(out)

    def merge_exits_full(self, outs):
        if len(outs) <= 1:
            return outs
        groups = {}
        for o in outs:
            key = (o.kind, o.ret, o.why, o.state.trace, frozenset(o.state.store.items()))
            groups.setdefault(key, []).append(o)
        res = []
        for g in groups.values():
            for s in self.reduce([o.state for o in g]):
                res.append(Exit(g[0].kind, g[0].ret, s, g[0].why))
        return res

    def prune(self, st, fn, fid, b):
        live = fn.cfg.live[b]
        dead = [r for r in st.store if r[0] == "L" and r[1] == fid and r[2] not in live]
        if dead:
            st = State({r: v for r, v in st.store.items() if r not in set(dead)}, st.facts, st.trace, st.cnt)
        return st

    def merge_states(self, states):
        if len(states) == 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault((s.trace, frozenset(s.store.items())), []).append(s)
        out = []
        for g in groups.values():
            out.extend(self.reduce(g))
        return out

    def region(self, fn, fid, blocks, entry, states, header):
        """Runs the blocks from entry.  Returns (exits, [(target, state)] leaving the region or
        returning to `header`)."""
        cfg = fn.cfg
        rpo = cfg.rpo
        pending = {entry: list(states)}
        exits, leaves = [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            sts = pending.pop(b)
            if b not in blocks or (b == header and not first):
                leaves.extend((b, s) for s in sts)
                continue
            sts = self.merge_states([self.prune(s, fn, fid, b) for s in sts])
            if b in cfg.loops and b != header:
                for s in sts:
                    ex, lv = self.loop(fn, fid, b, s)
                    exits.extend(ex)
                    for t, s2 in lv:
                        pending.setdefault(t, []).append(s2)
                first = False
                continue
            first = False
            if len(sts) > self.c.width:
                raise Budget(f"{len(sts)} states at {fn.id} bb{b}")
            for s in sts:
                self.steps += 1
                if self.steps > self.c.budget:
                    raise Budget(f"steps in {fn.id}")
                for t, s2 in self.block(fn, fid, b, s, exits):
                    pending.setdefault(t, []).append(s2)
        return exits, leaves

    # ------------------------------------------------------------------ loops
    def loop(self, fn, fid, h, st):
        body = fn.cfg.loops[h]

        def run(states):
            exits, leaves = self.region(fn, fid, body, h, states, h)
            back = [self.prune(s, fn, fid, h) for t, s in leaves if t == h]
            out = [(t, s) for t, s in leaves if t != h]
            return (exits, out), back

        names = {}
        for i, l in enumerate(fn.locals):
            if l[1]:
                names[("L", fid, i)] = l[1]
        loopid = (fn.id, fid, h)
        entry = self.prune(st, fn, fid, h)
        un = self.unroll(entry, run)
        if un is not None:
            return un
        exits, leaves = self.fixpoint(st, run, loopid, names, entry)
        rec = self.loops[self.nloop_last[loopid]]
        leaves = [(t, self.exhausted(s, rec, loopid)) for t, s in leaves]
        exits = [Exit(o.kind, o.ret, self.exhausted(o.state, rec, loopid), o.why) for o in exits]
        return exits, leaves

    def unroll(self, entry, run):
        """A loop over the elements of a known array, one iteration at a time."""
        n = 0
        for r, v in entry.store.items():
            if v.op == "iter" and r[0] == "L" and isinstance(v.a[1], int) and v.a[0].op == "agg" and v.a[0].a[0] == "array":
                n = max(n, len(v.a[0].a[3]) - v.a[1])
        known = [v for r, v in entry.store.items() if v.op == 'iter' and r[0] == 'L' and v.a[0].op == 'agg' and v.a[0].a[0] == 'array'
                 and isinstance(v.a[1], int)]
        if not known or n > 12:
            return None
        saved = self.nloop, dict(self.loops)
        states, exits, leaves = [entry.copy()], [], []
        for _ in range(n + 1):
            (ex, lv), back = run(states)
            exits += ex
            leaves += lv
            states = self.merge_states(back)
            if not states:
                return exits, leaves
            if len(states) > 64:
                break
        self.nloop, self.loops = saved
        return None

    def exhausted(self, s, rec, loopid):
        """State after the loop ran out of items: collections hold what every iteration added."""
        key = ("X", loopid)
        if key not in s.store:
            return s
        s = s.copy()
        del s.store[key]
        s.trace = s.trace + (Event("done", "done", "done", (), None, None, loopid[0], self.nloop_last[loopid]),)
        if rec.solutions:
            for r, v in list(s.store.items()):
                s.store[r] = subst(v, rec.solutions)
        return s

    def fixpoint(self, st, run, loopid, names, entry=None, name="for", src=None):
        """Widens the entry state until one abstract iteration adds nothing; `run(states)` gives
        (result, states at the back edge)."""
        entry = (entry or st).copy()
        self.nloop += 1
        uid = self.nloop
        self.nloop_last[loopid] = uid
        rec = Loop(name)
        self.loops[uid] = rec
        base_facts = {k: v for k, v in entry.facts.items() if not self.mentions(k, loopid)}
        entry.facts = base_facts
        entry.trace = entry.trace + (Event("loop", name, "loop", (), None, None, loopid[0], uid),)
        n0 = len(entry.trace)
        headers = {self.loop_key(entry): entry.copy()}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Budget(f"loop fixpoint in {loopid[0]}")
            result, back = run([h.copy() for h in headers.values()])
            back = self.merge_states(back)
            changed = False
            for b in back:
                k = self.loop_key(b)
                if k not in headers and len(headers) >= 8:
                    k = next(iter(headers))
                if k not in headers:
                    h = b.copy()
                    h.facts, h.trace, h.cnt = dict(base_facts), entry.trace, dict(entry.cnt)
                    # generalise what may keep changing, relative to the entry state
                    for r in set(entry.store) | set(b.store):
                        old = self.get(entry, r)
                        new = self.get(b, r)
                        if old is not new:
                            w = self.widen(old, new, loopid, self.root_name(r, names), finite=True)
                            h.store[r] = w
                    headers[k] = h
                    changed = True
                    continue
                h = headers[k]
                for r in set(h.store) | set(b.store):
                    old = self.get(h, r)
                    new = self.get(b, r)
                    if old is not new:
                        w = self.widen(old, new, loopid, self.root_name(r, names), finite=False)
                        if w is not old:
                            h.store[r] = w
                            changed = True
            if not changed:
                break
        rec.iters = [(b.trace[n0:], b) for b in back]
        rec.prefix = n0
        rec.entry = entry
        rec.vars = self.carried(headers, back, loopid, entry)
        rec.solutions = self.solve(headers, back, loopid, entry, base_facts, src, rec)
        return result

    def carried(self, headers, back, loopid, entry):
        """phi -> (its values before the loop, its value at the end of each iteration in order)."""
        out = {}

        def walk(x, y, put):
            if x.op == "phi" and x.a[0] == loopid:
                put(x, y)
            elif x.op == "agg" and y.op == "agg" and x.a[:3] == y.a[:3]:
                for u, v in zip(x.a[3], y.a[3]):
                    walk(u, v, put)
            elif x.op == "upd":
                for k, u in x.a[1]:
                    walk(u, fld(y, k), put)

        for h in headers.values():
            for r, x in h.store.items():
                walk(x, self.get(entry, r), lambda k, v: out.setdefault(k, ([], {}))[0].append(v))
                for n, b in enumerate(back):
                    walk(x, self.get(b, r), lambda k, v: out.setdefault(k, ([], {}))[1].__setitem__(n, v))
        return out

    @staticmethod
    def another(st, f):
        """The state knows that what f says to be one variant is another."""
        return f.op == "is" and any(v and k.op == "is" and k.a[0] is f.a[0] and k.a[1] != f.a[1] for k, v in st.facts.items())

    def solve(self, headers, back, loopid, entry, base, src, rec):
        """phi -> the sequence a collection holds once every item of the loop's source was seen."""
        if len(headers) != 1:
            return {}
        h = next(iter(headers.values()))
        if src is None:
            its = {(v.a[0], v.a[2]) for r, v in h.store.items() if v.op == "iter" and v.a[1] == ("*", loopid)
                   and self.get(entry, r).op == "iter" and self.get(entry, r).a[1] == 0}
            if len(its) != 1:
                return {}
            src = next(iter(its))[0]
        rec.src = rec.src or src
        vals, start = {}, {}

        def walk(x, y, st, into):
            if x.op == "phi" and x.a[0] == loopid:
                into.setdefault(x, []).append((y, st))
            elif x.op == "agg" and y.op == "agg" and x.a[:3] == y.a[:3]:
                for u, v in zip(x.a[3], y.a[3]):
                    walk(u, v, st, into)
            elif x.op == "upd":
                for k, u in x.a[1]:
                    walk(u, fld(y, k), st, into)

        for r, x in h.store.items():
            for b in back:
                walk(x, self.get(b, r), b, vals)
            walk(x, self.get(entry, r), entry, start)
        out = {}
        ren = {mk("item", src, ("*", loopid)): seq_item(src)}
        for P, lst in vals.items():
            if len(start.get(P, ())) != 1 or len(lst) != len(back):
                continue
            put = {merged_into(v, P, ren, seq_item(src)) for v, _ in lst}
            if len(put) == 1 and None not in put:
                # Every item is inserted: what the map held, overridden by the items.
                out[P] = mk("call", "collect:" + next(iter(put)), (mkseq([mk("all", start[P][0][0]), mk("all", src)]),), 0)
                continue
            cases, good, seen, kind = [], True, None, None
            skips = [b for v, b in lst if v is P]
            for v, b in lst:
                if v is P:
                    continue
                more = grown(v, P)
                if more is not None and kind in (None, more[0]):
                    kind, v = more[0], mkseq([mk("all", P), *more[1]])
                elif kind is not None:
                    good = False
                    break
                ps = parts_of(v)
                if v.op != "seq" or ps[0] is not mk("all", P) or any(P in subterms(x) for x in ps[1:]):
                    good = False
                    break
                g = [(f, t) for f, t in b.facts.items() if f not in base]
                ins = [(f, t) for f, t in g if t and f.op == "call" and f.a[0].endswith(("HashSet::insert", "BTreeSet::insert"))
                       and f.a[1] and f.a[1][0].op == "phi" and f.a[1][0].a[0] == loopid]
                if ins:
                    if len(ins) != 1 or seen not in (None, ins[0][0]):
                        good = False
                        break
                    seen = ins[0][0]
                    g = [x for x in g if x[0] is not seen]
                if seen is None and any(not any(k.facts.get(f) is (not t) or t and self.another(k, f) for f, t in g) for k in skips):
                    # An item these conditions let through can also be left out: for a reason not expressed in them.
                    g.append((mk("call", "sometimes", (src,), 0), True))
                g = tuple(sorted(((subst(f, ren), t) for f, t in g), key=lambda kv: (show(kv[0]), kv[1])))
                cases.append((g, tuple(subst(x, ren) for x in ps[1:])))
            if not good or not cases:
                continue
            e = each(src, cases)
            if kind is not None:
                s0 = start[P][0][0]
                fresh = re.search(r"^\w+::(new|with_capacity)\(|^default\(", show(s0))
                if seen is None and not any(x.op == "phi" and x.a[0] == loopid for x in subterms(e)):
                    out[P] = mk("call", kind, (mkseq([e] if fresh else [mk("all", s0), e]),), 0)
                continue
            if seen is not None:
                s0 = start.get(seen.a[1][0])
                if len(cases) != 1 or cases[0][1] != (mk("one", seq_item(src)),) or not s0 or not re.search(
                        r"^\w+::(new|with_capacity)\(|^default\(", show(s0[0][0])):
                    continue
                inner = mkseq([e])
                key = subst(subst(seen.a[1][1], ren), {seq_item(src): seq_item(inner)})
                e = mk("all", unique_by(inner, key))
            out[P] = mkseq(parts_of(start[P][0][0]) + (e,))
        return out

    def get(self, st, r):
        v = st.store.get(r)
        if v is None:
            v = r[1] if r[0] == "H" else UNINIT
        return v

    def root_name(self, r, names):
        if r in names:
            return names[r]
        if r[0] == "H":
            return "*" + show(r[1])
        return f"_{r[2]}" if len(r) > 2 else "_"

    def loop_key(self, st):
        """Finite-valued part of the state: flags and enum variants of locals."""
        out = []
        for r, v in st.store.items():
            if v.op == "bool":
                out.append((str(r) if r[0] == "L" else show(r[1]), v.a[0]))
            elif v.op == "agg" and v.a[1] is not None and r[0] == "L":
                out.append((str(r), v.a[1]))
            elif v.op in ("moved", "uninit"):
                out.append((str(r) if r[0] == "L" else show(r[1]), v.op))
        return tuple(sorted(out))

    def widen(self, old, new, loopid, name, finite):
        if old is new:
            return old
        if old.op == "phi" and old.a[0] == loopid:
            return old
        if finite and (new.op in ("bool", "moved", "uninit")):
            return new
        if old.op == "iter" and new.op == "iter" and old.a[0] is new.a[0] and old.a[2] == new.a[2]:
            return mk("iter", old.a[0], ("*", loopid), old.a[2])
        if old.op == "agg" and new.op == "agg" and old.a[:3] == new.a[:3]:
            vals = tuple(
                self.widen(x, y, loopid, f"{name}.{n}", finite) for n, x, y in zip(old.a[2], old.a[3], new.a[3])
            )
            return mk("agg", old.a[0], old.a[1], old.a[2], vals)
        if finite and new.op == "agg" and new.a[1] is not None:
            vals = tuple(mk("phi", loopid, f"{name}?{new.a[1]}.{n}") for n in new.a[2])
            return mk("agg", new.a[0], new.a[1], new.a[2], vals)
        if old.op == "upd" or new.op == "upd":
            b1, m1 = (old.a[0], dict(old.a[1])) if old.op == "upd" else (old, {})
            b2, m2 = (new.a[0], dict(new.a[1])) if new.op == "upd" else (new, {})
            if b1 is b2 and not any(isinstance(k, tuple) for k in list(m1) + list(m2)):
                m = {}
                for k in set(m1) | set(m2):
                    x = m1.get(k) or fld(b1, k)
                    y = m2.get(k) or fld(b2, k)
                    m[k] = self.widen(x, y, loopid, f"{name}.{k}", finite)
                return mk("upd", b1, tuple(sorted(m.items(), key=lambda kv: str(kv[0]))))
        return mk("phi", loopid, name)

    def mentions(self, t, loopid):
        for x in subterms(t):
            if x.op == "phi" and x.a[0] == loopid:
                return True
            if x.op in ("item", "iter") and isinstance(x.a[1], tuple) and x.a[1][1] == loopid:
                return True
        return False

    # ------------------------------------------------------------------ blocks
    def block(self, fn, fid, b, st, exits):
        stmts, t, _ = fn.blocks[b]
        st = st.copy()
        for s in stmts:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fid, s[2], fn, s[3])
                p = s[1]
                if not p[1]:
                    st.store[("L", fid, p[0])] = v
                else:
                    root, path = self.place(st, fid, p)
                    self.write(st, root, path, v)
            elif k == "dead":
                st.store.pop(("L", fid, s[1]), None)
            elif k == "setdiscr":
                pass
        k = t[0]
        if k == "goto":
            return [(t[1], st)] if t[1] is not None else []
        if k == "ret":
            v = st.store.get(("L", fid, 0), UNIT)
            exits.append(Exit("ret", v, st))
            return []
        if k == "switch":
            return self.switch(fn, fid, st, t)
        if k == "call":
            return self.call_term(fn, fid, b, st, t, exits)
        if k == "drop":
            return self.drop_term(fn, fid, b, st, t, exits)
        if k == "assert":
            if self.c.asserts:
                c = self.operand(st, fid, t[1], fn, consume=False)
                f = c if t[2] else not_(c)
                out = [(t[4], s) for s in self.assume(st, f, True)]
                for s in self.assume(st, f, False):
                    exits.append(Exit("panic", None, s, "assert " + t[3]))
                return out
            return [(t[4], st)]
        if k == "yield":
            return []
        return []

    def switch(self, fn, fid, st, t):
        v = self.operand(st, fid, t[1], fn, consume=False)
        cases, other, ty = t[2], t[3], t[4]
        if v.op == "discr":
            x, adt, table = v.a
            names = dict(table)
            models.ADT_OF.setdefault(x, adt)
            out = []
            left = [names[val] for val in names]
            cur = [st]
            for val, b in cases:
                name = names.get(val)
                f = is_(x, name, adt)
                for s in cur:
                    out.extend((b, s2) for s2 in self.assume(s, f, True))
                if name in left:
                    left.remove(name)
            if left:
                # the remaining variants share one target
                if len(left) == 1:
                    f = is_(x, left[0], adt)
                    for s in cur:
                        out.extend((other, s2) for s2 in self.assume(s, f, True))
                else:
                    for s in cur:
                        ss = [s]
                        for val, b in cases:
                            ss = [s3 for s2 in ss for s3 in self.assume(s2, is_(x, names.get(val), adt), False)]
                        out.extend((other, s2) for s2 in ss)
            return out
        if ty == "bool":
            out = []
            fb = None
            for val, b in cases:
                if val == "0":
                    fb = b
                else:
                    for s in self.assume(st, v, True):
                        out.append((b, s))
            if fb is not None:
                out.extend((fb, s) for s in self.assume(st, v, False))
                out.extend((other, s) for s in self.assume(st, v, True))
            return out
        out = []
        cur = [st]
        if v.op == "int":
            for val, b in cases:
                if int(val) == v.a[0] or (v.a[0] < 0 and int(val) in (v.a[0] + 2**8, v.a[0] + 2**16, v.a[0] + 2**32, v.a[0] + 2**64)):
                    return [(b, st)]
            return [(other, st)]
        for val, b in cases:
            c = integer(int(val)) if ty != "char" else string(chr(int(val)))
            f = eq(v, c)
            nxt = []
            for s in cur:
                out.extend((b, s2) for s2 in self.assume(s, f, True))
                nxt.extend(self.assume(s, f, False))
            cur = nxt
        out.extend((other, s) for s in cur)
        return out

    # ------------------------------------------------------------------ drops
    def drop_term(self, fn, fid, b, st, t, exits):
        root, path = self.place(st, fid, t[1])
        v = self.read(st, root, path)
        ty = t[3]
        outs = self.drop_value(st, v, ty, fn, t[4], fid + ((fn.d, b),), exits, (root, path))
        for s in outs:
            if not path and root[0] == "L":
                s.store[root] = MOVED
        return [(t[2], s) for s in outs]

    def drop_value(self, st, v, ty, fn, line, fid, exits, where=None):
        if v.op in ("moved", "uninit", "int", "bool", "str", "ref", "float"):
            return [st]
        g = models.guard_release(v, ty)
        if g:
            st = st.copy()
            self.emit(st, g, g, (v,), line, fn.id)
            return [st]
        d = self.drop_impl(ty)
        if d is not None:
            root, path = where if where else (("L", fid, "drop"), ())
            st = st.copy()
            if where is None:
                st.store[root] = v
            if any(x.search(ty) for x in self.c.drops):
                self.emit(st, "drop", "drop:" + ty, (self.resolve(st, v),), line, fn.id)
                return [st]
            outs = []
            for o in self.exec_fn(st, d, [ref(root, path, True)], fid + (("drop",),)):
                if o.kind == "ret":
                    outs.append(o.state)
                else:
                    exits.append(o)
            return outs
        if any(x.search(ty) for x in self.c.drops):
            st = st.copy()
            self.emit(st, "drop", "drop:" + ty, (self.resolve(st, v),), line, fn.id)
            return [st]
        if v.op == "agg":
            sts = [st]
            for n, x in zip(v.a[2], v.a[3]):
                if x.op in ("moved", "int", "bool", "str", "ref"):
                    continue
                t2 = models.field_type(self.p, v, n, ty)
                if t2:
                    sts = [s2 for s in sts for s2 in self.drop_value(s, x, t2, fn, line, fid + (n,), exits)]
            return sts
        return [st]

    def drop_impl(self, ty):
        base = strip(ty) if not ty.startswith(("&", "(", "[", "{", "impl", "dyn", "std::", "core::")) else None
        if base is None:
            return None
        table = getattr(self.p, "_drops", None)
        if table is None:
            table = self.p._drops = {}
            for i in self.p.impls:
                if i["trait"].endswith("ops::Drop"):
                    for n, path in i["items"]:
                        if n == "drop" and path in self.p.by_id:
                            table[strip(i["self"])] = self.p.by_id[path]
        return table.get(base)

    # ------------------------------------------------------------------ calls
    def call_term(self, fn, fid, b, st, t, exits):
        _, fo, ao, dest, target, line, mac, dty = t
        func = self.operand(st, fid, fo, fn)
        args = [self.operand(st, fid, a, fn) for a in ao]
        if mac and LOGGING.search(mac) and not self.c.logs:
            if target is None:
                return []
            v = FALSE if dty == "bool" else UNIT if dty == "()" else sym("log")
            self.assign(st, fid, dest, v)
            return [(target, st)]
        argtys = [self.operand_type(fn, a) for a in ao]
        self.calls += 1
        ctx = Call(self, fn, fid + ((fn.d, b),), line, mac, dty, argtys, target is None)
        outs = []
        for o in self.call(st, func, args, ctx):
            if o.kind == "ret":
                if target is None:
                    continue
                s = o.state if o.state is not st else o.state.copy()
                self.assign(s, fid, dest, o.ret)
                if dty in UNSIGNED:
                    NONNEG.add(o.ret)
                outs.append((target, s))
            else:
                if o.kind == "panic" and mac and (DEBUG_ASSERT.search(mac) or "select" in mac):
                    continue
                exits.append(o)
        return outs

    def assign(self, st, fid, dest, v):
        if not dest[1]:
            st.store[("L", fid, dest[0])] = v
        else:
            root, path = self.place(st, fid, dest)
            self.write(st, root, path, v)

    def call(self, st, func, args, ctx):
        """Exits of calling func(args)."""
        func = self.strip_ref(st, func)
        if func.op == "agg" and isinstance(func.a[0], tuple):
            return self.invoke(st, func, args, ctx)
        if func.op != "fnref":
            # a function pointer held in a value
            return self.opaque(st, "call:" + show(self.resolve(st, func)), args, ctx)
        f = json.loads(func.a[1])
        path = strip_generics(f["p"])
        rpath = f.get("r")
        canon = self.p.fns.get(f.get("rd"))
        if canon is not None and canon.kind != "std":
            rpath = canon.id
        for key in (path, short(path)):
            m = self.c.model.get(key)
            if m is not None:
                r = m(self, st, f, args, ctx)
                if r is not None:
                    return r
        force = rpath and any(x.search(rpath) for x in self.c.inline)
        if any(x.search(path) or (rpath and x.search(rpath)) for x in self.c.silent):
            return self.pure(st, path, args, ctx)
        opaque = any(x.search(path) or (rpath and x.search(rpath)) for x in self.c.opaque)
        if opaque and not force:
            if any(x.search(path) or (rpath and x.search(rpath)) for x in self.c.pure):
                return self.pure(st, path, args, ctx)
            return self.opaque(st, self.event_path(f), args, ctx)
        m = models.lookup(path, f)
        if m is not None:
            r = m(self, st, f, args, ctx)
            if r is not None:
                return r
        rd = f.get("rd")
        body = self.p.fns.get(rd) if rd else None
        if body is None and path in self.c.virt:
            body = self.p.by_id.get(self.c.virt[path])
        if body is None and rd is None and "tr" in f:
            body = self.devirtualise(st, f, args)
        if f.get("ctor"):
            return [Exit("ret", models.construct(f, args), st)]
        if any(x.search(path) or (rpath and x.search(rpath)) for x in self.c.pure):
            return self.pure(st, path, args, ctx)
        if body is not None and body.kind in ("fn", "std"):
            active = sum(1 for k in ctx.fid if isinstance(k, tuple) and len(k) == 2 and k[0] == body.d)
            if active < (4 if body.kind == "std" else 1):
                return self.exec_fn(st, body, args, ctx.fid)
            return self.opaque(st, self.event_path(f), args, ctx)  # recursion: one call event
        if models.is_pure(path):
            return self.pure(st, path, args, ctx)
        return self.opaque(st, self.event_path(f), args, ctx)

    def devirtualise(self, st, f, args):
        """The impl a trait call resolves to when the receiver is a value built here."""
        if not args:
            return None
        v = args[0]
        for _ in range(4):
            if v.op == "ref":
                v = self.read(st, v.a[0], v.a[1])
        tag = v.a[0] if v.op == "agg" else None
        if not isinstance(tag, str):
            return None
        table = getattr(self.p, "_impls", None)
        if table is None:
            table = self.p._impls = {}
            for i in self.p.impls:
                for n, path in i["items"]:
                    k = (i["trait"], strip(i["self"]).split("::")[-1], n)
                    table[k] = None if k in table else path  # several impls (trait parameters): not decided here
        m = f["p"].split("::")[-1]
        path = table.get((f["tr"], tag.split("::")[-1], m))
        return self.p.by_id.get(path) if path else None

    def event_path(self, f):
        return strip_generics(f["p"])

    def strip_ref(self, st, v):
        n = 0
        while v.op == "ref" and n < 6:
            v = self.read(st, v.a[0], v.a[1])
            n += 1
        return v

    def pure(self, st, path, args, ctx):
        vals = tuple(self.resolve(st, a) for a in args)
        if ctx.diverges:
            return [Exit("panic", None, st, short(path))]
        return [Exit("ret", mk("call", path, vals, 0), st)]

    def opaque(self, st, path, args, ctx, name=None):
        """An event: order, arguments and occurrence are kept; &mut arguments become unknown."""
        if ctx.diverges:
            st = st.copy()
            if PANICS.search(path):
                return [Exit("panic", None, st, short(path))]
            vals = tuple(self.view(st, a) for a in args)
            self.emit(st, "call", path, vals, ctx.line, ctx.fn.id)
            return [Exit("diverge", None, st, short(path))]
        closures = [a for a in args if self.closure_of(st, a) is not None]
        if closures:
            st = self.may_call(st, path, closures, ctx)
            if st is None:
                return []
        else:
            st = st.copy()
        vals = tuple(self.view(st, a) for a in args)
        occ = self.occurrence(st, path, vals)
        res = mk("call", path, vals, occ)
        self.emit(st, "call", path, vals, ctx.line, ctx.fn.id, res=res)
        for i, a in enumerate(args):
            ty = ctx.argtys[i] if i < len(ctx.argtys) else None
            self.havoc(st, a, ty, res, i)
        if ctx.dty == "()":
            return [Exit("ret", UNIT, st)]
        return [Exit("ret", res, st)]

    def havoc(self, st, a, ty, res, i, depth=0):
        if a.op == "ref" and a.a[2]:
            if a.a[0][0] == "L" and self.read(st, a.a[0], a.a[1]).op in ("ref",):
                return self.havoc(st, self.read(st, a.a[0], a.a[1]), None, res, i, depth + 1)
            self.write(st, a.a[0], a.a[1], mk("upd_by", res, i))
        elif a.op == "agg" and depth < 3:
            for n, x in zip(a.a[2], a.a[3]):
                if x.op == "ref" and x.a[2]:
                    self.havoc(st, x, None, res, f"{i}.{n}", depth + 1)
        elif ty and ty.startswith("&mut") and a.op not in ("ref",):
            self.write(st, ("H", a), (), mk("upd_by", res, i))

    def closure_of(self, st, a):
        v = self.strip_ref(st, a)
        if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "closure":
            return v
        return None

    def may_call(self, st, path, closures, ctx):
        """A function we do not follow may call its closures any number of times."""
        for n, c in enumerate(closures):
            body = self.p.fns.get(self.closure_of(st, c).a[0][1])
            if body is None:
                continue
            cargs = [mk("carg", short(path), n, i) for i in range(body.argc - 1)]

            def run(states, c=c, cargs=cargs):
                back = []
                for s in states:
                    for o in self.invoke(s, c, [tup(*cargs)], ctx, extra=("hof", n)):
                        if o.kind == "ret":
                            o.state.store[("L", ctx.fid + ("hofret",), 0)] = o.ret
                            back.append(o.state)
                return None, back

            holder = {}

            def run2(states):
                r, back = run(states)
                holder["hdr"] = states
                rec = []
                for b in back:
                    ret = b.store.pop(("L", ctx.fid + ("hofret",), 0))
                    rec.append((b, ret))
                holder["rets"] = rec
                return None, back

            self.fixpoint(st, run2, (short(path), ctx.fid, "hof" + str(n)), {}, name=short(path))
            hdr = holder["hdr"]
            self.loops[self.nloop_of(hdr[0])].rets = holder["rets"]
            # after: zero or more calls
            st = hdr[0].copy()
            if len(hdr) > 1:
                # keep only what every header agrees on
                for h in hdr[1:]:
                    for r in list(st.store):
                        if self.get(h, r) is not st.store[r]:
                            st.store[r] = mk("phi", (short(path), ctx.fid, "hof"), self.root_name(r, {}))
        return st

    def nloop_of(self, st):
        for e in reversed(st.trace):
            if e.kind == "loop":
                return e.extra
        raise KeyError

    def invoke(self, st, func, args, ctx, extra=()):
        """Calls a closure or function value; args is [tuple of arguments] or the arguments."""
        f = self.strip_ref(st, func)
        if len(args) == 1 and args[0].op == "agg" and args[0].a[0] == "tuple":
            args = list(args[0].a[3])
        if f.op == "agg" and isinstance(f.a[0], tuple):
            body = self.p.fns.get(f.a[0][1])
            if body is None:
                return self.opaque(st, "call:" + f.a[0][1], args, ctx)
            self_arg = func
            s = st
            if func.op != "ref":
                s = st.copy()
                root = ("L", ctx.fid + ("env",) + tuple(extra), 0)
                s.store[root] = func
                self_arg = ref(root, (), True) if body.locals[1][0].startswith("&") else func
            outs = self.exec_fn(s, body, [self_arg] + args, ctx.fid + ((body.d, "call"),) + ((tuple(extra),) if extra else ()))
            return outs
        if f.op == "fnref":
            return self.call(st, f, args, ctx)
        return self.opaque(st, "call:" + show(self.resolve(st, f)), args, ctx)


class Call:
    __slots__ = ("e", "fn", "fid", "line", "mac", "dty", "argtys", "diverges")

    def __init__(self, e, fn, fid, line, mac, dty, argtys, diverges):
        self.e, self.fn, self.fid, self.line, self.mac, self.dty = e, fn, fid, line, mac, dty
        self.argtys, self.diverges = argtys, diverges


UNSIGNED = {"u8", "u16", "u32", "u64", "u128", "usize"}
INT_TYPES = UNSIGNED | {"i8", "i16", "i32", "i64", "i128", "isize"}


def wrap_int(n, ty):
    bits = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}.get(ty[1:])
    if not bits:
        return n
    n &= (1 << bits) - 1
    if ty[0] == "i" and n >> (bits - 1):
        n -= 1 << bits
    return n


_sg = {}


def strip_generics(p):
    r = _sg.get(p)
    if r is None:
        r = _sg[p] = strip(p)
    return r
