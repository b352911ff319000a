"""Hash-consed value terms: the abstract values of the analysis (where a value came from)."""


class T:
    __slots__ = ("op", "a", "_m")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._m = None

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = T(op, a)
    return t


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("agg", "tuple", None, (), ())
MOVED = mk("moved")
UNINIT = mk("uninit")


def boolean(b):
    return TRUE if b else FALSE


def integer(n):
    return mk("int", n)


def string(s):
    return mk("str", s)


def sym(n):
    return mk("sym", n)


def agg(tag, variant, names, vals):
    return mk("agg", tag, variant, tuple(names), tuple(vals))


def tup(*vals):
    return agg("tuple", None, [str(i) for i in range(len(vals))], vals)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
POLL = "std::task::Poll"


def some(v):
    return agg(OPTION, "Some", ("0",), (v,))


NONE = agg(OPTION, "None", (), ())


def ok(v):
    return agg(RESULT, "Ok", ("0",), (v,))


def err(v):
    return agg(RESULT, "Err", ("0",), (v,))


def ref(root, path=(), mut=False):
    return mk("ref", root, tuple(path), mut)


# ---- enums: variants by ADT path, and variants of named types seen in switches
VARIANTS = {
    OPTION: ("None", "Some"),
    RESULT: ("Ok", "Err"),
    POLL: ("Ready", "Pending"),
    "std::ops::ControlFlow": ("Continue", "Break"),
}
CANON = {OPTION: "Some"}


def fld(v, n):
    """Field n of value v."""
    if v.op == "agg":
        if n in v.a[2]:
            return v.a[3][v.a[2].index(n)]
        return mk("fld", v, n)
    if v.op == "upd":
        for k, x in v.a[1]:
            if k == n:
                return x
        if isinstance(n, tuple) or any(isinstance(k, tuple) for k, _ in v.a[1]):
            return mk("fld", v, n)
        return fld(v.a[0], n)
    return mk("fld", v, n)


def downcast(v, variant):
    if v.op == "agg":
        return v
    if v.op == "upd":
        if v.a[0].op == "as":
            return v
        return mk("upd", downcast(v.a[0], variant), v.a[1])
    if v.op == "as":
        return v
    return mk("as", v, variant)


def known_variant(v):
    if v.op == "agg":
        return v.a[1]
    if v.op == "upd":
        return known_variant(v.a[0])
    if v.op == "as":
        return v.a[1]
    return None


def with_field(v, n, x):
    if v.op == "agg" and n in v.a[2]:
        i = v.a[2].index(n)
        return mk("agg", v.a[0], v.a[1], v.a[2], v.a[3][:i] + (x,) + v.a[3][i + 1 :])
    base, m = (v.a[0], dict(v.a[1])) if v.op == "upd" else (v, {})
    if isinstance(n, tuple) or any(isinstance(k, tuple) for k in m):
        # An element write: anything known about other elements may be stale.
        base, m = v, {}
    m[n] = x
    if not isinstance(n, tuple) and mk("fld", base, n) is x:
        del m[n]
        if not m:
            return base
    return mk("upd", base, tuple(sorted(m.items(), key=lambda kv: str(kv[0]))))


# ---- formulas
def is_(v, variant, adt=None):
    kv = known_variant(v)
    if kv is not None:
        return boolean(kv == variant)
    vs = VARIANTS.get(adt)
    if vs and len(vs) == 2:
        canon = CANON.get(adt, vs[0])
        if variant != canon:
            return not_(mk("is", v, canon))
    elif vs and len(vs) == 1:
        return TRUE
    return mk("is", v, variant)


def not_(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.a[0]
    return mk("not", f)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return mk("and", a, b)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = a.op in ("int", "str", "bool"), b.op in ("int", "str", "bool")
    if ca and cb:
        return boolean(a.a == b.a) if a.op == b.op else FALSE
    if b.op == "str" and b.a[0] == "" and not ca or a.op == "str" and a.a[0] == "" and not cb:
        return eq(mk("call", "len", (a if b.op == "str" else b,), 0), mk("int", 0))
    if a is TRUE or a is FALSE:
        return b if a is TRUE else not_(b)
    if b is TRUE or b is FALSE:
        return a if b is TRUE else not_(a)
    if a.op == "agg" or b.op == "agg":
        if a.op == "agg" and b.op == "agg":
            if a.a[1] != b.a[1]:
                return FALSE
            if a.a[2] == b.a[2]:
                f = TRUE
                for x, y in zip(a.a[3], b.a[3]):
                    f = and_(f, eq(x, y))
                return f
        else:
            if b.op != "agg":
                a, b = b, a  # b is the aggregate
            if b.a[1] is not None:
                f = is_(a, b.a[1], b.a[0])
                d = downcast(a, b.a[1])
                for n, y in zip(b.a[2], b.a[3]):
                    f = and_(f, eq(fld(d, n), y))
                return f
            if b.a[0] not in ("array", "tuple") and len(b.a[2]) == 1:
                return eq(fld(a, b.a[2][0]), b.a[3][0])
    if a.op == "discr" or b.op == "discr":
        d, n = (a, b) if a.op == "discr" else (b, a)
        if n.op == "int":
            name = dict(d.a[2]).get(str(n.a[0]))
            return FALSE if name is None else is_(d.a[0], name, d.a[1])
    if a.op == "int" and a.a[0] < least(b) or b.op == "int" and b.a[0] < least(a):
        return FALSE
    if show(a) > show(b):
        a, b = b, a
    return mk("eq", a, b)


def lt(a, b, floats=False):
    """a < b; integers are put in the form x < c where one side is constant."""
    if a is b:
        return FALSE
    if a.op == "sym" and a.a[0] in ("const:tracing::level_filters::STATIC_MAX_LEVEL", "const:log::STATIC_MAX_LEVEL"):
        return TRUE  # tracing, like logging, is taken to be off
    if a.op == "int" and b.op == "int":
        return boolean(a.a[0] < b.a[0])
    if not floats:
        if a.op == "int":
            return not_(lt(b, integer(a.a[0] + 1)))
        if b.op == "int" and b.a[0] == 1 and nonneg(a):
            return eq(a, integer(0))
        if b.op == "int" and b.a[0] <= least(a):
            return FALSE
    return mk("lt", a, b)


NONNEG = set()


def nonneg(t):
    return t in NONNEG or t.op == "call" and (t.a[0] == "len" or t.a[0].endswith(("::len", "::count")))


def least(t):
    """What a number is at least: a length, or one with something added; otherwise unknown."""
    if t.op == "bin" and t.a[0] == "Add" and t.a[2].op == "int" and t.a[2].a[0] > 0 and nonneg(t.a[1]):
        return t.a[2].a[0]
    if nonneg(t):
        return 0
    return float("-inf")


def le(a, b, floats=False):
    if floats:
        if a is b:
            return TRUE
        return mk("fle", a, b)
    return not_(lt(b, a))


# ---- printing
SHORT = {}


def short(path):
    s = SHORT.get(path)
    if s is None:
        p = strip(path)
        parts = split(p)
        s = SHORT[path] = "::".join(parts[-2:])
    return s


def strip(p):
    """Drops generic arguments and `<X as Y>` wrappers, lifetimes and references."""
    out = []
    i = 0
    depth = 0
    while i < len(p):
        c = p[i]
        if c == "<" and (i == 0 or p[i - 1] in "<&( ") and depth == 0 and i == 0:
            # <X as Trait>::m or <X>::m
            j, d = i, 0
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = p[1:j]
            k = find_as(inner)
            if k >= 0:
                inner = inner[k + 4 :]
            return strip(strip(inner) + p[j + 1 :])
        if c == "<":
            depth += 1
        elif c == ">" and p[i - 1] != "-":
            depth -= 1
            i += 1
            continue
        if depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    if s.endswith("::"):
        s = s[:-2]
    return s


def find_as(s):
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0 and s.startswith(" as ", i):
            return i
    return -1


def split(p):
    return [x for x in p.split("::") if x]


def show(t):
    if t._m is None:
        t._m = _show(t)
    return t._m


def _fname(n):
    if isinstance(n, tuple):
        return "[" + ",".join(show(x) if isinstance(x, T) else str(x) for x in n[1:]) + "]"
    return "." + str(n)


def _show(t):
    o, a = t.op, t.a
    if o in ("int", "float"):
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "fld":
        return show(a[0]) + _fname(a[1])
    if o == "as":
        return f"{show(a[0])}?{a[1]}"
    if o == "upd":
        return show(a[0]) + "{" + ",".join(f"{_fname(k)[1:]}:={show(v)}" for k, v in a[1]) + "}"
    if o == "ref":
        r, p, m = a
        base = show(r[1]) if r[0] == "H" else f"_{r[2]}@{len(r[1])}"
        return ("&mut " if m else "&") + base + "".join(_fname(x[1]) if x[0] == "f" else "?" + str(x[1]) for x in p)
    if o == "agg":
        tag, var, names, vals = a
        if tag == "tuple":
            return "(" + ",".join(show(v) for v in vals) + ")"
        if tag == "array":
            return "[" + ",".join(show(v) for v in vals) + "]"
        if isinstance(tag, tuple):
            return f"{tag[0]}<{split(tag[1])[-2] if len(split(tag[1])) > 1 else tag[1]}>(" + ",".join(
                f"{n}={show(v)}" for n, v in zip(names, vals)
            ) + ")"
        name = var if var is not None else split(strip(tag))[-1]
        if not names:
            return name
        if names[0] == "0":
            return f"{name}(" + ",".join(show(v) for v in vals) + ")"
        return name + "{" + ",".join(f"{n}:{show(v)}" for n, v in sorted(zip(names, vals))) + "}"
    if o == "call":
        n, args, occ = a
        return f"{short(n)}(" + ",".join(show(x) for x in args) + ")" + (f"#{occ}" if occ else "")
    if o == "bin":
        return f"{a[0]}({show(a[1])},{show(a[2])})"
    if o == "un":
        return f"{a[0]}({show(a[1])})"
    if o == "cast":
        return f"({show(a[0])} as {a[1]})"
    if o == "is":
        return f"{show(a[0])} is {a[1]}"
    if o == "eq":
        return f"{show(a[0])}=={show(a[1])}"
    if o == "lt":
        return f"{show(a[0])}<{show(a[1])}"
    if o == "fle":
        return f"{show(a[0])}<={show(a[1])}"
    if o == "not":
        return f"!({show(a[0])})"
    if o == "and":
        return f"({show(a[0])} && {show(a[1])})"
    if o == "fnref":
        return "fn " + short(a[0])
    if o == "phi":
        return f"phi:{a[1]}"
    if o == "iter":
        return f"iter({show(a[0])}" + "".join(f".{n}({show(f) if isinstance(f, T) else f})" for n, f in a[2]) + ")"
    if o == "item":
        return f"item({show(a[0])})" + ("" if isinstance(a[1], tuple) and a[1][0] == "*" else f"#{a[1]}")
    if o == "seq":
        return "[" + " ++ ".join(show(x) for x in a[0]) + "]"
    if o == "one":
        return "one(" + show(a[0]) + ")"
    if o == "all":
        return show(a[0])
    if o == "each":
        return f"each {show(a[0])}: {{" + "; ".join(
            " & ".join(("" if b else "!") + show(f) for f, b in g) + " => " + ", ".join(show(x) for x in ps) for g, ps in a[1]
        ) + "}"
    if o == "cat":
        return "cat(" + ",".join(show(x) for x in a[0]) + ")"
    return o + "(" + ",".join(show(x) if isinstance(x, T) else str(x) for x in a) + ")"


def subterms(t, seen=None):
    """Every subterm of t (including t)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


# ---- sequences: what a Vec (or an iterator that is collected) holds, in order
# parts: one(v) | all(s) | each(src, ((guards, parts), ...)): for every item of src the parts of the
# case whose guards hold (none if no case does)
def parts_of(v):
    if v.op == "seq":
        return v.a[0]
    if v.op == "agg" and v.a[0] == "array":
        return tuple(mk("one", x) for x in v.a[3])
    return (mk("all", v),)


def mkseq(parts):
    out = []
    for p in parts:
        if p.op == "all":
            out.extend(parts_of(p.a[0]))
        elif p.op == "each":
            out.extend(distribute(p))
        else:
            out.append(p)
    if all(p.op == "one" for p in out):
        return agg("array", None, [str(i) for i in range(len(out))], [p.a[0] for p in out])
    if len(out) == 1 and out[0].op == "all":
        return out[0].a[0]
    return mk("seq", tuple(out))


def seq_item(src):
    return mk("item", src, ("*", ()))


def each(src, cases):
    return mk("each", src, tuple(sorted(cases, key=lambda c: ([(show(f), b) for f, b in c[0]], [show(x) for x in c[1]]))))


def distribute(p):
    """each over a compound source, part by part."""
    src, cases = p.a
    ps = parts_of(src)
    if len(cases) == 1 and not cases[0][0] and cases[0][1] == (mk("one", seq_item(src)),):
        return ps
    if not cases:
        return ()
    if len(ps) == 1 and ps[0].op == "all":
        return (p,)
    out = []
    it = seq_item(src)
    for q in ps:
        if q.op == "one":
            cs = inst(cases, it, q.a[0])
            if len(cs) == 1 and not cs[0][0]:
                out.extend(parts_of(mkseq(cs[0][1])))
            elif cs:
                out.append(each(agg("array", None, ["0"], [q.a[0]]), cs))
        elif q.op == "all":
            out.extend(distribute(each(q.a[0], inst(cases, it, seq_item(q.a[0])))))
        else:
            s0, cs0 = q.a
            new = []
            for g0, ps0 in cs0:
                if all(x.op == "one" for x in ps0) and len(ps0) == 1:
                    for g, ps1 in inst(cases, it, ps0[0].a[0]):
                        new.append((merge_guards(g0, g), ps1))
                else:
                    return (p,)
            new = [c for c in new if c[0] is not None]
            out.extend(distribute(each(s0, new)))
    return tuple(out)


def merge_guards(a, b):
    m = dict(a)
    for f, v in b:
        if m.get(f, v) != v:
            return None
        m[f] = v
    return tuple(sorted(m.items(), key=lambda kv: (show(kv[0]), kv[1])))


def inst(cases, old, new):
    out = []
    for g, ps in cases:
        gs, dead = [], False
        for f, b in g:
            f2 = subst(f, {old: new})
            if f2 is TRUE or f2 is FALSE:
                dead |= (f2 is TRUE) != b
                continue
            if f2.op == "not":
                f2, b = f2.a[0], not b
            gs.append((f2, b))
        if not dead:
            out.append((tuple(sorted(set(gs), key=lambda kv: (show(kv[0]), kv[1]))), tuple(subst(x, {old: new}) for x in ps)))
    return out


def subst(t, m, memo=None):
    """t with the terms of m replaced, simplified again on the way up."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    a = tuple(go(x) for x in t.a)
    if a == t.a:
        r = t
    else:
        o = t.op
        if o == "fld":
            r = fld(*a)
        elif o == "as":
            r = downcast(*a)
        elif o == "is":
            kv = known_variant(a[0])
            r = boolean(kv == a[1]) if kv is not None else mk(o, *a)
        elif o == "eq":
            r = eq(*a)
        elif o == "lt":
            r = lt(*a)
        elif o == "not":
            r = not_(a[0])
        elif o == "and":
            r = and_(*a)
        elif o == "seq":
            r = mkseq(a[0])
        elif o == "cat":
            r = cat(a[0])
        else:
            r = mk(o, *a)
    memo[t] = r
    return r


def unique_by(s, key):
    """key is a function of seq_item(s)."""
    return mk("call", "unique_by", (s, key), 0)


# ---- text: what a String holds, as a list of pieces
def cat(pieces):
    out = []
    for p in pieces:
        if p.op == "cat":
            out.extend(p.a[0])
        elif p.op == "str" and out and out[-1].op == "str":
            out[-1] = string(out[-1].a[0] + p.a[0])
        elif p.op == "str" and p.a[0] == "":
            continue
        else:
            out.append(p)
    # neighbouring literals may have met
    res = []
    for p in out:
        if p.op == "str" and res and res[-1].op == "str":
            res[-1] = string(res[-1].a[0] + p.a[0])
        else:
            res.append(p)
    if not res:
        return string("")
    if len(res) == 1:
        return res[0]
    return mk("cat", tuple(res))
