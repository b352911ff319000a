"""What the analysis knows about library calls."""
import re

import terms as _t
from terms import *

ADT_OF = {}

INT_TYPES = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
WIDTH = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128, "size": 64}


def int_cast(v, src, dst):
    """Widening integer casts keep the value; others are recorded."""
    if src in INT_TYPES and dst in INT_TYPES:
        ws, wd = WIDTH[src[1:]], WIDTH[dst[1:]]
        if src == dst or (src[0] == dst[0] and wd >= ws and "size" not in (src[1:],)) or (src[0] == "u" and wd > ws):
            return v
        if {src, dst} == {"u64", "usize"}:
            return v
    if src == "bool":
        return mk("cast", v, dst)
    return mk("cast", v, dst)


def length(v):
    if v.op == "seq" and v.a[0][0].op == "all" and all(p.op == "one" for p in v.a[0][1:]):
        return mk("bin", "Add", length(v.a[0][0].a[0]), integer(len(v.a[0]) - 1))
    if v.op == "agg" and v.a[0] == "array":
        return integer(len(v.a[3]))
    if v.op == "str":
        return integer(len(v.a[0].encode()))
    t = mk("call", "len", (v,), 0)
    _t.NONNEG.add(t)
    return t


def guard_release(v, ty):
    if re.match(r"^(\w+::)*(Owned)?(Mapped)?(MutexGuard|RwLockReadGuard|RwLockWriteGuard|ReentrantMutexGuard)<", ty):
        return "unlock"
    if re.match(r"^(\w+::)*RefMut<", ty) and v.op == "call" and v.a[0] == "lock":
        return "unlock"
    return None


def field_type(program, v, name, ty):
    """Type of a field of an aggregate, where known and worth dropping."""
    tag = v.a[0]
    if not isinstance(tag, str):
        return None
    if tag in (OPTION, RESULT):
        m = re.match(r"^std::(option::Option|result::Result)<(.*)>$", ty)
        if m and tag == OPTION:
            return m.group(2)
        return None
    a = program.adts.get(tag)
    if a is None:
        return None
    for var in a["variants"]:
        if v.a[1] is None or var[0] == v.a[1]:
            for n, t, _ in var[1]:
                if n == name:
                    return t
    return None


def construct(f, args):
    p = f["p"]
    base, _, name = strip(p).rpartition("::")
    names = [str(i) for i in range(len(args))]
    parent = strip(p).rpartition("::")[0]
    if parent in _t.VARIANTS and name in _t.VARIANTS[parent]:
        return agg(parent, name, names, args)
    return agg(strip(p), None if not parent.split("::")[-1][:1].isupper() else name, names, args)


def ret(v, st):
    from engine import Exit

    return [Exit("ret", v, st)]


# ---------------------------------------------------------------- models
def m_identity(e, st, f, args, ctx):
    return ret(args[0], st)


def m_value(e, st, f, args, ctx):
    """A copy of what the argument refers to."""
    v = args[0]
    n = 0
    while v.op == "ref" and n < 6:
        v = e.read(st, v.a[0], v.a[1])
        n += 1
    h = st.store.get(("H", v))
    if h is not None:
        v = h
    return ret(v, st)


def m_clone(e, st, f, args, ctx):
    body = e.p.fns.get(f.get("rd")) if f.get("rd") else None
    if body is not None and body.kind == "fn" and not derived(e.p, body):
        return None
    # one layer of reference only: clone of &&T is &T, which is the same value here
    return m_value(e, st, f, args, ctx)


def derived(program, body):
    """Whether body belongs to an impl written by #[derive]."""
    table = getattr(program, "_derived", None)
    if table is None:
        table = program._derived = {p: i.get("derived") for i in program.impls for _, p in i["items"]}
    return bool(table.get(body.id))


def manual_impls(program):
    """(trait, type, method) -> path, for every impl that is not derived."""
    table = getattr(program, "_manual", None)
    if table is None:
        table = program._manual = {}
        for i in program.impls:
            if not i.get("derived"):
                for n, path in i["items"]:
                    table[(i["trait"], strip(i["self"]), n)] = path
    return table


def manual_body(e, f, name=None):
    """Body of the hand-written trait method a comparison resolves to, looking through references."""
    ty = f.get("self") or ""
    ty = re.sub(r"^(&\s*('\w+\s+)?(mut\s+)?)+", "", ty)
    table = manual_impls(e.p)
    path = table.get((f.get("tr"), strip(ty), name or f["p"].split("::")[-1]))
    return e.p.by_id.get(path) if path else None


def m_deref(e, st, f, args, ctx):
    rd = f.get("rd")
    body = e.p.fns.get(rd) if rd else None
    if body is not None:
        return None
    a = args[0]
    if a.op != "ref":
        return ret(a, st)
    v = e.read(st, a.a[0], a.a[1])
    if v.op == "ref":
        return ret(v, st)
    if v.op in ("agg", "upd", "str", "int", "bool", "moved", "uninit", "iter", "upd_by") or is_owned_buffer(f):
        return ret(a, st)
    if v.op == "sym" and v.a[0].startswith("static:"):
        return ret(v, st)
    return ret(ref(("H", v), (), a.a[2]), st)


def is_owned_buffer(f):
    s = f.get("self") or ""
    return s.startswith(("std::vec::Vec<", "std::string::String", "bytes::Bytes", "std::path::PathBuf", "std::boxed::Box<"))


def m_into(e, st, f, args, ctx):
    ga = f.get("ga") or []
    name = f["p"].split("::")[-1]
    if name == "into" and len(ga) >= 2:
        src, dst = ga[0], ga[1]
    elif len(ga) >= 2:
        dst, src = ga[0], ga[1]
    else:
        return ret(args[0], st)
    rd = f.get("rd")
    body = e.p.fns.get(rd) if rd else None
    if body is not None and body.kind == "fn":
        return None
    if src != dst:
        body = from_impl(e.p, src, dst)
        if body is not None:
            return e.exec_fn(st, body, args, ctx.fid)
        if src in ("f32", "f64") or dst in ("f32", "f64"):
            return ret(mk("cast", args[0], dst), st)
    return ret(args[0], st)


def from_impl(program, src, dst):
    table = getattr(program, "_from", None)
    if table is None:
        table = program._from = {}
        for i in program.impls:
            if i["trait"] == "std::convert::From":
                for n, path in i["items"]:
                    if n == "from":
                        table.setdefault(key_from(i["ref"]), path)
    path = table.get(key_from(f"<{dst} as std::convert::From<{src}>>"))
    return program.by_id.get(path) if path else None


def key_from(t):
    t = re.sub(r"'\w+ ?", "", t)
    t = re.sub(r"&mut |&", "", t)
    return re.sub(r"\bbd_\w+::", "", t)


def m_eq(e, st, f, args, ctx):
    body = manual_body(e, f, "eq")
    if body is not None:
        a, b = args
        while a.op == "ref" and e.read(st, a.a[0], a.a[1]).op == "ref":
            a = e.read(st, a.a[0], a.a[1])
        while b.op == "ref" and e.read(st, b.a[0], b.a[1]).op == "ref":
            b = e.read(st, b.a[0], b.a[1])
        outs = e.exec_fn(st, body, [a, b], ctx.fid)
        if f["p"].endswith("::ne"):
            outs = [type(o)(o.kind, not_(o.ret) if o.kind == "ret" else o.ret, o.state, o.why) for o in outs]
        return outs
    a, b = e.resolve(st, args[0]), e.resolve(st, args[1])
    r = eq(a, b)
    return ret(r if f["p"].endswith("::eq") else not_(r), st)


def m_ord(e, st, f, args, ctx):
    a, b = e.resolve(st, args[0]), e.resolve(st, args[1])
    op = f["p"].split("::")[-1]
    fl = (f.get("self") or "").lstrip("&") in ("f32", "f64")
    r = {"lt": lambda: lt(a, b, fl), "gt": lambda: lt(b, a, fl), "le": lambda: le(a, b, fl), "ge": lambda: le(b, a, fl)}[op]()
    return ret(r, st)


def m_cmp(e, st, f, args, ctx):
    a, b = e.resolve(st, args[0]), e.resolve(st, args[1])
    _t.VARIANTS.setdefault("std::cmp::Ordering", ("Less", "Equal", "Greater"))
    v = f["p"].split("::")[-1]
    outs = []
    for truth, s in e.branch(st, lt(a, b)):
        if truth:
            outs += ret(ordering("Less", v), s)
        else:
            for t2, s2 in e.branch(s, eq(a, b)):
                outs += ret(ordering("Equal" if t2 else "Greater", v), s2)
    return outs


def ordering(n, v):
    o = agg("std::cmp::Ordering", n, (), ())
    return some(o) if v == "partial_cmp" else o


ORDER_TESTS = {"is_lt": ("Less", True), "is_gt": ("Greater", True), "is_eq": ("Equal", True), "is_ge": ("Less", False), "is_le": ("Greater", False), "is_ne": ("Equal", False)}


def m_order_test(e, st, f, args, ctx):
    _t.VARIANTS.setdefault("std::cmp::Ordering", ("Less", "Equal", "Greater"))
    v, yes = ORDER_TESTS[f["p"].split("::")[-1]]
    x = e.resolve(st, args[0])
    if x.op == "ref":
        x = e.resolve(st, e.deref(st, x)) if hasattr(e, "deref") else x
    return [o for t, s in e.branch(st, mk("is", x, v)) for o in ret(boolean(t is yes), s)]


def m_reverse(e, st, f, args, ctx):
    _t.VARIANTS.setdefault("std::cmp::Ordering", ("Less", "Equal", "Greater"))
    x = e.resolve(st, args[0])
    outs = []
    for t, s in e.branch(st, mk("is", x, "Less")):
        if t:
            outs += ret(ordering("Greater", ""), s)
            continue
        for t2, s2 in e.branch(s, mk("is", x, "Equal")):
            outs += ret(ordering("Equal" if t2 else "Less", ""), s2)
    return outs


def m_len(e, st, f, args, ctx):
    return ret(length(e.resolve(st, args[0])), st)


def m_is_empty(e, st, f, args, ctx):
    v = e.resolve(st, args[0])
    if any(p.op == "one" for p in parts_of(v)):
        return ret(FALSE, st)
    return ret(eq(length(e.resolve(st, args[0])), integer(0)), st)


def ident(e, st, a):
    """Name of the object a refers to (not its current content)."""
    if a.op == "ref":
        root, path, _ = a.a
        if root[0] == "H":
            v = root[1]
            for k, n in path:
                v = fld(v, n) if k == "f" else downcast(v, n)
            return v
        v = e.read(st, root, path)
        if v.op == "ref":
            return ident(e, st, v)
        return e.view(st, v)
    return a


def m_lock(e, st, f, args, ctx):
    name = f["p"].split("::")[-1]
    who = ident(e, st, args[0])
    st = st.copy()
    occ = e.occurrence(st, "lock", (who,))
    g = mk("call", "lock", (who,), occ)
    e.emit(st, "lock", name, (who,), ctx.line, ctx.fn.id, res=g)
    if strip(f["p"]).startswith("std::sync::"):
        return ret(ok(g), st)
    return ret(g, st)


def m_condvar(e, st, f, args, ctx):
    st = st.copy()
    p = strip(f["p"])
    vals = (ident(e, st, args[0]),) + tuple(ident(e, st, a) for a in args[1:])
    occ = e.occurrence(st, p, vals)
    r = mk("call", p, vals, occ)
    e.emit(st, "call", p, vals, ctx.line, ctx.fn.id, res=r)
    if len(args) > 1:
        g = e.strip_ref(st, args[1])
        st.store[("H", g)] = mk("upd_by", r, 1)
    return ret(UNIT if ctx.dty == "()" else r, st)


def m_drop(e, st, f, args, ctx):
    exits = []
    outs = e.drop_value(st, args[0], ctx.argtys[0] or "", ctx.fn, ctx.line, ctx.fid, exits)
    return [x for s in outs for x in ret(UNIT, s)] + exits


def was(e, st, root, path):
    """what is there before it is replaced; the content of an object a call returned is not called by the object's own name, which stands for what is there afterwards"""
    v = e.read(st, root, path)
    return mk("call", "content", (v,), 0) if root == ("H", v) and v.op == "call" and not path else v


def m_replace(e, st, f, args, ctx):
    st = st.copy()
    root, path = target(e, st, args[0])
    old = was(e, st, root, path)
    e.write(st, root, path, args[1])
    return ret(old, st)


def m_clone_from(e, st, f, args, ctx):
    """a.clone_from(&b) and b.clone_into(&mut a): assignments of a copy."""
    a, b = (args[1], args[0]) if f["p"].endswith("clone_into") else args
    x = m_value(e, st, f, [b], ctx)[0]
    st = st.copy()
    root, path = target(e, st, a)
    e.write(st, root, path, x.ret)
    return ret(UNIT, st)


def m_swap(e, st, f, args, ctx):
    st = st.copy()
    r1, p1 = target(e, st, args[0])
    r2, p2 = target(e, st, args[1])
    a, b = e.read(st, r1, p1), e.read(st, r2, p2)
    e.write(st, r1, p1, b)
    e.write(st, r2, p2, a)
    return ret(UNIT, st)


def target(e, st, a):
    if a.op == "ref":
        v = e.read(st, a.a[0], a.a[1])
        if v.op == "ref":
            return target(e, st, v)
        return a.a[0], a.a[1]
    return ("H", a), ()


def default_of(e, st, ty, ctx, f=None):
    if ty is None:
        return None
    if ty.startswith("std::option::Option<"):
        return NONE
    if ty == "bool":
        return FALSE
    if ty in INT_TYPES:
        return integer(0)
    if ty == "()":
        return UNIT
    if ty in ("std::string::String", "&str"):
        return string("")
    if ty.startswith("std::vec::Vec<"):
        return agg("array", None, (), ())
    return None


def m_default(e, st, f, args, ctx):
    v = default_of(e, st, f.get("self") or ctx.dty, ctx)
    if v is not None:
        return ret(v, st)
    rd = f.get("rd")
    if rd and rd in e.p.fns:
        return None
    return ret(mk("call", "default", (string(ty_name(f.get("self") or ctx.dty)),), 0), st)


def ty_name(t):
    return strip(t)


def m_take(e, st, f, args, ctx):
    st = st.copy()
    root, path = target(e, st, args[0])
    old = was(e, st, root, path)
    ga = f.get("ga") or [None]
    d = NONE if "option" in f["p"] else default_of(e, st, ga[0], ctx)
    if d is None:
        d = mk("call", "default", (string(ty_name(ga[0] or "?")),), 0)
    e.write(st, root, path, d)
    return ret(old, st)


def m_opt_replace(e, st, f, args, ctx):
    st = st.copy()
    root, path = target(e, st, args[0])
    old = was(e, st, root, path)
    e.write(st, root, path, some(args[1]))
    return ret(old, st)


def m_opt_insert(e, st, f, args, ctx):
    st = st.copy()
    root, path = target(e, st, args[0])
    e.write(st, root, path, some(args[1]))
    return ret(ref(root, path + (("v", "Some"), ("f", "0")), True), st)


def m_get_or_insert_with(e, st, f, args, ctx):
    root, path = target(e, st, args[0])
    v = e.read(st, root, path)
    payload = path + (("v", "Some"), ("f", "0"))
    outs = []
    for truth, s in e.branch(st, is_(v, "Some", OPTION)):
        if truth:
            outs += ret(ref(root, payload, True), s)
        elif f["p"].endswith("with"):
            for o in e.invoke(s, args[1], [], ctx):
                if o.kind == "ret":
                    s2 = o.state.copy()
                    e.write(s2, root, path, some(o.ret))
                    outs += ret(ref(root, payload, True), s2)
                else:
                    outs.append(o)
        else:
            s = s.copy()
            e.write(s, root, path, some(args[1]))
            outs += ret(ref(root, payload, True), s)
    return outs


def m_entry(e, st, f, args, ctx):
    """or_insert*(entry, v): what the entry holds, or v, inserted."""
    ent = e.resolve(st, args[0])
    name = f["p"].rsplit("::", 1)[-1]
    outs = []
    for truth, s in e.branch(st, mk("is", ent, "Occupied")):
        if truth:
            outs += ret(ref(("H", mk("call", "entry_value", (ent,), 0)), (), True), s)
            continue
        if name == "or_insert_with":
            vals = e.invoke(s, args[1], [], ctx)
        elif name == "or_insert":
            vals = ret(args[1], s)
        else:
            m = re.search(r"&'?\w* ?mut (.*)$", ctx.dty or "")
            v = default_of(e, s, m.group(1), ctx) if m else None
            vals = ret(v if v is not None else mk("call", "default", (string(m.group(1) if m else "?"),), 0), s)
        for o in vals:
            if o.kind != "ret":
                outs.append(o)
                continue
            s2 = o.state.copy()
            a = (fld(downcast(ent, "Vacant"), "0"), e.resolve(s2, o.ret))
            r = mk("call", "VacantEntry::insert", a, e.occurrence(s2, "VacantEntry::insert", a))
            e.emit(s2, "call", "VacantEntry::insert", a, ctx.line, ctx.fn.id, res=r)
            s2.store[("H", r)] = o.ret
            outs += ret(ref(("H", r), (), True), s2)
    return outs


def m_cell_get(e, st, f, args, ctx):
    return ret(e.resolve(st, args[0]), st)


def m_cell_set(e, st, f, args, ctx):
    st = st.copy()
    who = ident(e, st, args[0])
    e.emit(st, "call", strip(f["p"]), (who, e.resolve(st, args[1])), ctx.line, ctx.fn.id)
    root, path = target(e, st, args[0])
    old = e.read(st, root, path)
    e.write(st, root, path, args[1])
    return ret(UNIT if ctx.dty == "()" else old, st)


def m_fn_call(e, st, f, args, ctx):
    """Fn::call(&f, (args,)) and friends."""
    fv = e.strip_ref(st, args[0])
    rest = args[1] if len(args) > 1 else UNIT
    if fv.op in ("agg", "fnref"):
        lst = list(rest.a[3]) if rest.op == "agg" and rest.a[0] == "tuple" else [rest]
        if fv.op == "fnref":
            ctx2 = ctx
            return e.call(st, fv, lst, ctx2)
        return e.invoke(st, args[0], [rest], ctx)
    lst = list(rest.a[3]) if rest.op == "agg" and rest.a[0] == "tuple" else [rest]
    who = ident(e, st, args[0])
    return e.opaque(st, "call:" + show(who), lst, ctx)


def m_with(e, st, f, args, ctx):
    """LocalKey::with and relatives: the closure runs once on the key's value."""
    return e.invoke(st, args[1], [tup(ident(e, st, args[0]))], ctx)


# ---- futures
def m_poll(e, st, f, args, ctx):
    from engine import Exit

    a = args[0]
    v = e.strip_ref(st, a)
    outs = []

    def ready(x, s):
        return Exit("ret", agg(POLL, "Ready", ("0",), (x,)), s)

    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "coroutine":
        if v.a[0][1] in e.p.fns and not any(x.search(v.a[0][1]) for x in e.c.opaque):
            for o in e.exec_fn(st, e.p.fns[v.a[0][1]], [v, sym("cx")], ctx.fid):
                outs.append(ready(o.ret, o.state) if o.kind == "ret" else o)
            return outs
    if v.op == "agg" and v.a[0] == "PollFn":
        return m_select(e, st, v.a[3][0], ctx)
    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "closure":
        return e.invoke(st, v, [tup(sym("cx"))], ctx)
    rd = f.get("rd")
    if rd and rd in e.p.fns:
        return None
    st = st.copy()
    r = e.view(st, v)
    occ = e.occurrence(st, "await", (r,))
    res = mk("call", "await", (r,), 0 if occ == 1 else occ)
    e.emit(st, "await", "await", (r,), ctx.line, ctx.fn.id, res=res)
    if ctx.dty.startswith("std::task::Poll<()>"):
        res = UNIT
    return [ready(res, st)]


def m_poll_fn(e, st, f, args, ctx):
    return ret(agg("PollFn", None, ("0",), (args[0],)), st)


def m_select(e, st, closure, ctx):
    """tokio::select!: any branch that is enabled may complete first."""
    from engine import Exit

    c = e.strip_ref(st, closure)
    body = e.p.fns.get(c.a[0][1])
    outs = []
    up = dict(zip(c.a[2], c.a[3]))
    fut = disabled = None
    for n, x in up.items():
        if "futures" in n or "futs" in n:
            fut = x
        elif "disabled" in n:
            disabled = x
    adt, variants = select_out(e, body, ctx)
    if fut is None or adt is None:
        return e.invoke(st, c, [tup(sym("cx"))], ctx)
    froot = fut
    n = len([v for v in variants if v.startswith("_")])
    d = e.strip_ref(st, disabled) if disabled is not None else integer(0)
    mask = d.a[0] if d.op == "int" else 0
    for i in range(n):
        if mask >> i & 1:
            continue
        if froot.op == "ref":
            tup_root, tup_path = froot.a[0], froot.a[1]
            v = e.read(st, tup_root, tup_path)
            if v.op == "ref":
                tup_root, tup_path = v.a[0], v.a[1]
        else:
            tup_root, tup_path = ("L", ctx.fid + ("sel",), 0), ()
            st = st.copy()
            st.store[tup_root] = froot
        a = ref(tup_root, tup_path + (("f", str(i)),), True)
        cf = Sub(ctx, ("sel", i), "std::task::Poll<_>")
        for o in m_poll(e, st, {"p": "std::future::Future::poll"}, [a, sym("cx")], cf):
            if o.kind == "ret":
                outs.append(Exit("ret", agg(POLL, "Ready", ("0",), (agg(adt, f"_{i}", ("0",), (o.ret.a[3][0],)),)), o.state))
            else:
                outs.append(o)
    if "Disabled" in variants:
        outs.append(Exit("ret", agg(POLL, "Ready", ("0",), (agg(adt, "Disabled", (), ()),)), st))
    return outs


def Sub(ctx, extra, dty):
    from engine import Call

    return Call(ctx.e, ctx.fn, ctx.fid + (extra,), ctx.line, ctx.mac, dty, [], False)


def select_out(e, body, ctx):
    """The generated Out enum of a select! closure, found in its return type."""
    for st, t, _ in body.blocks:
        for s in st:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][2] is not None and s[2][1][1].endswith("::Out"):
                adt = s[2][1][1]
                a = e.p.adts.get(adt)
                if a is None:
                    vs = set()
                    for st2, _, _ in body.blocks:
                        for s2 in st2:
                            if s2[0] == "=" and s2[2][0] == "agg" and s2[2][1][0] == "adt" and s2[2][1][1] == adt:
                                vs.add(s2[2][1][2])
                    return adt, sorted(vs)
                return adt, [v[0] for v in a["variants"]]
    return None, []


# ---- iterators
LAZY = {"map", "filter", "filter_map", "inspect", "flat_map"}
SAME = {"iter", "iter_mut", "into_iter", "cloned", "copied", "by_ref", "fuse", "drain"}


def as_iter(e, st, v):
    n = 0
    while v.op == "ref" and n < 6:
        x = e.read(st, v.a[0], v.a[1])
        if x.op not in ("ref", "iter"):
            # iterate over the collection the reference names
            if x.op in ("agg",) and x.a[0] == "array":
                return mk("iter", e.resolve(st, x), 0, ())
            return mk("iter", e.resolve(st, v), 0, ())
        v = x
        n += 1
    if v.op == "iter":
        return v
    return mk("iter", e.resolve(st, v), 0, ())


def m_into_iter(e, st, f, args, ctx):
    v = args[0]
    s = e.strip_ref(st, v)
    if s.op == "iter":
        return ret(s if v.op != "ref" else v, st)
    rd = f.get("rd")
    if rd and rd in e.p.fns and e.p.fns[rd].kind == "fn":
        return None
    return ret(as_iter(e, st, v), st)


def m_adaptor(e, st, f, args, ctx):
    name = f["p"].split("::")[-1]
    it = as_iter(e, st, args[0])
    if name in LAZY:
        return ret(mk("iter", it.a[0], it.a[1], it.a[2] + ((name, args[1]),)), st)
    if name in ("enumerate", "flatten"):
        return ret(mk("iter", it.a[0], it.a[1], it.a[2] + ((name, ""),)), st)
    if name in ("cloned", "copied", "by_ref", "fuse", "peekable"):
        return ret(it, st)
    # chain, unique_by, zip, rev, take, skip, ...: a source of its own
    outs = []
    for o in as_seq(e, st, it, ctx):
        if o.kind != "ret":
            outs.append(o)
            continue
        if name == "chain":
            for o2 in as_seq(e, o.state, as_iter(e, o.state, args[1]), ctx, 1):
                if o2.kind == "ret":
                    o2.ret = mk("iter", mkseq((mk("all", o.ret), mk("all", o2.ret))), 0, ())
                outs.append(o2)
        elif name in ("unique_by", "unique"):
            x = seq_item(o.ret)
            keys = [o] if name == "unique" else e.invoke(o.state, args[1], [tup(x)], ctx, extra=("key",))
            if len(keys) == 1 and keys[0].kind == "ret":
                k = x if name == "unique" else e.resolve(keys[0].state, keys[0].ret)
                outs += ret(mk("iter", unique_by(o.ret, k), 0, ()), keys[0].state)
            else:
                outs += ret(mk("iter", mk("call", name, (o.ret, e.resolve(o.state, args[1])), 0), 0, ()), o.state)
        else:
            vals = (o.ret,) + tuple(e.resolve(o.state, a) for a in args[1:])
            outs += ret(mk("iter", mk("call", name, vals, 0), 0, ()), o.state)
    return outs


def as_seq(e, st, it, ctx, k=0):
    """The whole sequence an iterator yields."""
    if not it.a[2] and it.a[1] == 0:
        return ret(it.a[0], st)
    if not isinstance(it.a[1], int):
        return ret(mk("call", "rest", (it,), 0), st)
    return consume(e, st, it, "collect_vec", [it], Sub(ctx, ("seq", k), "std::vec::Vec<_>"))


def step(e, st, it, ctx, depth=0):
    """One element: [(state, item)], the ways the adaptors let an element through."""
    src, n, ads = it.a
    if src.op == "agg" and src.a[0] == "array" and isinstance(n, int) and n < len(src.a[3]):
        item = src.a[3][n]
    else:
        # under an adaptor that skips elements, the n-th step does not see the n-th element
        item = mk("item", src, ("s", n) if isinstance(n, int) and any(a[0] not in ("map", "inspect", "enumerate", "cloned", "copied") for a in ads) else n)
    cur = [(st, item)]
    others = []
    for k, (name, f) in enumerate(ads):
        nxt = []
        for s, x in cur:
            if x.op == "spread":
                x = mk("item", x.a[0], ("*", ()))
            if name == "flatten":
                nxt.append((s, mk("spread", e.resolve(s, x))))
                continue
            if name == "enumerate":
                nxt.append((s, tup(mk("call", "index", (x,), 0), x)))
                continue
            for o in e.invoke(s, f, [tup(x)], ctx, extra=("ad", k)):
                if o.kind != "ret":
                    others.append(o)
                    continue
                if name in ("map", "inspect", "flat_map"):
                    y = o.ret if name == "map" else x if name == "inspect" else mk("spread", e.resolve(o.state, o.ret))
                    nxt.append((o.state, y))
                elif name in ("filter", "take_while", "skip_while"):
                    nxt.extend((s2, x) for s2 in e.assume(o.state, o.ret, True))
                elif name in ("filter_map", "map_while"):
                    v = o.ret
                    for s2 in e.assume(o.state, is_(v, "Some", OPTION), True):
                        nxt.append((s2, fld(downcast(v, "Some"), "0")))
        cur = nxt
    return cur, others


def m_next(e, st, f, args, ctx):
    rd = f.get("rd")
    if rd and rd in e.p.fns and e.p.fns[rd].kind == "fn":
        return None
    a = args[0]
    root, path = target(e, st, a)
    v = e.read(st, root, path)
    if v.op != "iter":
        if v.op in ("agg", "upd") or root[0] == "H" and v.op != "iter":
            return None
        v = mk("iter", e.resolve(st, v), 0, ())
    src, n, ads = v.a
    outs = []
    exhausted = known = False
    if n == 0 and src.op != "agg" and any(x[0] in ("filter", "filter_map", "skip_while") for x in ads) \
            and not any(ctx.fid[-1][1] in body for body in ctx.fn.cfg.loops.values()):
        # The first element let through: a search.
        for o in consume(e, st, v, "first", args, ctx):
            if o.kind == "ret":
                o.state = o.state.copy()
                e.write(o.state, root, path, mk("iter", src, ("s", 1), ads))
            outs.append(o)
        return outs
    if src.op == "agg" and src.a[0] == "array" and isinstance(n, int):
        known = True
        exhausted = n >= len(src.a[3])
    if not known or exhausted:
        s = st.copy()
        if isinstance(n, tuple):
            s.store[("X", n[1])] = TRUE
        # the first character of a string: there is none exactly if the string is empty
        text = src.a[1][0] if n == 0 and not ads and src.op == "call" and re.fullmatch(r"(.*::)?str::chars", src.a[0]) else None
        none = eq(integer(0), mk("call", "len", (text,), 0)) if text is not None else None
        outs += ret(NONE, s) if none is None else [o for s2 in e.assume(s, none, True) for o in ret(NONE, s2)]
        if none is not None:
            st = next(iter(e.assume(st, none, False)), None)
            if st is None:
                return outs
    if not exhausted:
        nx = mk("iter", src, n + 1 if isinstance(n, int) else n, ads)
        cur, others = step(e, st, v, ctx)
        outs += others
        for s, x in cur:
            s = s.copy()
            e.write(s, root, path, nx)
            outs += ret(some(x), s)
    return outs


def m_consume(e, st, f, args, ctx):
    """any / all / find / position / for_each / collect / fold / ... over a (lazy) iterator."""
    return consume(e, st, as_iter(e, st, args[0]), f["p"].split("::")[-1], args, ctx)


def membership(e, st, it, fn, ctx):
    """The question that `any` over a fixed collection comes to when it only compares: whether it contains a value."""
    cur, oth = step(e, st.copy(), it, ctx)
    if oth or len(cur) != 1 or cur[0][1].op != "item":
        return None
    x = cur[0][1]
    outs = e.invoke(cur[0][0], fn, [tup(x)], ctx, extra=("c",))
    if len(outs) != 1 or outs[0].kind != "ret" or outs[0].ret.op != "eq":
        return None
    a, b = outs[0].ret.a
    value = b if a is x else a if b is x else None
    if value is None or any(s is x for s in subterms(value)):
        return None
    return mk("call", "std::collections::BTreeSet::contains", (it.a[0], value), 0)


CLOSURE_CONSUMERS = ("any", "all", "find", "position", "find_map", "for_each", "try_for_each", "fold", "try_fold")


def consume(e, st, it0, name, args, ctx):
    loopid = (name, ctx.fid, 0)
    known = it0.a[0].op == "agg" and it0.a[0].a[0] == "array" and isinstance(it0.a[1], int) and len(it0.a[0].a[3]) <= 12
    it = mk("iter", it0.a[0], ("*", loopid), it0.a[2])
    fn = args[-1] if len(args) > 1 else None
    HR = ("L", ctx.fid + ("acc",), 0)
    if name == "any" and it.a[0].op == "sym" and it.a[0].a[0].startswith("static:"):
        member = membership(e, st, it, fn, ctx)
        if member is not None:
            return ret(member, st)

    def run(states, it=it):
        early, back, others = [], [], []
        for s in states:
            cur, oth = step(e, s, it, ctx)
            others += oth
            if name == "first":
                back += rejected(e, s, it, ctx)
                early += [(some(mk("item", x.a[0], ("*", ())) if x.op == "spread" else x), s2) for s2, x in cur]
                continue
            if name not in CLOSURE_CONSUMERS:
                # an element that a filter drops adds nothing
                back += rejected(e, s, it, ctx)
            for s2, x in cur:
                if x.op == "spread" and name in CLOSURE_CONSUMERS:
                    x = mk("item", x.a[0], ("*", ()))
                if name in CLOSURE_CONSUMERS:
                    if name in ("fold", "try_fold"):
                        a = tup(s2.store[HR], x)
                    else:
                        a = tup(x)
                    for o in e.invoke(s2, fn, [a], ctx, extra=("c",)):
                        if o.kind != "ret":
                            others.append(o)
                            continue
                        if name == "any":
                            early += [(TRUE, s3) for s3 in e.assume(o.state, o.ret, True)]
                            back += e.assume(o.state, o.ret, False)
                        elif name == "all":
                            early += [(FALSE, s3) for s3 in e.assume(o.state, o.ret, False)]
                            back += e.assume(o.state, o.ret, True)
                        elif name == "find":
                            early += [(some(x), s3) for s3 in e.assume(o.state, o.ret, True)]
                            back += e.assume(o.state, o.ret, False)
                        elif name == "position":
                            early += [(some(mk("call", "index", (x,), 0)), s3) for s3 in e.assume(o.state, o.ret, True)]
                            back += e.assume(o.state, o.ret, False)
                        elif name == "find_map":
                            v = o.ret
                            early += [(v, s3) for s3 in e.assume(o.state, is_(v, "Some", OPTION), True)]
                            back += e.assume(o.state, is_(v, "Some", OPTION), False)
                        elif name == "try_for_each":
                            v = o.ret
                            early += [(v, s3) for s3 in e.assume(o.state, is_(v, "Ok", RESULT), False)]
                            back += e.assume(o.state, is_(v, "Ok", RESULT), True)
                        elif name == "fold":
                            s3 = o.state.copy()
                            s3.store[HR] = o.ret
                            back.append(s3)
                        elif name == "try_fold":
                            v = o.ret
                            early += [(v, s3) for s3 in e.assume(o.state, is_(v, "Ok", RESULT), False)]
                            for s3 in e.assume(o.state, is_(v, "Ok", RESULT), True):
                                s3 = s3.copy()
                                s3.store[HR] = fld(downcast(v, "Ok"), "0")
                                back.append(s3)
                        else:
                            back.append(o.state)
                else:
                    s3 = s2.copy()
                    p = mk("all", e.resolve(s2, x.a[0])) if x.op == "spread" else mk("one", e.resolve(s2, x))
                    s3.store[HR] = mkseq(parts_of(s3.store[HR]) + (p,))
                    back.append(s3)
        return (states, early, others), back

    st = st.copy()
    if name in ("fold", "try_fold"):
        st.store[HR] = args[1]
    elif name not in CLOSURE_CONSUMERS and name != "first":
        st.store[HR] = agg("array", None, (), ())
    if known:
        hdrs, early, others = [st], [], []
        for i in range(it0.a[1], len(it0.a[0].a[3])):
            (_, ea, ot), hdrs = run(hdrs, mk("iter", it0.a[0], i, it0.a[2]))
            early += ea
            others += ot
            hdrs = e.merge_states(hdrs)
    else:
        hdrs, early, others = e.fixpoint(st, run, loopid, {HR: "acc"}, name=name, src=it.a[0])
        rec = e.loops[e.nloop_last[loopid]]
        rec.src = it.a[0]
        hdrs = [h.copy() for h in hdrs]
        for h in hdrs:
            if isinstance(it0.a[1], int) and it0.a[1] == 0:
                h.store[("X", loopid)] = TRUE
        hdrs = [e.exhausted(h, rec, loopid) for h in hdrs]
    outs = list(others)
    for v, s in early:
        outs += ret(v, s)
    for h in hdrs:
        s = h.copy()
        if name == "any":
            v = FALSE
        elif name == "all":
            v = TRUE
        elif name in ("find", "position", "find_map", "first"):
            v = NONE
        elif name == "for_each":
            v = UNIT
        elif name == "try_for_each":
            v = ok(UNIT)
        elif name == "fold":
            v = s.store.pop(HR)
        elif name == "try_fold":
            v = ok(s.store.pop(HR))
        else:
            v = s.store.pop(HR)
            ty = strip(ctx.dty or "").split("::")[-1]
            if name in ("collect", "collect_vec"):
                if ty not in ("Vec", "VecDeque", "Box", "LinkedList"):
                    v = mk("call", "collect:" + ty, (v,), 0)
            else:
                v = mk("call", name, (v,) + tuple(e.resolve(s, a) for a in args[1:]), 0)
        outs += ret(v, s)
    for o in outs:
        o.state.store.pop(HR, None)
    return outs


def rejected(e, st, it, ctx):
    """States in which some filter of the iterator drops the current element."""
    src, n, ads = it.a
    item = src.a[3][n] if src.op == "agg" and src.a[0] == "array" and isinstance(n, int) else mk("item", src, n)
    cur, out = [(st, item)], []
    for k, (name, f) in enumerate(ads):
        nxt = []
        for s, x in cur:
            if x.op == "spread":
                x = mk("item", x.a[0], ("*", ()))
            if name == "flatten":
                nxt.append((s, mk("spread", e.resolve(s, x))))
                continue
            if name == "enumerate":
                nxt.append((s, tup(mk("call", "index", (x,), 0), x)))
                continue
            for o in e.invoke(s, f, [tup(x)], ctx, extra=("ad", k)):
                if o.kind != "ret":
                    continue
                if name == "filter":
                    out += e.assume(o.state, o.ret, False)
                    nxt.extend((s2, x) for s2 in e.assume(o.state, o.ret, True))
                elif name == "filter_map":
                    c = is_(o.ret, "Some", OPTION)
                    out += e.assume(o.state, c, False)
                    nxt.extend((s2, fld(downcast(o.ret, "Some"), "0")) for s2 in e.assume(o.state, c, True))
                elif name == "map":
                    nxt.append((o.state, o.ret))
                elif name == "flat_map":
                    nxt.append((o.state, mk("spread", e.resolve(o.state, o.ret))))
                elif name == "inspect":
                    nxt.append((o.state, x))
        cur = nxt
    return out


# ---- growing collections
def grow(e, st, a, parts, ctx, name, front=False):
    st = st.copy()
    root, path = target(e, st, a)
    old = e.read(st, root, path)
    parts = tuple(parts)
    new = mkseq(parts + parts_of(old)) if front else mkseq(parts_of(old) + parts)
    if root[0] == "H":
        who = ident(e, st, a)
        e.emit(st, "call", name, (who,) + tuple(p.a[0] for p in parts), ctx.line, ctx.fn.id)
    e.write(st, root, path, new)
    return ret(UNIT, st)


def m_push(e, st, f, args, ctx):
    p = strip(f["p"])
    return grow(e, st, args[0], [mk("one", e.resolve(st, args[1]))], ctx, p, p.endswith("push_front"))


def m_extend(e, st, f, args, ctx):
    p = strip(f["p"])
    s = (f.get("self") or p).replace("&mut ", "")
    if not re.search(r"(^|::)(Vec|VecDeque|LinkedList)(<|::|$)", strip(s) + "::"):
        return None
    outs = []
    it = as_iter(e, st, args[1])
    for o in as_seq(e, st, it, ctx):
        if o.kind == "ret":
            outs += grow(e, o.state, args[0], [mk("all", o.ret)], ctx, p)
        else:
            outs.append(o)
    return outs


def m_append(e, st, f, args, ctx):
    root, path = target(e, st, args[1])
    v = e.resolve(st, e.read(st, root, path))
    outs = grow(e, st, args[0], [mk("all", v)], ctx, strip(f["p"]))
    for o in outs:
        e.write(o.state, root, path, agg("array", None, (), ()))
    return outs


def m_concat(e, st, f, args, ctx):
    v = e.resolve(st, args[0])
    if v.op == "agg" and v.a[0] == "array":
        if (ctx.dty or "").endswith("String"):
            return ret(cat(v.a[3]), st)
        return ret(mkseq([mk("all", x) for x in v.a[3]]), st)
    return ret(mk("call", "concat", (v,), 0), st)


def m_index(e, st, f, args, ctx):
    """list[i] where i is the position a search of the same list found."""
    i = e.resolve(st, args[1])
    if i.op == "call" and i.a[0] == "index" and i.a[1][0].op == "item" and i.a[1][0].a[0] is e.resolve(st, args[0]):
        return ret(i.a[1][0], st)
    return None


def m_index_mut(e, st, f, args, ctx):
    """The same place as list[i] when read."""
    return m_index(e, st, f, args, ctx) or ret(mk("call", "std::ops::Index::index", tuple(e.resolve(st, a) for a in args), 0), st)


def m_vec_of_box(e, st, f, args, ctx):
    """vec![..]: the array written into the new box."""
    b = e.resolve(st, args[0])
    v = e.resolve(st, e.read(st, ("H", b), (("f", "value"), ("f", "value"))))
    return ret(v, st) if v.op == "agg" and v.a[0] == "array" else None


def m_clear(e, st, f, args, ctx):
    st = st.copy()
    root, path = target(e, st, args[0])
    if root[0] == "H":
        e.emit(st, "call", strip(f["p"]), (ident(e, st, args[0]),), ctx.line, ctx.fn.id)
    e.write(st, root, path, string("") if "String" in f["p"] else agg("array", None, (), ()))
    return ret(UNIT, st)


def m_remove(e, st, f, args, ctx):
    """Removal of the element a search found."""
    i = e.resolve(st, args[1])
    if not (i.op == "call" and i.a[0] == "index"):
        return None
    st = st.copy()
    root, path = target(e, st, args[0])
    old = e.read(st, root, path)
    if root[0] == "H":
        e.emit(st, "call", strip(f["p"]), (ident(e, st, args[0]), i), ctx.line, ctx.fn.id)
    x = i.a[1][0]
    # swap_remove also moves the last element into the gap
    e.write(st, root, path, mk("call", "without_swapped" if f["p"].endswith("swap_remove") else "without", (old, x), 0))
    return ret(x if "VecDeque" not in f["p"] else some(x), st)


def m_retain(e, st, f, args, ctx):
    root, path = target(e, st, args[0])
    old = e.resolve(st, e.read(st, root, path))
    it = mk("iter", old, 0, (("filter", args[1]),))
    outs = []
    for o in as_seq(e, st, it, ctx):
        if o.kind == "ret":
            s = o.state.copy()
            if root[0] == "H":
                e.emit(s, "call", strip(f["p"]), (ident(e, st, args[0]),), ctx.line, ctx.fn.id)
            e.write(s, root, path, o.ret)
            outs += ret(UNIT, s)
        else:
            outs.append(o)
    return outs


def m_drain(e, st, f, args, ctx):
    if len(args) > 1 and show(e.resolve(st, args[1])) != "RangeFull":
        return None
    st = st.copy()
    root, path = target(e, st, args[0])
    old = e.resolve(st, e.read(st, root, path))
    if root[0] == "H":
        e.emit(st, "call", strip(f["p"]), (ident(e, st, args[0]),), ctx.line, ctx.fn.id)
    e.write(st, root, path, agg("array", None, (), ()))
    return ret(mk("iter", old, 0, ()), st)


# ---- text
def m_fmt_arg(e, st, f, args, ctx):
    kind = strip(f["p"]).split("::")[-1]
    v = e.resolve(st, args[0])
    ty = re.sub(r"^(&\s*('\w+\s+)?(mut\s+)?)+", "", (f.get("ga") or ["?"])[-1])
    if kind == "new_display":
        if ty in ("str", "std::string::String", "std::borrow::Cow<'_, str>") or v.op in ("str", "cat"):
            return ret(mk("fmtarg", v), st)
        if v.op == "int":
            return ret(mk("fmtarg", string(str(v.a[0]))), st)
        return ret(mk("fmtarg", mk("call", "to_string", (v,), 0)), st)
    return ret(mk("fmtarg", mk("call", kind.replace("new_", ""), (v,), 0)), st)


def m_fmt_args(e, st, f, args, ctx):
    vals = [e.resolve(st, a) for a in args]
    if len(vals) == 1 and vals[0].op == "str":
        return ret(vals[0], st)
    t = template(vals[0]) if vals else None
    if t is None or len(vals) != 2 or vals[1].op != "agg" or t.count(None) != len(vals[1].a[3]):
        return ret(mk("call", "fmt", tuple(vals), 0), st)
    xs = iter(x.a[0] if x.op == "fmtarg" else x for x in vals[1].a[3])
    return ret(cat([string(x) if x is not None else next(xs) for x in t]), st)


def template(v):
    """Pieces of a compiled format template: literals, and None for each plain argument."""
    if v.op == "str":
        return [v.a[0]]
    m = re.match(r'^const:(b".*")$', v.a[0] if v.op == "sym" else "", re.S)
    if not m:
        return None
    import ast

    try:
        b = ast.literal_eval(m.group(1))
    except (SyntaxError, ValueError):
        return None
    out, i = [], 0
    while i < len(b):
        n = b[i]
        if n == 0:
            return out
        if n < 0x80:
            out.append(b[i + 1 : i + 1 + n].decode("utf-8", "replace"))
            i += 1 + n
        elif n == 0xC0:
            out.append(None)
            i += 1
        else:
            return None
    return None


def m_push_str(e, st, f, args, ctx):
    st = st.copy()
    root, path = target(e, st, args[0])
    old = e.resolve(st, e.read(st, root, path))
    new = cat([old, e.resolve(st, args[1])])
    if root[0] == "H":
        e.emit(st, "call", strip(f["p"]), (ident(e, st, args[0]), e.resolve(st, args[1])), ctx.line, ctx.fn.id)
    e.write(st, root, path, new)
    return ret(ok(UNIT) if "write" in f["p"] else UNIT, st)


def m_span_off(e, st, f, args, ctx):
    v = e.resolve(st, args[0])
    return ret(TRUE, st) if "__disabled_span" in str(v) or v.op in ("sym", "call") and "__disabled_span" in show(v) else None


def m_hash(e, st, f, args, ctx):
    """What is hashed becomes part of the hasher's state (std hashers only; others are followed)."""
    i, j = (0, 1) if strip(f["p"]).endswith("Hash::hash") else (1, 0)
    if not re.search(r"std::hash::(\w+::)?DefaultHasher", " ".join(map(str, f.get("ga") or [])) + " " + str(f.get("self"))) or len(args) < 2:
        return None
    st = st.copy()
    root, path = target(e, st, args[j])
    old = e.resolve(st, e.read(st, root, path))
    new = mk("call", "hashed", (old, e.resolve(st, args[i])), 0)
    e.write(st, root, path, new)
    return ret(UNIT, st)


def m_write_fmt(e, st, f, args, ctx):
    if not (f.get("self") or "").endswith("string::String"):
        return None
    return m_push_str(e, st, f, args, ctx)


def m_add(e, st, f, args, ctx):
    if not (f.get("self") or "").endswith("string::String"):
        return None
    return ret(cat([e.resolve(st, args[0]), e.resolve(st, args[1])]), st)


def m_op_assign(e, st, f, args, ctx):
    ty = f.get("self") or ""
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[f["p"].rsplit("::", 1)[-1][0]]
    st = st.copy()
    root, path = target(e, st, args[0])
    old, v = e.resolve(st, e.read(st, root, path)), e.resolve(st, args[1])
    if ty in INT_TYPES:
        new = e.binop(op, old, v, st)
    elif ty.endswith("string::String") and op == "Add":
        new = cat([old, v])
    else:
        return None
    e.write(st, root, path, new)
    return ret(UNIT, st)


def m_join(e, st, f, args, ctx):
    v, sep = e.resolve(st, args[0]), e.resolve(st, args[1])
    if v.op == "agg" and v.a[0] == "array":
        out = []
        for i, x in enumerate(v.a[3]):
            out += ([sep] if i else []) + [x]
        return ret(cat(out), st)
    return ret(mk("call", "join", (v, sep), 0), st)


def m_format(e, st, f, args, ctx):
    return ret(args[0], st)


def m_transparent_ref(e, st, f, args, ctx):
    return ret(args[0], st)


def m_max(e, st, f, args, ctx):
    a, b = e.resolve(st, args[0]), e.resolve(st, args[1])
    name = f["p"].split("::")[-1]
    if a.op == "int" and b.op == "int":
        return ret(integer((max if name == "max" else min)(a.a[0], b.a[0])), st)
    x, y = sorted((a, b), key=show)
    return ret(mk("call", name, (x, y), 0), st)


IDENT = {
    "std::string::String::as_str", "std::string::String::as_mut_str", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
    "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow",
    "std::borrow::BorrowMut::borrow_mut",
    "std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::boxed::Box::pin", "std::sync::Arc::pin",
    "std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::as_mut", "std::pin::Pin::get_mut",
    "std::pin::Pin::as_ref", "std::pin::Pin::get_unchecked_mut", "std::pin::Pin::into_inner",
    "std::future::IntoFuture::into_future", "std::convert::identity", "std::hint::black_box",
    "std::mem::ManuallyDrop::new", "uuid::fmt::hyphenated", "uuid::fmt::as_hyphenated", "tracing::Instrument::instrument", "std::iter::Iterator::by_ref",
    "core::str::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes", "std::vec::Vec::into_boxed_slice",
    "std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::path::PathBuf::as_path", "std::path::Path::new",
    "std::boxed::Box::into_inner", "unwrap_infallible::UnwrapInfallible::unwrap_infallible", "std::sync::Arc::as_ref",
    "std::borrow::Cow::into_owned", "std::hint::must_use", "core::hint::must_use", "std::path::Path::to_path_buf", "futures::FutureExt::boxed", "bytes::BytesMut::freeze",
    "std::intrinsics::transmute", "std::future::ready::ready", "std::ops::Try::from_output_unused",
    "std::iter::Iterator::cloned_unused", "core::str::to_owned",
}

VALUE = {"std::borrow::ToOwned::to_owned", "core::slice::to_vec", "std::slice::to_vec", "std::option::Option::cloned",
         "std::option::Option::copied", "core::option::Option::cloned"}

ITER_SRC = {
    "core::slice::iter", "core::slice::iter_mut", "std::iter::IntoIterator::into_iter", "std::collections::VecDeque::iter",
    "std::collections::VecDeque::iter_mut",
    "std::collections::HashMap::iter", "std::collections::HashMap::iter_mut", "std::collections::BTreeMap::iter",
    "std::collections::BTreeMap::iter_mut", "std::collections::BTreeSet::iter", "std::collections::HashSet::iter",
    "std::collections::LinkedList::iter",
}

CONSUME = {"any", "all", "find", "position", "find_map", "for_each", "try_for_each", "fold", "try_fold", "collect",
           "count", "sum", "last", "max_by_key", "min_by_key", "collect_vec", "partition", "unique_by_never", "max", "min",
           "max_by", "min_by", "product", "unzip", "join", "sorted", "sorted_by", "sorted_by_key"}
ADAPT = LAZY | {"enumerate", "rev", "zip", "chain", "take", "skip", "cloned", "copied", "peekable", "by_ref", "fuse",
                "step_by", "map_while", "take_while", "skip_while", "flatten", "cycle", "zip_longest", "unique", "unique_by", "dedup", "interleave", "tuple_windows"}

PURE = [re.compile(x) for x in [
    r"^(core|std)::(str|string::String|slice|num|char|f64|f32|array)(::|$)(?!push|clear|insert|truncate|remove|extend|retain|drain|fill|copy_from_slice|sort|reverse|swap|append|pop|resize|to_be_changed)",
    r"^(core|std)::fmt::(Arguments|rt)", r"^alloc::fmt::format$", r"^std::fmt::format$", r"^std::alloc::fmt::format$", r"(^|::)fmt::format$", r"^std::fmt::Arguments",
    r"^anyhow::(__private|error|Error|Context|anyhow)", r"^anyhow::(Chain|Ok)",
    r"^std::(path::Path|path::PathBuf)::(join|display|exists_never|file_name|parent|extension|to_str|to_string_lossy|with_extension|as_os_str|starts_with|is_absolute|new|from)",
    r"^std::time::Duration::", r"^time::(Duration|OffsetDateTime|duration|ext|UtcDateTime|offset_date_time)(::|$)(?!now)",
    r"^std::(collections::(hash_map::|btree_map::)?(HashMap|BTreeMap|HashSet|BTreeSet|VecDeque|LinkedList|hash_map|btree_map)|vec::Vec)::(len|is_empty|get|contains|contains_key|first|last|iter|keys|values|values_mut|back|front|new|with_capacity|capacity|get_mut|get_key_value|intersection|difference|union|is_disjoint|is_subset|first_key_value|last_key_value|first_mut|last_mut|back_mut|front_mut|range|as_ptr|binary_search)$",
    r"^std::ops::(Add|Sub|Mul|Div|Rem|Neg|Index|IndexMut|Not|BitAnd|BitOr|Range\w*|RangeInclusive)::",
    r"^std::(any|mem::(size_of|align_of|discriminant|size_of_val))", r"^std::hash::(?!Hasher::write$)",
    r"^std::convert::(TryInto|TryFrom)::", r"^std::iter::(empty|once|repeat)$",
    r"^std::str::", r"^std::string::ToString::to_string", r"^std::fmt::(Display|Debug)::",
    r"^std::sync::(Arc|Weak)::(downgrade|ptr_eq|strong_count|weak_count|upgrade|new|as_ptr)$",
    r"^parking_lot::lock_api::(Mutex|RwLock|ReentrantMutex)::new$", r"^std::sync::(Mutex|RwLock|OnceLock|LazyLock)::new$",
    r"^tokio::sync::(Mutex|RwLock|Notify)::new$",
    r"^std::cell::(Cell|RefCell|OnceCell|UnsafeCell)::new$", r"^std::sync::atomic::Atomic\w*::new$",
    r"^std::(collections::hash_map::)?RandomState", r"^std::io::Error::kind$", r"^std::sync::LazyLock",
    r"^std::panic::(Location|PanicHookInfo|PanicInfo)", r"^std::(ptr|num|cmp)::",
    r"^thread_local::ThreadLocal::(get_or_default|get_or)$", r"^std::default::Default", r"^std::error::Error::",
    r"^std::vec::from_elem$", r"^std::ops::RangeInclusive", r"^std::any::", r"^std::convert::", r"^std::marker::",
    r"^protobuf::(EnumOrUnknown|MessageField|Enum|EnumFull|MessageFull|Message)::(enum_value|enum_value_or_default|value|as_ref|is_some|is_none|unwrap_or_default|into_option|some|none|new|from|get_or_default|as_mut|special_fields|compute_size|descriptor|enum_value_or)",
    r"^itertools::", r"^std::borrow::", r"^std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)::", r"^std::pin::", r"^std::task::",
    r"^bytes::(Bytes|BytesMut|Buf)::(len|is_empty|remaining|new|chunk|from_static|copy_from_slice|with_capacity)$", r"^std::env::consts",
    r"^thiserror::", r"^http::(HeaderMap|HeaderValue|Uri|Response|Request|StatusCode)::(get|headers|status|path|to_str|uri|from_static|as_u16)",
    r"^regex::Regex::(is_match|as_str|replace_all|captures|find)", r"^std::sync::atomic::(fence|Ordering)",
    r"^urlencoding::", r"^std::future::get_context$", r"^std::thread::(current|Thread)", r"^std::ffi::",
]]


def is_pure(path):
    return any(x.search(path) for x in PURE)


def m_to_string(e, st, f, args, ctx):
    s = (f.get("self") or "").replace("&", "").strip()
    v = e.resolve(st, args[0])
    if s in ("str", "std::string::String") or s.endswith(" str") or v.op == "str":
        return ret(v, st)
    return ret(mk("call", "to_string", (v,), 0), st)


def m_anyhow(e, st, f, args, ctx):
    return ret(mk("call", "anyhow", tuple(e.resolve(st, a) for a in args), 0), st)


def m_arguments(e, st, f, args, ctx):
    return ret(mk("call", "fmt", tuple(e.resolve(st, a) for a in args), 0), st)


def m_thread_local(e, st, f, args, ctx):
    """What this thread has of it: nothing yet, which is the default, or what get_or_default gives."""
    got = mk("call", "thread_local::ThreadLocal::get_or_default", (e.resolve(st, args[0]),), 0)
    outs = []
    for truth, s in e.branch(st, mk("is", mk("call", "thread_local::ThreadLocal::get", (e.resolve(st, args[0]),), 0), "Some")):
        if truth:
            outs += ret(some(got), s)
        else:
            for s2 in e.assume(s, got, False):
                outs += ret(NONE, s2)
    return outs


def m_send_modify(e, st, f, args, ctx):
    """A change in place is the sending of what the closure leaves."""
    outs = []
    root = ("L", ctx.fid + ("sent",), 0)
    s0 = st.copy()
    s0.store[root] = mk("call", "current", (e.resolve(st, args[0]),), 0)
    for o in e.invoke(s0, args[1], [tup(ref(root, (), True))], ctx, extra=("c",)):
        if o.kind != "ret":
            outs.append(o)
            continue
        s = o.state.copy()
        v = e.read(s, root, ())
        s.store.pop(root, None)
        path = "tokio::sync::watch::Sender::send_replace"
        vals = (e.view(s, args[0]), e.resolve(s, v))
        res = mk("call", path, vals, e.occurrence(s, path, vals))
        e.emit(s, "call", path, vals, ctx.line, ctx.fn.id, res=res)
        outs += ret(UNIT, s)
    return outs


def m_not(e, st, f, args, ctx):
    return ret(not_(e.resolve(st, args[0])), st)


def m_unit(e, st, f, args, ctx):
    return ret(UNIT, st)


def m_context(e, st, f, args, ctx):
    return ret(args[0], st)


def m_once(e, st, f, args, ctx):
    return ret(agg("array", None, ("0",), (args[0],)), st)


def m_negative(e, st, f, args, ctx):
    """A difference is negative where what is taken away is more."""
    v = e.resolve(st, args[0])
    if v.op == "call" and short(v.a[0]) == "Sub::sub" and len(v.a[1]) == 2:
        return ret(lt(v.a[1][0], v.a[1][1]) if f["p"].endswith("negative") else lt(v.a[1][1], v.a[1][0]), st)
    return ret(mk("call", f["p"], (v,), 0), st)


TABLE = {
    "std::iter::once": m_once,
    "time::Duration::is_negative": m_negative, "time::Duration::is_positive": m_negative,
    "tokio::sync::watch::Sender::send_modify": m_send_modify,
    "anyhow::__private::not": m_not,
    "thread_local::ThreadLocal::get": m_thread_local,
    "std::vec::Vec::push": m_push,
    "std::collections::VecDeque::push_back": m_push,
    "std::collections::VecDeque::push_front": m_push,
    "std::collections::LinkedList::push_back": m_push,
    "std::iter::Extend::extend": m_extend,
    "std::vec::Vec::extend_from_slice": m_extend,
    "std::vec::Vec::append": m_append,
    "std::collections::VecDeque::append": m_append,
    "std::vec::Vec::clear": m_clear,
    "std::collections::VecDeque::clear": m_clear,
    "std::string::String::clear": m_clear,
    "std::vec::Vec::remove": m_remove,
    "std::vec::Vec::swap_remove": m_remove,
    "std::collections::VecDeque::remove": m_remove,
    "std::vec::Vec::retain": m_retain,
    "std::collections::VecDeque::retain": m_retain,
    "std::vec::Vec::drain": m_drain,
    "std::collections::VecDeque::drain": m_drain,
    "tracing::Span::is_disabled": m_span_off,
    "std::hash::Hash::hash": m_hash, "std::hash::Hasher::write": m_hash,
    "std::string::String::push_str": m_push_str,
    "std::string::String::push": m_push_str,
    "std::fmt::Write::write_str": m_push_str,
    "std::fmt::Write::write_fmt": m_write_fmt,
    "std::ops::Add::add": m_add,
    "std::fmt::format": m_format,
    "alloc::fmt::format": m_format,
    "std::clone::Clone::clone": m_clone,
    "std::clone::Clone::clone_from": m_clone_from,
    "std::borrow::ToOwned::clone_into": m_clone_from,
    "std::ops::Deref::deref": m_deref,
    "std::ops::DerefMut::deref_mut": m_deref,
    "std::convert::Into::into": m_into,
    "std::convert::From::from": m_into,
    "std::cmp::PartialEq::eq": m_eq,
    "std::cmp::PartialEq::ne": m_eq,
    "std::cmp::PartialOrd::lt": m_ord,
    "std::cmp::PartialOrd::le": m_ord,
    "std::cmp::PartialOrd::gt": m_ord,
    "std::cmp::PartialOrd::ge": m_ord,
    "std::cmp::Ord::cmp": m_cmp,
    "std::cmp::Ord::max": m_max,
    "std::cmp::Ord::min": m_max,
    "std::cmp::max": m_max,
    "std::cmp::min": m_max,
    "std::mem::drop": m_drop,
    "std::mem::replace": m_replace,
    "std::mem::swap": m_swap,
    "std::mem::take": m_take,
    "std::mem::forget": m_unit,
    "std::option::Option::take": m_take,
    "std::option::Option::replace": m_opt_replace,
    "std::option::Option::insert": m_opt_insert,
    "std::option::Option::get_or_insert_with": m_get_or_insert_with,
    "std::option::Option::get_or_insert": m_get_or_insert_with,
    "std::default::Default::default": m_default,
    "std::cell::Cell::get": m_cell_get,
    "std::cell::Cell::set": m_cell_set,
    "std::cell::Cell::replace": m_cell_set,
    "std::ops::Fn::call": m_fn_call,
    "std::ops::FnMut::call_mut": m_fn_call,
    "std::ops::FnOnce::call_once": m_fn_call,
    "std::thread::LocalKey::with": m_with,
    "std::thread::LocalKey::with_borrow": m_with,
    "std::thread::LocalKey::with_borrow_mut": m_with,
    "std::future::poll_fn": m_poll_fn,
    "tokio::future::poll_fn": m_poll_fn,
    "std::future::poll_fn::poll_fn": m_poll_fn,
    "std::string::ToString::to_string": m_to_string,
    "anyhow::__private::format_err": m_anyhow,
    "anyhow::__private::must_use": m_identity,
    "anyhow::Context::context": m_context,
    "anyhow::Context::with_context": m_context,
    "std::string::String::new": lambda e, st, f, a, c: ret(string(""), st),
    "std::string::String::with_capacity": lambda e, st, f, a, c: ret(string(""), st),
    "std::vec::Vec::with_capacity": lambda e, st, f, a, c: ret(agg("array", None, (), ()), st),
    "std::ops::AddAssign::add_assign": m_op_assign,
    "std::ops::SubAssign::sub_assign": m_op_assign,
    "std::ops::MulAssign::mul_assign": m_op_assign,
    "std::ops::Index::index": m_index,
    "std::ops::IndexMut::index_mut": m_index_mut,
    "std::boxed::box_assume_init_into_vec_unsafe": m_vec_of_box,
    "std::vec::Vec::new": lambda e, st, f, a, c: ret(agg("array", None, (), ()), st),
}


def lookup(path, f):
    m = TABLE.get(path)
    if m is not None:
        return m
    if path in IDENT:
        rd = f.get("rd")
        return m_identity
    if path in VALUE:
        return m_value
    name = path.rsplit("::", 1)[-1]
    if path in ITER_SRC:
        return m_into_iter
    if name == "poll" and path.endswith("Future::poll"):
        return m_poll
    if name in ("or_insert_with", "or_insert", "or_default") and "Entry::" in path:
        return m_entry
    if "cmp::Ordering" in path and name in ORDER_TESTS:
        return m_order_test
    if "cmp::Ordering" in path and name == "reverse":
        return m_reverse
    if name == "len" and path.startswith(("std::", "core::", "bytes::", "alloc::", "dashmap")):
        return m_len
    if name == "is_empty" and path.startswith(("std::", "core::", "bytes::", "alloc::")):
        return m_is_empty
    if name in ("lock", "read", "write") and re.search(r"(parking_lot|lock_api|std::sync).*(Mutex|RwLock)::", path):
        return m_lock
    if "Condvar::wait" in path:
        return m_condvar
    if path.startswith(("std::iter::Iterator::", "itertools::Itertools::", "std::iter::DoubleEndedIterator::")):
        if name == "next":
            return m_next
        if name in ADAPT:
            return m_adaptor
        if name in CONSUME:
            return m_consume
    if path in ("core::slice::concat", "std::slice::concat", "std::slice::Concat::concat") or path.endswith("slice::concat"):
        return m_concat
    if path.endswith("slice::join"):
        return m_join
    if path.startswith("core::fmt::rt::Argument::"):
        return m_fmt_arg
    if re.match(r"^(core|std)::fmt::(rt::)?Arguments::(new|from_str)", path):
        return m_fmt_args
    if path.startswith("core::fmt::rt::") or path.startswith("std::fmt::Arguments") or path.startswith("core::fmt::Arguments"):
        return m_arguments
    return None
