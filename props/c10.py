"""Feature flags: the answer is the configured value of the asked type, or the default."""
from rules import *

FF = "feature_flags::FeatureFlags>::"
U64 = 2**64 - 1


def impl(c, p, name):
    fs = [f for f in p.by_id.values() if f.kind == "fn" and f.id.endswith(FF + name) and "watch::Receiver" not in f.id]
    if not fs:
        raise Anchor(f"implementation of {name} over configured values")
    return fs


def lookup(q, want):
    """(the flag is configured with type `want`, its value) on this path; (None, None) when not decided."""
    g = {x for k in q.state.facts for x in subterms(k) if x.op == "call" and short(x.a[0]) == "HashMap::get"}
    g = [x for x in g if show(x.a[1][1]) == "$2" and show(x.a[1][0]).startswith("self.")]
    if len(g) != 1:
        return None, None
    have = q.decide(mk("is", g[0], "Some"))
    v = fld(downcast(g[0], "Some"), "0")
    if have is None:
        return None, None
    typed = have and q.decide(is_(v, want, "bd_runtime_config::feature_flags::FeatureFlagValue"))
    return typed, fld(downcast(v, want), "0")


def typed(c):
    p = c.program("bd_runtime_config")
    c.rule("typed", "a flag read with its own type gives its configured value, anything else gives the caller's default")
    for name, want in (("get_bool", "Bool"), ("get_integer", "Integer"), ("get_string", "String")):
        for f in impl(c, p, name):
            for q in c.paths_of(p, f):
                t, v = lookup(q, want)
                good = q.kind == "ret" and t is not None and (q.e.view(q.state, q.rett) is (v if t else sym("$3")) or show(q.rett) == show(v if t else sym("$3")))
                c.ob("typed", good, q, f"{name} gives {q.ret}")


def enabled(c):
    p = c.program("bd_runtime_config")
    c.rule("fraction", "a numeric flag n enables the feature for exactly n of every 10000 draws: never at 0, always from 10000 on")
    c.rule("fraction-default", "a missing or non-numeric flag gives the caller's default")
    for f in impl(c, p, "feature_enabled"):
        qs = c.paths_of(p, f)
        rest = []
        for q in qs:
            t, v = lookup(q, "Integer")
            if t is None or t is False:
                c.ob("fraction-default", t is False and q.kind == "ret" and show(q.rett) == "$3", q, "the default is not returned")
            else:
                rest.append((q, v))
        if not rest:
            c.ob("fraction", False, f, "numeric flags are ignored")
            continue
        cs = ints_in([k for q, _ in rest for k in q.state.facts]) | {0, 1, 2, 5000, 9999, 10000, 10001, U64}
        cs |= {x + d for x in cs for d in (-1, 1)}
        for i in sorted(x for x in cs if 0 <= x <= U64):
            draws = {0, 1, i - 1, i, i + 1, 9999, 10000, 10000 + i, 10000 + i - 1, 123456789, U64}
            for r in sorted(d for d in draws if 0 <= d <= U64):
                want = True if i >= 10000 else r % 10000 < i
                hit = 0
                for q, v in rest:
                    R = [x for x in q.events() if re.search(r"(Rng::gen|random|next_u64|Rng::gen_range|sample)\(", repr(x))]
                    m = {v: integer(i)}
                    for x in R:
                        w = width(x)
                        c.ob("fraction", w is not None, q, f"not drawn evenly from a multiple of 10000: {x!r}")
                        m[x.res] = integer(r % (w or 10000))
                    h = decide_all(c, p, q, m)
                    if h is False:
                        continue
                    hit += 1
                    res = fold(c, p, q.rett, m) if q.kind == "ret" else None
                    c.ob("fraction", h is True and res is boolean(want), q, f"a flag of {i} with draw {r} gives {show(res) if res is not None else 'a panic'}")
                c.ob("fraction", hit > 0, f, f"no outcome for a flag of {i}")


def width(ev):
    """How many equally likely values a draw has; None when they do not spread evenly over 10000 slots.

    A full machine word counts as even: its size is no multiple of 10000, but the difference cannot be observed.
    """
    s = repr(ev)
    if re.match(r"^(Rng::gen|Rng::random|rand::random|RngCore::next_u(32|64))\(", s):
        return 2**64
    t = next((x for a in ev.args for x in subterms(a) if x.op == "agg" and "Range" in str(x.a[0])), None)
    if re.match(r"^Rng::(gen_range|random_range)\(", s) and t is not None:
        f = dict(zip(t.a[2], t.a[3]))
        lo, hi = f.get("start"), f.get("end")
        if lo is not None and hi is not None and lo.op == hi.op == "int":
            n = hi.a[0] - lo.a[0] + ("Inclusive" in str(t.a[0]))
            return n if n > 0 and n % 10000 == 0 and lo.a[0] == 0 else None
    return None


def decide_all(c, p, q, m):
    """The path's conditions on the value and the draw, at the given ones."""
    res = True
    for k, b in q.state.facts.items():
        if not any(x in subterms(k) for x in m):
            continue
        x = fold(c, p, k, m)
        if x not in (TRUE, FALSE):
            res = None
        elif (x is TRUE) != b:
            return False
    return res


def watch(c):
    p = c.program("bd_runtime_config")
    c.rule("watch", "a watched flag set answers every question from its current snapshot with the caller's own arguments")
    for name in ("feature_enabled", "get_bool", "get_integer", "get_string"):
        f = [f for f in p.by_id.values() if f.kind == "fn" and f.id.endswith(FF + name) and "watch::Receiver" in f.id]
        c.ob("watch", len(f) == 1, f"watch {name}", "no implementation over a watch")
        for q in c.paths_of(p, f[0]):
            b = q.ev(r"^Receiver::borrow\(")
            if q.kind != "ret":
                c.ob("watch", len(b) == 1 and q.decide(mk("is", b[0].res, "Some")) is False, q, "panics although a snapshot exists")
                continue
            e = q.ev(rf"^FeatureFlags::{name}\(")
            c.ob("watch", len(b) == 1 and len(e) == 1 and q.rett is e[0].res and show(e[0].args[0]) == show(b[0].res) + "?Some.0"
                 and [show(x) for x in e[0].args[1:]] == ["$2", "$3"], q, "the snapshot's own answer is not returned")


def always_some(c):
    p = c.program("bd_runtime_config")
    c.rule("never-none", "the flag loader's conversion yields a usable set even when nothing could be loaded")
    f = c.fn(p, "bd_runtime_config::feature_flags::new_memory_feature_flags_loader")
    conv = [g for g in p.by_id.values() if g.kind == "closure" and g.id.startswith(f.id + "::{closure") and g.id.count("{closure") == 1]
    if len(conv) != 1:
        qs = []
    else:
        qs = c.paths_of(p, conv[0])
    for q in qs:
        have = q.decide(mk("is", sym("$2"), "Some"))
        v = fld(q.rett, "0") if known_variant(q.rett) == "Some" else None
        ok = q.kind == "ret" and v is not None and have is not None
        if ok and have:
            ok = show(v) in ("$2?Some.0",) or show(v).endswith("($2?Some.0)")
        elif ok:
            ok = bool(re.search(r"HashMap::new\(|\[\]|default\(", show(v)))
        c.ob("never-none", ok, q, "no flag set, or not the loaded one")


GROUPS = [typed, enabled, watch, always_some]
FLOORS = {"typed": 6, "fraction": 100, "fraction-default": 1, "watch": 4, "never-none": 1}
