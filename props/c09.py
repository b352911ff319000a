"""Global fields: adding replaces, removing removes, order is the order of addition."""
from meta import *


def setup(c):
    p = c.program(*CR)
    return p, field(p, MC, r"^(std::vec::Vec<.*LogField>|.*LogFields)$")


def final(q, fs):
    v = q.x.heap().get(sym("self"))
    if v is None:
        return fld(sym("self"), fs)
    return q.e.resolve(q.state, fld(v, fs))


def outcome(q, fs):
    """(other conditions, which way the list went, well formed) of a path."""
    G = fld(sym("self"), fs)
    v = final(q, fs)
    it = seq_item(G)
    G = fld(sym("self"), fs)
    items = {x for k in q.state.facts for x in subterms(k) if x.op == "item" and G in subterms(x)} | {x for x in subterms(v) if x.op == "item"}
    rest = frozenset((k, b) for k, b in q.state.facts.items() if not items & subterms(k))
    mine = {(k, b) for k, b in q.state.facts.items() if items & subterms(k)}
    return rest, parts_of(v), mine


def judge(c, rule, qs, fs, key, tail, drop):
    """Over all paths: the list loses the item named `key`, and only it, and gains `tail`."""
    G = fld(sym("self"), fs)
    groups = {}
    for q in qs:
        rest, ps, mine = outcome(q, fs)
        if tail:
            c.ob(rule, bool(ps) and ps[-1] is mk("one", tail), q, f"the list becomes {show(final(q, fs))[:200]}")
            ps = ps[:-1]
        way = None
        if len(ps) == 1 and ps[0].op == "all":
            s = ps[0].a[0]
            if s is G and not mine:
                way = "absent"
            elif s.op == "call" and s.a[0] == "without" and s.a[1][0] is G:
                it = s.a[1][1]
                if it.op == "item" and it.a[0] is G and mine == {(eq(fld(it, "key"), key), True)}:
                    way = "found"
        elif len(ps) == 1 and ps[0].op == "each" and ps[0].a[0] is G and not mine:
            it = seq_item(G)
            if ps[0].a[1] == ((((eq(fld(it, "key"), key), False),), (mk("one", it),)),):
                way = "filtered"
        c.ob(rule, way is not None, q, f"the list becomes {show(final(q, fs))[:200]}: not the list without the item of that name")
        groups.setdefault(rest, set()).add(way)
    for ways in groups.values():
        c.ob(rule, "filtered" in ways or ways == {"absent", "found"}, qs[0].fn, "an item of that name stays in the list")


def add(c):
    p, fs = setup(c)
    c.rule("replace", "after adding a field the list holds that field last and no other one of its name, everything else in place")
    qs = c.paths_of(p, f"{MC}::add_field")
    for q in qs:
        if known_variant(q.rett) != "Ok":
            c.ob("replace", final(q, fs) is fld(sym("self"), fs), q, "a rejected field changes the list")
    judge(c, "replace", [q for q in qs if known_variant(q.rett) == "Ok"], fs, fld(sym("$2"), "key"), sym("$2"), True)


def remove(c):
    p, fs = setup(c)
    c.rule("remove", "after removing a name the list holds no field of that name, everything else in place")
    qs = c.paths_of(p, f"{MC}::remove_field")
    for q in qs:
        c.ob("remove", q.kind == "ret", q, "removing a field can panic")
    judge(c, "remove", qs, fs, sym("$2"), None, False)


GROUPS = [add, remove]
FLOORS = {"replace": 2, "remove": 2}
