"""What is kept on disk comes back whole."""
import engine
from rules import *
from c61 import m, asked

CRATES = ("bd_session", "bd_workflows", "bd_logger")
SER, DE = "serde::Serialize", "serde::Deserialize"
FREE = {"serialize", "serialize_into", "deserialize", "deserialize_from"}


def impls(c, p, crate, trait):
    """the types of a crate that a trait is implemented for, without the helpers the derived code brings along"""
    out = {}
    for i in p.impls:
        t = i["trait"].split("<")[0]
        if t == trait and "::_::" not in i["self"] and "__" not in i["self"]:
            for _, path in i["items"]:
                if path.startswith(crate + "::"):
                    out[i["self"].split("<")[0]] = path
    return out


def adt(p, crate, t):
    hits = [a for a in p.adts.values() if a["id"] == f"{crate}::{t}"]
    if len(hits) != 1:
        raise Anchor(f"type {t}: {len(hits)} definitions")
    return hits[0]


def under(p, f):
    """functions defined inside a function"""
    return [g for g in p.fns.values() if f.id.split("::", 1)[1] in g.id and g is not f]


def types(c, rule):
    out = []
    for crate in CRATES:
        p = c.program(crate)
        ser, de = impls(c, p, crate, SER), impls(c, p, crate, DE)
        c.ob(rule, bool(ser) and set(ser) == set(de), None, f"{crate}: written {sorted(ser)}, read {sorted(de)}")
        for t in sorted(set(ser) & set(de)):
            out.append((p, crate, t, adt(p, crate, t), p.by_id.get(ser[t]), p.by_id.get(de[t])))
    return out


def writing(c, rule, p, f, a):
    """for every variant: the names and values written, in order, or the number it is written as"""
    out, mods = {}, set()
    for q in c.paths_of(p, f, Config(budget=60000)):
        if not c.ob(rule, q.kind == "ret" and not q.why, q, f"writing {f.id} ends with {q.kind} {q.why}") or m(q.ret).startswith("Err("):
            continue
        ev = [e for e in q.events(True) if re.match(r"Serialize|__SerializeWith", e.name)]
        fields = []
        for e in ev:
            if e.name.endswith("::serialize_field"):
                v = m(e.args[-1])
                g = re.fullmatch(r"__SerializeWith\{.*values:\((.*)\)\}", v)
                fields.append((m(e.args[-2]).strip("'") if len(e.args) > 2 else None, g[1] if g else v))
            elif e.name.endswith("::skip_field"):
                pass
            elif re.search(r"::serialize_(newtype_variant|newtype_struct|unit_variant)$", e.name):
                fields.append((m(e.args[2]) if "variant" in e.name else None, m(e.args[-1])))
        out.setdefault(tuple(fields), q)
    return out


def reading(c, rule, p, f, a):
    """what a value read is made of: {variant: [number of the element or None]}"""
    out = []
    seqs = [g for g in under(p, f) if re.search(r"__Visitor.*::visit_seq$", g.id)]
    for g in seqs:
        for q in c.paths_of(p, g, Config(budget=60000)):
            if not c.ob(rule, q.kind == "ret" and not q.why, q, f"reading {g.id} ends with {q.kind} {q.why}") or m(q.ret).startswith("Err("):
                continue
            els = [e.res for e in q.events(True) if e.name.endswith("::next_element")]
            out.append((q, els))
    return out


def structs(c):
    c.rule("written", "every part of what is kept is written once, as it is")
    c.rule("read", "every part is read back from where it was written")
    for p, crate, t, a, f, g in types(c, "written"):
        if not (c.ob("written", f is not None, None, f"{t}: no code writes it") and c.ob("read", g is not None, None, f"{t}: no code reads it")):
            continue
        w = writing(c, "written", p, f, a)
        if a["enum"]:
            variants(c, p, t, a, f, g, w)
            continue
        names = [x[0] for x in a["variants"][0][1]]
        if not c.ob("written", len(w) == 1, f, f"{t} is written in {len(w)} ways"):
            continue
        got = list(next(iter(w)))
        got = [(x[1].removeprefix("self."), x[1]) for x in got]
        q = w[tuple(next(iter(w)))]
        for nm in names:
            at = [i for i, x in enumerate(got) if x[1] == f"self.{nm}"]
            c.ob("written", len(at) == 1, q, f"{nm} of {t} is written {len(at)} times: {got}")
        c.ob("written", len(got) == len(names), q, f"{t} has {names}, written are {[x[1] for x in got]}")
        rs = reading(c, "read", p, g, a)
        if not c.ob("read", len(rs) >= 1, g, f"{t} is never read"):
            continue
        for q, els in rs:
            c.ob("read", len(els) == len(got), q, f"{len(els)} parts of {t} are read, {len(got)} written")
            v = fld(downcast(q.rett, "Ok"), "0")
            for k, (nm, _) in enumerate(got[:len(els)]):
                x, el = fld(v, nm), fld(downcast(fld(downcast(els[k], "Ok"), "0"), "Some"), "0")
                gone = q.decide(mk("is", fld(downcast(els[k], "Ok"), "0"), "Some")) is False
                c.ob("read", gone or x is el or x is fld(el, "value"), q, f"{nm} of {t} is written as part {k}, and read as {m(x)}")
        to = {c1.rsplit("::", 1)[0] for h in under(p, f) if "__SerializeWith" in h.id for q in c.paths_of(p, h, Config(budget=60000)) for c1 in [e.path for e in q.events(True) if e.path and e.name.endswith("::serialize")]}
        back = {c1.rsplit("::", 1)[0] for h in under(p, g) if "visit_seq::__DeserializeWith" in h.id for q in c.paths_of(p, h, Config(budget=60000)) for c1 in [e.path for e in q.events(True) if e.path and e.name.endswith("::deserialize")]}
        c.ob("read", to == back, g, f"parts of {t} are written by {sorted(to)} and read by {sorted(back)}")


def variants(c, p, t, a, f, g, w):
    """each variant is written under a number and read back from that number"""
    names = [v[0] for v in a["variants"]]
    number = {}
    for fields, q in w.items():
        ok = len(fields) == 1 and fields[0][0] is not None
        g1 = re.fullmatch(r"self\?(\w+)\.0", fields[0][1]) if ok else None
        if c.ob("written", g1, q, f"a {t} is written as {fields}"):
            c.ob("written", g1[1] not in number, q, f"{g1[1]} of {t} is written twice")
            number[g1[1]] = fields[0][0]
    c.ob("written", set(number) == set(names) and len(set(number.values())) == len(names), f, f"{t} has {names}, written are {number}")
    field, back = {}, {}
    for h in under(p, g):
        if h.id.endswith("visit_u64"):
            for q in c.paths_of(p, h, Config(budget=60000)):
                n = re.fullmatch(r"Ok\((__\w+)\)", m(q.ret))
                if n:
                    for k in number.values():
                        if asked(q, rf"{k}==\$2|\$2=={k}"):
                            field[k] = n[1]
        if h.id.endswith("visit_enum"):
            for q in c.paths_of(p, h, Config(budget=60000)):
                n = re.fullmatch(r"Ok\((\w+)\(VariantAccess::newtype_variant\(EnumAccess::variant\(\$2\)\?Ok\.0\.1\)\?Ok\.0\)\)", m(q.ret))
                if m(q.ret).startswith("Err("):
                    continue
                if c.ob("read", n, q, f"a {t} is read as {m(q.ret)}"):
                    on = [x for x in set(field.values()) | {f"__field{i}" for i in range(len(names))} if asked(q, rf"EnumAccess::variant\(\$2\)\?Ok\.0\.0 is {x}")]
                    off = [x for x in {f"__field{i}" for i in range(len(names))} if asked(q, rf"EnumAccess::variant\(\$2\)\?Ok\.0\.0 is {x}") is not False]
                    on = on or off
                    c.ob("read", len(on) == 1, q, f"{n[1]} of {t} is read for {on}")
                    back[n[1]] = on[0] if on else None
    for x in names:
        c.ob("read", back.get(x) is not None and field.get(number.get(x)) == back.get(x), g, f"{x} of {t} is written as {number.get(x)} and read from {back.get(x)}, numbers are read as {field}")


def form(c):
    c.rule("same-form", "all that is kept is written and read in one and the same form")
    p = c.program("bd_key_value", "bd_workflows", "bd_session", "bd_logger")
    n = {}
    for f in p.fns.values():
        for b in f.blocks:
            t = b[1]
            if t[0] == "call" and "k" in t[1] and "fn" in t[1]["k"]:
                path = engine.strip_generics(t[1]["k"]["fn"]["p"])
                if path.startswith("bincode::"):
                    last = path.split("::")[-1]
                    n[last] = n.get(last, 0) + 1
                    c.ob("same-form", last in FREE, f, f"{f.id} uses {path}")
    c.ob("same-form", any(x.startswith("serialize") for x in n) and any(x.startswith("deserialize") for x in n), None, f"written and read by {n}")


GROUPS = [structs, form]
FLOORS = {"written": 100, "read": 120, "same-form": 4}
