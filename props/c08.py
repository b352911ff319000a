"""Reserved names: a custom field can never take a name the SDK uses for itself."""
from meta import *


def from_logs(c):
    """Custom fields of a log or of the provider never reach a field list under a reserved name."""
    p = c.program(*CR)
    c.rule("filtered", "a custom field enters a log's field lists only under an unreserved name; out-of-the-box fields always do")
    for q in c.paths_of(p, f"{MC}::normalized_metadata_with_extra_fields"):
        if q.kind != "ret" or known_variant(q.rett) != "Ok":
            continue
        v = q.rett.a[3][0]
        fs = field(p, MC, r"^(std::vec::Vec<.*LogField>|.*LogFields)$")
        for name in ("fields", "matching_fields"):
            x = fld(v, name)
            if x.op == "call" and x.a[0] == "unique_by":
                x = x.a[1][0]
            for s, k in parts(c, p, x):
                c.ob("filtered", k in ("ootb", "custom") or (k == "all" and s == f"self.{fs}"), q, f"{name}: unfiltered part from {s}: {k}")


def add_field(c):
    """Global custom fields are checked before anything changes."""
    p = c.program(*CR)
    fs = field(p, MC, r"^(std::vec::Vec<.*LogField>|.*LogFields)$")
    c.rule("rejected", "adding a global field fails exactly for reserved names, and then changes nothing")
    c.rule("accepted", "every unreserved name is accepted")
    paths = c.paths_of(p, f"{MC}::add_field")
    key = fld(sym("$2"), "key")
    ts = [k for q in paths for k in q.state.facts]
    for name in samples(c, p, ts):
        hit = []
        for q in paths:
            g = [(k, v) for k, v in q.state.facts.items()]
            h = holds(c, p, g, {key: string(name)})
            if h is not False:
                hit.append(q)
        good = bool(hit)
        for q in hit:
            if reserved(name):
                good &= q.kind == "ret" and known_variant(q.rett) == "Err" and not changed(q, fs)
            else:
                good &= q.kind == "ret" and known_variant(q.rett) == "Ok"
        c.ob("rejected" if reserved(name) else "accepted", good, paths[0].fn,
             f"a custom field named {name!r} is {'not rejected before any change' if reserved(name) else 'rejected'}")


def changed(q, fs):
    v = q.x.heap().get(sym("self"))
    return v is not None and fld(v, fs) is not fld(sym("self"), fs)


def writers(c):
    p = c.program(*CR)
    fs = field(p, MC, r"^(std::vec::Vec<.*LogField>|.*LogFields)$")
    c.rule("only-writers", "nothing but adding and removing a field changes the global fields")
    for f in p.by_id.values():
        if f.kind != "fn" or f.crate != "bd_logger" or not f.id.startswith(MC + "::") or "_test" in (f.span or [""])[0]:
            continue
        nm = f.id.split("::")[-1]
        if nm in ("add_field", "remove_field"):
            continue
        if nm == "new":
            for q in c.paths_of(p, f):
                c.ob("only-writers", show(fld(q.rett, fs)) == "[]", q, "does not start without global fields")
            continue
        if f.argc and f.locals[1][0].startswith("&mut"):
            c.ob("only-writers", p.helper_of(f, {f"{MC}::add_field", f"{MC}::remove_field"}), f, "changes the global fields")


GROUPS = [from_logs, add_field, writers]
FLOORS = {"filtered": 4, "rejected": 5, "accepted": 3}
