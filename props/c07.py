"""Log fields: one value per name, and out-of-the-box values always win."""
from meta import *

PROV = r"^MetadataProvider::fields\("
SPECIAL = (1, 3, 4)  # the stored numbers of replay, resource and internal logs
TYPE = sym("$4")
LT = "bd_log_primitives::LogType"


def normalize(c):
    p = c.program(*CR)
    fs = field(p, MC, r"^(std::vec::Vec<.*LogField>|.*LogFields)$")
    c.rule("unique", "no two fields of a log share a name: the first of the ordered sources wins")
    c.rule("fields-order", "log fields come, by precedence, from: provider out-of-the-box, log out-of-the-box, log custom, global, provider custom")
    c.rule("matching-order", "matching fields come, by precedence, from: provider out-of-the-box, log out-of-the-box, log custom, provider custom")
    c.rule("special", "exactly for replay, resource and internal logs the provider's fields are matching-only")
    c.rule("errors", "metadata is withheld only when the provider failed, with the provider's own error")
    c.rule("timestamp", "the timestamp is the provider's")
    seen = set()
    for q in c.paths_of(p, f"{MC}::normalized_metadata_with_extra_fields"):
        t, f = q.ev(r"^MetadataProvider::timestamp\("), q.ev(PROV)
        bad = [x.res for x in t + f if q.decide(mk("is", x.res, "Ok")) is False]
        if known_variant(q.rett) == "Err":
            c.ob("errors", bool(bad) and q.rett.a[3][0] in [fld(downcast(x, "Err"), "0") for x in bad], q, "fails for another reason than the provider's")
            continue
        if not c.ob("errors", q.kind == "ret" and not bad and known_variant(q.rett) == "Ok" and len(t) == 1 and len(f) == 1, q,
                    "a provider failure is swallowed, or the provider is not asked exactly once"):
            continue
        v = q.rett.a[3][0]
        c.ob("timestamp", fld(v, "timestamp") is fld(downcast(t[0].res, "Ok"), "0"), q, "not the provider's timestamp")
        P = show(fld(downcast(f[0].res, "Ok"), "0"))
        kind = special(c, p, q)
        if not c.ob("special", kind is not None, q, "the log type does not decide where the provider's fields go"):
            continue
        seen.add(kind)
        G = f"self.{fs}"
        w1 = [(P, "ootb"), ("$2", "ootb"), ("$2", "custom"), (G, "all"), (P, "custom")]
        w2 = [(P, "ootb"), ("$3", "ootb"), ("$3", "custom"), (P, "custom")]
        w1 = [x for x in w1 if x[0] != P] if kind else w1
        w2 = w2 if kind else [x for x in w2 if x[0] != P]
        for name, rule, want in (("fields", "fields-order", w1), ("matching_fields", "matching-order", w2)):
            x = fld(v, name)
            if not c.ob("unique", x.op == "call" and x.a[0] == "unique_by" and x.a[1][1] is fld(seq_item(x.a[1][0]), "key"), q,
                        f"{name} can hold two fields of one name"):
                continue
            got = parts(c, p, x.a[1][0])
            c.ob(rule, got == want, q, f"{name} come from {got}, not {want}")
    c.ob("special", seen == {True, False}, f"{MC}::normalized_metadata_with_extra_fields", "one of the two treatments never happens")


def special(c, p, q):
    """Whether the path is one of a log whose provider fields are matching-only."""
    fs = [(k, v) for k, v in q.state.facts.items() if has_sub(k, TYPE)]
    ns = [n for n in range(16) if holds(c, p, fs, {fld(TYPE, "0"): integer(n), TYPE: agg(LT, None, ("0",), (integer(n),))}) is not False]
    k = {n in SPECIAL for n in ns}
    return k.pop() if len(k) == 1 else None


GROUPS = [normalize]
FLOORS = {"unique": 2, "fields-order": 2, "matching-order": 2, "special": 1, "errors": 2, "timestamp": 2}
