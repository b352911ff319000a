"""Shared between the metadata properties: what a field list is made of."""
from rules import *

MC = "bd_logger::metadata::MetadataCollector"
LF = "bd_log_primitives::AnnotatedLogField"
KIND = "bd_log_primitives::LogFieldKind"
CR = ("bd_logger", "bd_log_primitives")
RESERVED = ("app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os",
            "os_version", "radio_type")


def reserved(k):
    return k in RESERVED or k.startswith("_")


def samples(c, p, ts):
    out = {"", "x", "a_", "x_app_id", "app", "App_id", "_", "_x", "__"} | set(RESERVED)
    for s in strings_in(c, p, ts):
        out |= {s, s + "x", "x" + s, "_" + s}
    return sorted(out)


def classify(c, p, part):
    """(source, 'ootb' | 'custom' | 'all' | None) of one part of a field list."""
    if part.op == "all":
        return part.a[0], "all"
    if part.op != "each":
        return part, None
    src, cases = part.a
    it = seq_item(src)
    want = mk("one", fld(it, "field"))
    got = {}
    for kind in ("Ootb", "Custom"):
        for k in samples(c, p, [f for g, _ in cases for f, _ in g]):
            m = {fld(it, "kind"): agg(KIND, kind, (), ()), fld(fld(it, "field"), "key"): string(k)}
            out = []
            for g, ps in cases:
                h = holds(c, p, g, m)
                if h is None:
                    return src, None
                if h:
                    out.append(ps)
            if len(out) > 1 or (out and out[0] not in ((want,), ())):
                return src, None
            got[kind, k] = bool(out and out[0])
    if all(v == (kind == "Ootb") for (kind, k), v in got.items()):
        return src, "ootb"
    if all(v == (kind == "Custom" and not reserved(k)) for (kind, k), v in got.items()):
        return src, "custom"
    if not any(got.values()):
        return src, "nothing"
    bad = sorted(k for (kind, k), v in got.items() if kind == "Custom" and v and reserved(k))
    return src, "admits " + repr(bad[:3]) if bad else None


def parts(c, p, v):
    """[(printed source, class)] of a field list, in order."""
    return [(show(s), k) for s, k in (classify(c, p, x) for x in parts_of(v)) if k != "nothing"]
