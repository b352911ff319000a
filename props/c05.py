"""The key-value store: what was set is what is read, and no failure reaches the caller."""
from rules import *

ST = "bd_key_value::Store"
# a serialiser and what undoes it (bincode's own pairs: same default configuration on both sides)
SER = {"bincode::serialize_into": "bincode::deserialize_from", "bincode::serialize": "bincode::deserialize_from"}
KEY = ("$2.key",)


def writing(c):
    p = c.program("bd_key_value")
    c.rule("set-once", "set writes the encoded value once, under the key it was given")
    c.rule("set-quiet", "no failure of set reaches the caller, and a failed set touches nothing else")
    c.out = {}
    for q in c.paths_of(p, f"{ST}::set"):
        c.ob("set-quiet", q.kind == "ret" and q.ret == "()" and not q.has(r"^Storage::(?!set_string)"), q, "set can fail")
        w = q.ev(r"^Storage::set_string\(")
        s = q.ev(r"^bincode::serialize")
        if not c.ob("set-once", len(s) == 1, q, "the value is not serialised exactly once"):
            continue
        good = q.decide(mk("is", s[0].res, "Ok"))
        if good is False:
            c.ob("set-once", not w, q, "something is written although serialising failed")
            continue
        if not c.ob("set-once", good is True and len(w) == 1 and show(w[0].args[1]) in KEY, q,
                    "not written exactly once under its key"):
            continue
        enc = q.ev(r"^Engine::encode\(")
        v = w[0].args[2]
        into = s[0].path.endswith("serialize_into")
        val = s[0].args[1 if into else 0]
        data = mk("upd_by", s[0].res, 0) if into else fld(downcast(s[0].res, "Ok"), "0")
        fresh = not into or show(s[0].args[0]) == "[]"
        c.ob("set-once", len(enc) == 1 and v is enc[0].res and enc[0].args[1] is data and show(val) == "$3" and fresh, q,
             "what is written is not exactly the encoded value")
        c.codec = (strip(s[0].path), show(enc[0].args[0])) if len(enc) == 1 else None


def reading(c):
    p = c.program("bd_key_value")
    c.rule("get-inverse", "get undoes, on the whole stored string, exactly the encoding set applies")
    c.rule("get-quiet", "no failure of get reaches the caller: an unreadable value is removed and reported as absent")
    c.rule("get-pure", "reading a good or absent value leaves the storage as it was")
    for q in c.paths_of(p, f"{ST}::get"):
        r = q.ev(r"^Storage::get_string\(")
        if not c.ob("get-quiet", q.kind == "ret" and len(r) == 1 and show(r[0].args[1]) in KEY
                    and not q.has(r"^Storage::set_string"), q, "does not read its key exactly once, or panics, or writes"):
            continue
        r = r[0].res
        dels = q.ev(r"^Storage::delete\(")
        mine = all(show(d.args[1]) in KEY for d in dels)
        okk = q.decide(mk("is", r, "Ok"))
        val = fld(downcast(r, "Ok"), "0")
        have = q.decide(mk("is", val, "Some")) if okk else None
        if okk and have is False:
            c.ob("get-pure", q.rett is NONE and not dels, q, "an absent value is not reported as such without side effect")
            continue
        kv = known_variant(q.rett)
        if kv == "Some":
            d = q.ev(r"^Engine::decode\(")
            s = q.ev(r"^bincode::deserialize")
            codec = getattr(c, "codec", None)
            good = (okk and have and len(d) == 1 and len(s) == 1 and codec is not None
                    and SER.get(codec[0]) in (strip(s[0].path), "bincode::deserialize_from" if s[0].path.endswith("deserialize") else None)
                    and show(d[0].args[0]) == codec[1]
                    and d[0].args[1] is fld(downcast(val, "Some"), "0")
                    and whole(s[0].args[0], fld(downcast(d[0].res, "Ok"), "0"))
                    and q.rett is some(fld(downcast(s[0].res, "Ok"), "0")))
            c.ob("get-inverse", good, q, "what is returned is not the decoded form of what is stored")
            c.ob("get-pure", not dels, q, "a good value is removed by reading it")
        else:
            c.ob("get-quiet", kv == "None" and len(dels) == 1 and mine, q,
                 "an unreadable value is not removed and reported as absent")


def whole(t, data):
    """t is data, or a full slice of it."""
    return t is data or (t.op == "call" and t.a[1] and t.a[1][0] is data and show(t).endswith(",RangeFull)"))


def keys(c):
    """Distinct pieces of state use distinct keys."""
    c.rule("distinct-keys", "no two kinds of stored state share a key")
    seen = {}
    p = c.program("bd_device", "bd_key_value", "bd_session", "bd_logger", "bd_runtime", "bd_api", "bd_workflows")
    for f in p.by_id.values():
        if f.kind == "std" or "_test" in (f.span or [""])[0]:
            continue
        for b in f.blocks:
            t = b[1]
            if t[0] == "call" and "k" in t[1] and "fn" in t[1]["k"]:
                path = engine.strip_generics(t[1]["k"]["fn"]["p"])
                if path == "bd_key_value::Key::new":
                    a = t[2][0]
                    s = a.get("k", {}).get("str") or a.get("k", {}).get("v")
                    c.ob("distinct-keys", s is not None and s not in seen, f, f"key {s!r} is also used by {seen.get(s)}")
                    seen[s] = f.id


GROUPS = [writing, reading, keys]
FLOORS = {"set-once": 1, "set-quiet": 1, "get-inverse": 1, "get-quiet": 2, "get-pure": 1, "distinct-keys": 2}
