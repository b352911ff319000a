"""Field lookup: what matchers and workflows see under a name."""
from rules import *

FR = "bd_log_primitives::FieldsRef"


def lookup(c):
    p = c.program("bd_matcher", "bd_log_primitives")
    c.rule("by-name", "a field is found under exactly its own name, and only string values are visible")
    c.rule("captured-first", "a matching-only field is consulted only when no captured string field has the name")
    c.rule("absent", "nothing is found only when neither list holds a string under the name first")
    cap, mat = "self.captured_fields", "self.matching_fields"
    f = next((f for f in p.by_id.values() if re.search(r"FieldsRef<'_>? as .*FieldProvider>::field_value$", f.id)), None)
    if f is None:
        raise Anchor("field lookup of a log's fields")
    k = mk("sym", "$2")

    def item(s):
        return mk("item", mk("sym", "self")) if s is None else s

    for q in c.paths_of(p, f):
        if not c.ob("by-name", q.kind == "ret", q, "panics"):
            continue
        m = re.fullmatch(rf"Some\((?:Borrowed\(|Owned\()?&?(item\(({re.escape(cap)}|{re.escape(mat)})\))\.value\?String\.0\)*", q.ret)
        if q.ret != "None":
            if not c.ob("by-name", bool(m) and q.truth(rf"\$2=={re.escape(m.group(1))}\.key") is True, q, f"finds {q.ret}, not a field of that name"):
                continue
        if not m or m.group(2) == mat:
            # Every captured field has another name, or the first one of the name is not a string.
            other = passed(q, cap)
            bytes_ = q.truth(rf"\$2==item\({re.escape(cap)}\)\.key") is True and q.truth(rf"item\({re.escape(cap)}\)\.value is String") is False
            c.ob("captured-first", other or bytes_, q, "a matching-only field hides a captured one")
        else:
            c.ob("captured-first", True, q, "")
        if q.ret == "None":
            c.ob("absent", passed(q, mat) or q.truth(rf"\$2==item\({re.escape(mat)}\)\.key") is True and q.truth(rf"item\({re.escape(mat)}\)\.value is String") is False, q,
                 "a field that is there is not found")


def passed(q, lst):
    """The search over lst can only have gone past elements of other names."""
    if q.truth(rf"\$2==item\({re.escape(lst)}\)\.key") is True:
        return False
    for lp in q.loops():
        if lp.src is not None and show(lp.src) == lst or lst in (lp.name or ""):
            if q.whole(lp) and all(any(show(k) == f"$2==item({lst}).key" and v is False for k, v in st.facts.items()) for _, st in lp.iters):
                return True
    return False


def one(p, pat):
    fs = [f for f in p.by_id.values() if re.search(pat, f.id)]
    if len(fs) != 1:
        raise Anchor(pat)
    return fs[0]


def made(c):
    p = c.program("bd_matcher", "bd_log_primitives")
    c.rule("made", "a log's fields are exposed as what they were given as: captured as captured, matching-only as matching-only")
    for q in c.paths_of(p, one(p, r"^bd_log_primitives::FieldsRef(::)?<.*>::new$")):
        c.ob("made", show(fld(q.rett, "captured_fields")) == "$1" and show(fld(q.rett, "matching_fields")) == "$2", q, f"made as {q.ret}")
    for f in [f for f in p.by_id.values() if f.crate == "bd_log_primitives" and re.search(r"as std::convert::From<.*AnnotatedLogField>>::from$", f.id)]:
        for q in c.paths_of(p, f):
            r = show(q.rett)
            ok = r == "$1.field" or show(fld(q.rett, "key")) == "$1.field.key" and show(fld(q.rett, "value")) == "$1.field.value"
            c.ob("made", q.kind == "ret" and ok, q, f"a field becomes {r}")


def special(c):
    p = c.program("bd_matcher", "bd_log_primitives")
    c.rule("special", "the level and type of a log are found under their own names, every other name is looked up in its fields")
    f = next((f for f in p.by_id.values() if re.search(r"LogRef<'_>? as .*FieldProvider>::field_value$", f.id)), None)
    if f is None:
        raise Anchor("field lookup of a log")
    seen = set()
    for q in c.paths_of(p, f, Config(opaque=[r"FieldsRef.*FieldProvider>::field_value$"])):
        lv, ty = q.truth(r"\$2=='log_level'"), q.truth(r"\$2=='log_type'")
        want = {True: r"Some\((Owned\()?to_string\(self\.log_level\)\)+"}.get(lv) or (r"Some\((Owned\()?to_string\(self\.log_type\.0\)\)+" if ty else None)
        if want:
            seen.add(want)
            c.ob("special", re.fullmatch(want, q.ret) is not None, q, f"gives {q.ret}")
        else:
            c.ob("special", lv is False and ty is False and re.search(r"field_value\(self\.fields,\$2\)", " ".join(map(repr, q.events())).replace(", ", ",")) is not None
                 and (q.ret == "None" or "field_value(self.fields,$2)" in q.ret), q, f"gives {q.ret}")
            seen.add("other")
    c.ob("special", len(seen) == 3, f, f"only covers {seen}")


GROUPS = [lookup, made, special]
FLOORS = {"by-name": 5, "captured-first": 5, "absent": 2, "special": 4}
