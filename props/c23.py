"""Profiling endpoints: each does what it says, once, and always answers with the outcome."""
from rules import *

B = "bd_profile"


def handlers(c):
    p = c.program(B)
    c.rule("acts", "enabling, disabling and dumping act on heap profiling exactly once, as asked")
    c.rule("answers", "every request is answered: OK exactly when the action succeeded, the error otherwise")
    for name, key, val in (("profile_enable", "prof.active", "true"), ("profile_disable", "prof.active", "false"), ("profile_dump", "prof.dump", None)):
        for q in c.paths_of(p, f"{B}::{name}"):
            w = q.ev(r"^raw::(write|write_str|update)\(")
            named = q.ev(r"^HashMap::(remove|get)\(")
            asked = {x for k in q.state.facts for x in subterms(k) if x.op == "call" and short(x.a[0]) == "HashMap::get" and show(x.a[1][1]) == "'file'"}
            given = next((fld(downcast(x, "Some"), "0") for x in sorted(asked, key=show) if q.decide(mk("is", x, "Some"))), None) or next((fld(downcast(e.res, "Some"), "0") for e in named if q.decide(mk("is", e.res, "Some"))), None)
            if q.kind != "ret":
                # Only a constant without a NUL byte is known to be a valid file name.
                ok = name == "profile_dump" and given is None and any(
                    v is False and re.fullmatch(r"CString::new\('[^'\\]*'\) is Ok", show(k)) for k, v in q.state.facts.items())
                c.ob("answers", ok, q, "a request is not answered: the handler panics")
                continue
            if not w:
                bad = given is not None and any(v is False and "CString::new" in show(k) for k, v in q.state.facts.items()) or \
                    given is None and any(v is False and re.fullmatch(r"CString::new\('[^'\\]*'\) is Ok", show(k)) for k, v in q.state.facts.items())
                c.ob("acts", name == "profile_dump" and bad, q, "nothing is done")
                c.ob("answers", q.ret.startswith("cat('error: '"), q, "a bad file name is not reported")
                continue
            ok = len(w) == 1 and re.search(r"[\"']" + re.escape(key) + r"\\x00[\"']", show(w[0].args[0])) is not None
            if val:
                ok = ok and show(w[0].args[1]) == val
            else:
                ok = ok and (has_sub(w[0].args[1], given) if given is not None else bool(re.search(r"CString::new\('/", show(w[0].args[1])))) \
                    and "as_bytes_with_nul" in show(w[0].args[1])
                ok = ok and all(show(e.args[1]) == "'file'" for e in named)
            c.ob("acts", ok, q, f"does {w[0]!r}")
            good = q.decide(mk("is", w[0].res, "Ok"))
            c.ob("answers", (q.ret == "'OK'") == (good is True) and (good is True or q.ret.startswith("cat('error: '")), q, "the outcome is not what is answered")


def routes(c):
    p = c.program(B)
    c.rule("routes", "each endpoint reaches its own handler, by POST only")
    for q in c.paths_of(p, f"{B}::new_router"):
        r = {}
        for e in q.ev(r"^Router::route\("):
            m = re.search(r"routing::(\w+)\(fn (?:\w+::)*(\w+)\)", show(e.args[2]))
            r[show(e.args[1]).strip("'")] = m.groups() if m else None
        c.ob("routes", r == {"/" + n: ("post", n) for n in ("profile_enable", "profile_disable", "profile_dump")}, q, f"routes are {r}")


GROUPS = [handlers, routes]
FLOORS = {"acts": 3, "answers": 3, "routes": 1}
