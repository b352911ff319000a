"""App updates: reported exactly when the recorded version differs, and recorded as seen."""
from rules import *

REPO = "bd_logger::app_version::Repository"
AV = "bd_logger::app_version::AppVersion"
KEY = "static:bd_logger::app_version::APP_VERSION_KEY"
CR = ("bd_logger", "bd_key_value", "bd_log_primitives")
CFG = dict(opaque=[r"^bd_key_value::Store::\w+$", r"^bd_logger::logger::LoggerHandle::log$"])


def read(c, q, rule):
    g = q.ev(r"^Store::get\(")
    if not c.ob(rule, len(g) == 1 and show(g[0].args[1]) == KEY and q.kind == "ret", q, "the recorded version is not read exactly once"):
        return None, None
    return q.decide(mk("is", g[0].res, "Some")), fld(downcast(g[0].res, "Some"), "0")


def differs(c, q, rule, prev, cur):
    s = same_value(q.e.p, q, cur, prev, AV)
    c.ob(rule, s is not None, q, "the outcome does not depend on whether the recorded version equals the current one")
    return None if s is None else not s


def recorded(c, q, rule, cur, want):
    w = q.ev(r"^Store::(set|delete)")
    ok = (len(w) == 1 and show(w[0].args[1]) == KEY and w[0].args[2] is cur) if want else not w
    c.ob(rule, ok, q, "the current version is not recorded as seen" if want else "the recorded version is changed")


def has_changed(c):
    p = c.program(*CR)
    c.rule("asking", "asking whether the app was updated is true exactly when a recorded version differs, and records only a first version")
    for q in c.paths_of(p, f"{REPO}::has_changed", Config(**CFG)):
        have, prev = read(c, q, "asking")
        if have is None:
            c.ob("asking", False, q, "the answer does not depend on whether a version is recorded")
            continue
        d = have and differs(c, q, "asking", prev, sym("$2"))
        c.ob("asking", q.rett is boolean(bool(d)), q, "wrong answer")
        recorded(c, q, "asking", sym("$2"), not have)


def setting(c):
    p = c.program(*CR)
    c.rule("reporting", "recording the version returns the recorded one exactly when it differs, and marks the new one as seen")
    for q in c.paths_of(p, f"{REPO}::set", Config(**CFG)):
        have, prev = read(c, q, "reporting")
        if have is None:
            c.ob("reporting", False, q, "the result does not depend on whether a version is recorded")
            continue
        d = have and differs(c, q, "reporting", prev, sym("$2"))
        c.ob("reporting", q.rett is (some(prev) if d else NONE), q, "wrong result")
        if have and not d and not q.ev(r"^Store::delete"):
            w = q.ev(r"^Store::set\(")  # writing back an equal version is harmless
            c.ob("reporting", all(show(x.args[1]) == KEY and x.args[2] is sym("$2") for x in w), q, "another version is recorded")
        else:
            recorded(c, q, "reporting", sym("$2"), True)


def entry(c):
    p = c.program(*CR)
    c.rule("one-log", "an app update log is emitted once per change, never otherwise, and carries the version it replaced")
    for q in c.paths_of(p, "bd_logger::logger::LoggerHandle::log_app_update", Config(**CFG)):
        have, prev = read(c, q, "one-log")
        logs = q.ev(r"^LoggerHandle::log\(")
        s = q.ev(r"^Store::set\(")
        if not have:
            c.ob("one-log", not logs, q, "an update is reported although no earlier version is known")
            continue
        eqs = [v for k, v in q.state.facts.items() if prev in subterms(k) and k.op == "eq"]
        same = bool(eqs) and all(eqs)
        if same:
            c.ob("one-log", not logs, q, "an update is reported although the version did not change")
            continue
        if not c.ob("one-log", len(logs) == 1 and len(s) == 1 and show(s[0].args[1]) == KEY, q,
                    "a change is not reported exactly once and recorded"):
            continue
        v = q.e.view(q.state, s[0].args[2])
        c.ob("one-log", known_fields(v) == {"app_version": "$2", "app_version_extra": "$3"}, q, "the version recorded is not the current one")
        out = [x for x in parts_of(logs[0].args[4])]
        kv = {}
        for x in out:
            if x.op == "one":
                y = x.a[0]
                fl = fld(y, "field")
                kv[show(fld(fl, "key"))] = (re.sub(r"^String\((.*)\)$", r"\1", show(fld(fl, "value"))), show(fld(y, "kind")))
        extra = downcast(fld(prev, "app_version_extra"), "BuildNumber")
        code = q.decide(is_(fld(prev, "app_version_extra"), "AppVersionCode", "bd_logger::app_version::AppVersionExtra"))
        pv = show(fld(prev, "app_version"))
        name = "app_version_code" if code else "build_number"
        inner = show(fld(downcast(fld(prev, "app_version_extra"), "AppVersionCode" if code else "BuildNumber"), "0"))
        want = {"'_previous_app_version'": (pv,), f"'_previous_{name}'": (inner, f"to_string({inner})")}
        for k, vs in want.items():
            c.ob("one-log", k in kv and kv[k][0] in vs and kv[k][1] == "Ootb", q, f"the update log does not carry {k} of the replaced version")
        c.ob("one-log", any(x.op == "all" and show(x) == "$5" for x in out), q, "the caller's fields are not attached")


def known_fields(v):
    if v.op == "agg":
        return {n: show(x) for n, x in zip(v.a[2], v.a[3])}
    return None


def only_user(c):
    p = c.program(*CR)
    c.rule("only-user", "nothing else touches the recorded version")
    for f in p.by_id.values():
        if f.kind == "std" or f.crate != "bd_logger" or "_test" in (f.span or [""])[0]:
            continue
        txt = json.dumps(f.blocks)
        if "APP_VERSION_KEY" in txt:
            c.ob("only-user", f.id.startswith("bd_logger::app_version::"), f, "touches the recorded version")


GROUPS = [has_changed, setting, entry, only_user]
FLOORS = {"asking": 3, "reporting": 3, "one-log": 2, "only-user": 1}
