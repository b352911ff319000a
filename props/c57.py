"""Unexpected errors: a bounded number is reported, the rest counted, and the work goes on with what it had."""
import json
from rules import *
from c46 import n, facts

E = "bd_client_common::error::"
U = E + "UnexpectedErrorHandler::"
LOCK = r"lock\(static:bd_client_common::error::ERROR_HANDLER\)(?:#\d+)?"
ME = rf"(?:self|G|{LOCK})"
OVER = r"LocalKey::new\(const:bd_client_common::error::PER_THREAD_REPORTER::\{constant#0\}\)(?:#\d+)?"
PLAIN = r"Argument::new_display|(un)?lock:|Level|PartialOrd|__|log::|done"


def own(q):
    return [e for e in q.trace if e.kind not in ("done", "loop") and not re.match(PLAIN, repr(e))]


def known(q, pat):
    v = {v for k, v in q.state.facts.items() if re.fullmatch(pat, n(k))}
    return v.pop() if len(v) == 1 else None


def left(q, where, name):
    """a field of an object afterwards"""
    v = next((v for k, v in q.x.heap().items() if re.fullmatch(where, n(k))), None)
    return None if v is None else n(q.e.resolve(q.state, fld(v, name)))


def text(d, m):
    return rf"cat\((Argument::new_display\()?{d}(\)(#\d+)?)?,': ',(Argument::new_display\()?{m}(\)(#\d+)?)?\)"


def told(c, q, d, m, details, skip=()):
    """one error is reported or counted, as the bound says"""
    ev = [e for e in own(q) if e not in skip]
    rep = [e for e in ev if repr(e).startswith("Reporter::report(")]
    for f in ("reporter", "dropped_errors"):
        v = left(q, ME, f)
        c.ob("bounded", v is None or re.fullmatch(rf"{ME}\.{f}", v), q, f"a report changes {f} to {v}")
    none = known(q, rf"0=={ME}\.remaining_reports|{ME}\.remaining_reports==0")
    rest = [n(e) for e in ev if e not in rep]
    if none is True:
        there = known(q, rf"{ME}\.dropped_errors is Some")
        want = [rf"Counter::inc\({ME}\.dropped_errors\?Some\.0\)"] if there else []
        c.ob("bounded", there is not None and not rep and len(rest) == len(want) and all(re.fullmatch(w, r) for w, r in zip(want, rest)), q, f"beyond the bound: {[n(e)[:100] for e in ev]}")
        c.ob("bounded", left(q, ME, "remaining_reports") in (None, "0") or re.fullmatch(rf"{ME}\.remaining_reports", left(q, ME, "remaining_reports")), q, f"{left(q, ME, 'remaining_reports')} reports are left")
        return "counted"
    c.ob("bounded", none is False, q, f"whether a report is left is not asked: {facts(q)}")
    c.ob("bounded", re.fullmatch(rf"Add\({ME}\.remaining_reports,-1\)|usize::saturating_sub\({ME}\.remaining_reports,1\)(#\d+)?", left(q, ME, "remaining_reports") or "-"), q, f"{left(q, ME, 'remaining_reports')} reports are left")
    over = known(q, OVER + " is Some")
    to = OVER + r"\?Some\.0" if over else rf"{ME}\.reporter"
    det = rf"call:{details}\(\)(#\d+)?" if details else "None"
    c.ob("bounded", over is not None and len(rep) == 1 and re.fullmatch(to, n(rep[0].args[0])) and re.fullmatch(text(d, m), n(rep[0].args[1])) and re.fullmatch(det, n(rep[0].args[2])) and n(rep[0].args[3]).startswith("HashMap::new()") and len([r for r in rest if re.fullmatch(rf"call:{details}\(\)", r)]) == len(rest) == (1 if details else 0), q, f"reports {[n(e)[:300] for e in ev]}")
    return "over" if over else "told"


def bounded(c):
    c.rule("bounded", "while a report is left an error is reported once, with its description and text, to the thread's own reporter or else to the one set, and one report fewer is left; then it is only counted")
    c.rule("goes on", "what went well is passed on and nothing reported; of what did not, its error is, and the value to go on with is the one given for it")
    p = c.program("bd_client_common")
    ALL = {"counted", "over", "told"}
    kinds = {told(c, q, r"\$3", r"\$2", r"\$4") for q in c.paths_of(p, U + "report", Config(opaque=[])) if c.ob("bounded", q.kind == "ret", q, "fails")}
    c.ob("bounded", kinds == ALL, U + "report", f"met only {kinds}")
    for q in c.paths_of(p, U + "new", Config(opaque=[])):
        c.ob("bounded", re.search(r"dropped_errors:None,remaining_reports:[1-9],", n(q.ret)), q, f"begins as {n(q.ret)}")
    for q in c.paths_of(p, U + "disable", Config(opaque=[])):
        c.ob("bounded", left(q, LOCK, "remaining_reports") == "0" and not own(q), q, f"disabled with {left(q, LOCK, 'remaining_reports')}")
    for name, want in (("set_reporter", r"\$1"), ("clear_reporter", r"DefaultErrorReporter(\{\})?")):
        for q in c.paths_of(p, U + name, Config(opaque=[])):
            c.ob("bounded", re.fullmatch(want, left(q, LOCK, "reporter") or "-") and re.fullmatch(rf"{LOCK}\.remaining_reports", left(q, LOCK, "remaining_reports") or "-") and not own(q), q, f"the reporter set is {left(q, LOCK, 'reporter')}")
    for q in c.paths_of(p, U + "register_stats", Config(opaque=[])):
        c.ob("bounded", re.fullmatch(r"Some\(Scope::counter\(Scope::scope\(\$1,'error_reporter'\)(#\d+)?,'dropped_errors'\)(#\d+)?\)", left(q, LOCK, "dropped_errors") or "-"), q, f"counts in {left(q, LOCK, 'dropped_errors')}")
    ok = {f"{E}UnexpectedErrorHandler::{x}" for x in ("report", "disable", "new")}
    for f, where in writers_of(p, "remaining_reports"):
        c.ob("bounded", f.id in ok or p.helper_of(f, ok), f, "changes how many reports are left")
    # the ways to report
    ERR = r"(to_string|ToString::to_string)\({0}\)(#\d+)?"
    kinds = {told(c, q, r"\$2", ERR.replace("{0}", r"\$1"), r"\$3") for q in c.paths_of(p, E + "handle_unexpected_error_with_details", Config(opaque=[])) if c.ob("bounded", q.kind == "ret", q, "fails")}
    c.ob("bounded", kinds == ALL, E + "handle_unexpected_error_with_details", f"met only {kinds}")
    for name, res, d, val in (("handle_unexpected", r"\$1", r"\$2", None), ("handle_unexpected_or", r"\$1", r"\$3", r"\$2"), ("with_handle_unexpected", r"call:\$1\(\)(#\d+)?", r"\$2", None), ("with_handle_unexpected_or", r"call:\$1\(\)(#\d+)?", r"\$3", r"\$2")):
        met = set()
        for q in c.paths_of(p, E + name, Config(opaque=[])):
            good = known(q, res + " is Ok")
            ev = own(q)
            first = [e for e in ev if n(e) == "call:$1()"]
            c.ob("goes on", q.kind == "ret" and good is not None and len(first) == (1 if "call" in res else 0), q, f"the outcome is not looked at: {facts(q)}")
            if good:
                c.ob("goes on", not [e for e in ev if e not in first] and (val is None or re.fullmatch(res + r"\?Ok\.0", n(q.ret))), q, f"of what went well: {[n(e)[:100] for e in ev]}, {n(q.ret)[:80]}")
                met.add("well")
            else:
                met.add(told(c, q, d, ERR.replace("{0}", res + r"\?Err\.0"), None, first))
                c.ob("goes on", val is None or re.fullmatch(val, n(q.ret)), q, f"goes on with {n(q.ret)[:80]}")
        c.ob("goes on", met == {"well"} | ALL, E + name, f"met only {met}")
    for q in c.paths_of(p, E + "flatten", Config(opaque=[]), is_async=True):
        a, b = known(q, r"await\(\$1\) is Ok"), known(q, r"await\(\$1\)\?Ok\.0 is Ok")
        want = r"Err\(.*\)" if a is False else r"Ok\(await\(\$1\)\?Ok\.0\?Ok\.0\)" if b else r"Err\(await\(\$1\)\?Ok\.0\?Err\.0\)"
        c.ob("goes on", a is not None and re.fullmatch(want, n(q.ret)) and (a is False or b is not None) or re.fullmatch(r"await\(\$1\)\?Ok\.0", n(q.ret)) and a, q, f"a task's result is {n(q.ret)}")


def writers_of(p, name):
    for f in p.by_id.values():
        if f.kind == "std" or not f.id.startswith("bd_client_common::"):
            continue
        s = json.dumps(f.blocks)
        if name in s:
            yield f, s


def override(c):
    c.rule("override", "a reporter put in place for a while is the thread's during that while and gone after it, and what is run is run once")
    p = c.program("bd_client_common")
    for name, is_async in (("with_reporter", False), ("async_with_reporter", True)):
        for q in c.paths_of(p, U + name, Config(opaque=[]), is_async=is_async):
            ev = [n(e) for e in q.trace if e.kind not in ("done",) and not re.match(PLAIN, repr(e))]
            want = "await:await($2)" if is_async else "call:$2()"
            val = "await($2)" if is_async else r"call:$2()#1"
            now = [n(v) for k, v in q.x.heap().items() if re.search(OVER, n(k))]
            c.ob("override", q.kind == "ret" and ev == [want] and n(q.ret) == val, q, f"runs {ev}, answers {n(q.ret)}")
            c.ob("override", now == ["None"], q, f"afterwards {now}")


def fields(c):
    c.rule("fields", "a report is passed on once as it is, with the session's id and each of the metadata under its own name added")
    p = c.program("bd_client_common")
    f = [x for x in p.by_id.values() if x.id == "bd_client_common::<error::MetadataErrorReporter as error::Reporter>::report"]
    if len(f) != 1:
        raise Anchor(f"{len(f)} reporters with metadata")
    for q in c.paths_of(p, f[0], Config(opaque=[])):
        ev = own(q)
        rep = [e for e in ev if repr(e).startswith("Reporter::report(")]
        c.ob("fields", q.kind == "ret" and len(rep) == 1 and [n(a) for a in rep[0].args[:3]] == ["self.reporter", "$2", "$3"], q, f"passes on {[n(e)[:200] for e in rep]}")
        ins = [n(e) for e in ev if repr(e).startswith("HashMap::insert(")]
        c.ob("fields", len(ins) == 1 and re.fullmatch(r"HashMap::insert\(\$4, 'x-session-id', SessionProvider::session_id\(self\.session_strategy\)(#\d+)?\)", ins[0]), q, f"adds {ins}")
        lps = q.loops()
        c.ob("fields", len(lps) == 1 and lps[0].src is not None and re.fullmatch(r"Metadata::collect\(self\.metadata\)(#\d+)?", n(lps[0].src)) and len(lps[0].iters) == 1 and q.whole(lps[0]), q, f"goes through {[n(lp.src) if lp.src is not None else None for lp in lps]}")
        for i in iterations(q):
            it = r"item\(Metadata::collect\(self\.metadata\)(#\d+)?\)"
            ins = [n(e) for e in i._top if repr(e).startswith("HashMap::insert(")]
            c.ob("fields", len(ins) == 1 and re.fullmatch(rf"HashMap::insert\(phi:fields, cat\('x-',(Argument::new_display\()?str::replace\({it}\.0,'_','-'\)(#\d+)?(\)(#\d+)?)?\), {it}\.1\)", ins[0]), i, f"adds {ins}")


def cycle(c):
    c.rule("no cycle", "nothing the session's id comes from reports an error: a report asks for it while no other report can be made")
    p = c.program("bd_session", "bd_key_value", "bd_client_common", "bd_time", "bd_shutdown", "bd_metadata")
    tell = {f.d for f in p.by_id.values() if f.kind != "std" and f.id.startswith("bd_client_common::error::") and "static:bd_client_common::error::ERROR_HANDLER" in static_names(f)}
    if not tell:
        tell = {f.d for f in p.by_id.values() if f.kind != "std" and re.match(r"bd_client_common::error::(handle_unexpected\w*|with_handle_\w+|UnexpectedErrorHandler::report)$", f.id)}
    c.ob("no cycle", len(tell) >= 3, E, f"only {len(tell)} ways to report were found")
    k = 0
    for f in p.by_id.values():
        if f.kind == "std" or not re.match(r"bd_(session|key_value|metadata)::", f.id):
            continue
        k += 1
        hit = [g for g in p.reach(f) if g.d in tell]
        c.ob("no cycle", not hit, f, f"reports an error through {[g.id for g in hit][:2]}")
    c.ob("no cycle", k > 20, "bd_session", f"only {k} functions")


def static_names(f):
    s = json.dumps(f.blocks)
    return {"static:bd_client_common::error::ERROR_HANDLER"} if "ERROR_HANDLER" in s else set()


GROUPS = [bounded, override, fields, cycle]
FLOORS = {"bounded": 80, "goes on": 20, "override": 3, "fields": 3, "no cycle": 25}
