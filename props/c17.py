"""Swapping the log filter: all of it takes effect, or none."""
from rules import *

S = "bd_log::SwapLogger"


def swap(c):
    p = c.program("bd_log")
    c.rule("given", "the filter installed is the one the caller gave, in the installed logger")
    c.rule("error", "a filter that is not accepted is an error for the caller and leaves the maximum level alone")
    c.rule("level", "once a filter is accepted, the global maximum level is set to that filter's")
    handle = field(p, S, r"Handle<")
    for q in c.paths_of(p, f"{S}::swap"):
        lk = q.ev(rf"^lock:.*\.{handle}\)")
        if q.kind != "ret":
            c.ob("given", bool(lk) and q.decide(mk("is", lk[0].res, "Some")) is False, q, "panics although the logger is initialised")
            continue
        rl = q.ev(r"^Handle::(reload|modify)\(")
        if not c.ob("given", len(rl) == 1 and len(lk) == 1 and has_sub(rl[0].args[0], lk[0].res) and has_sub(rl[0].args[1], mk("sym", "$1")) , q,
                    "the given filter is not installed exactly once"):
            continue
        lv = q.ev(r"^log::set_max_level\(")
        ok = q.decide(mk("is", rl[0].res, "Ok"))
        if ok is True:
            c.ob("level", known_variant(q.rett) == "Ok" and len(lv) == 1 and bool(re.fullmatch(r"AsLog::as_log\(LevelFilter::current\(\)(#\d+)?\)(#\d+)?", show(lv[0].args[0])))
                 and q.before(r"^Handle::(reload|modify)\(", r"^(log::set_max_level|LevelFilter::current)\("), q,
                 "the maximum level is not set from the new filter")
        else:
            c.ob("error", ok is False and known_variant(q.rett) == "Err" and not lv, q, "a rejected filter is not reported, or changes the level")


def has_sub(t, x):
    return any(s is x or show(s) == show(x) for s in subterms(t))


def start(c):
    p = c.program("bd_log")
    c.rule("installed", "the handle kept for later swaps is that of the filter the logger was started with")
    c.rule("initial", "the first filter is the one from the environment, or the default")
    handle = field(p, S, r"Handle<")
    for q in c.paths_of(p, f"{S}::initialize"):
        if q.kind != "ret":
            continue
        ly = [e for e in q.ev(r"^Layer::new\(EnvFilter")]
        sets = q.heap(rf".*lock\(static:.*\.{handle}\)#1")
        ini = q.ev(r"^SubscriberInitExt::(init|try_init)\(")
        if not c.ob("installed", len(ly) == 1 and len(ini) == 1, q, "the filter is not made reloadable, or the logger is not installed"):
            continue
        c.ob("installed", has_sub(ini[0].args[0], fld(ly[0].res, "0")) and list(sets.values()) == [f"Some({show(fld(ly[0].res, '1'))})"], q,
             "later swaps would not reach the installed filter")
        v = q.ev(r"^env::var\('RUST_LOG'\)")
        c.ob("initial", len(v) == 1 and ((q.decide(mk("is", v[0].res, "Ok")) is True) == has_sub(ly[0].args[0], fld(downcast(v[0].res, "Ok"), "0"))), q,
             "the environment's filter is not honoured")


def one(c):
    p = c.program("bd_log")
    c.rule("one", "starting and swapping act on one logger")
    seen = set()
    for n in ("swap", "initialize"):
        for q in c.paths_of(p, f"{S}::{n}"):
            for e in q.ev(r"^lock:"):
                seen.add(show(e.args[0]))
    c.ob("one", len(seen) == 1 and next(iter(seen)).startswith("static:"), S, f"more than one logger: {sorted(seen)}")


GROUPS = [swap, start, one]
FLOORS = {"given": 2, "error": 1, "level": 1, "installed": 4, "initial": 2, "one": 1}
