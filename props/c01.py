"""Fixed sessions: one id per session, and the id handed out is the id remembered and recorded."""
from session import *


def session_id(c):
    f = Fixed(c)
    c.rule("keeps-id", "once a session is known, reading the id returns it and changes neither memory nor store")
    c.rule("fresh-id-remembered", "the first read generates one id and remembers that same id")
    c.rule("fresh-id-recorded", "the id generated by the first read is the id written to the store")
    c.rule("reads-under-lock", "memory is read, generated and written in one critical section")
    for q in f.paths("session_id"):
        if q.kind != "ret":
            c.ob("keeps-id", False, q, "reading the session id can end without an id")
            continue
        if f.in_callback(q):
            continue
        locks = q.ev(r"^lock:")
        c.ob("reads-under-lock", len(locks) == 1 and show(locks[0].args[0]) == f.state and bool(q.idx(r"^unlock:"))
             and min(q.idx(r"^unlock:")) > max(q.idx(r"^(lock:|Store::|Callbacks::)")), q, "the session state is not decided in one critical section")
        if f.known(q) is True:
            c.ob("keeps-id", q.rett is f.mem_cur() and f.memory(q) is None and not f.sets(q)
                 and not q.has(r"^Callbacks::"), q, "a known session id is not returned unchanged")
        elif f.known(q) is False:
            g = f.generated(q)
            m = f.memory(q)
            c.ob("fresh-id-remembered", g is not None and q.rett is g and m is not None and m[0] is g, q,
                 "the id returned is not the one generated and remembered")
            s = f.sets(q)
            c.ob("fresh-id-recorded", len(s) == 1 and show(s[0].args[1]) == f.key and f.set_id(s[0]) is q.rett
                 and show(s[0].args[0]) == f.store, q, "the id returned is not the one recorded in the store")
        else:
            c.ob("keeps-id", False, q, "the result does not depend on whether a session is known")


def start_new_session(c):
    f = Fixed(c)
    c.rule("new-id", "starting a session outside the callback returns a generated id, remembers and records it")
    for q in f.paths("start_new_session"):
        if f.in_callback(q):
            continue
        g = f.generated(q)
        m, s = f.memory(q), f.sets(q)
        locks = q.ev(r"^lock:")
        c.ob("reads-under-lock", len(locks) == 1 and show(locks[0].args[0]) == f.state and q.idx(r"^unlock:")
             and min(q.idx(r"^unlock:")) > max(q.idx(r"^(lock:|Store::)")), q,
             "a new session is not installed in one critical section")
        c.ob("new-id", q.kind == "ret" and g is not None and q.rett is ok(g) and m is not None and m[0] is g
             and len(s) == 1 and f.set_id(s[0]) is g and show(s[0].args[1]) == f.key, q,
             "the id returned, the id remembered and the id recorded differ")


def only_writers(c):
    f = Fixed(c)
    c.rule("only-writers", "nothing else writes the in-memory session or its record")
    for g in f.p.by_id.values():
        if g.crate != "bd_session" or g.kind != "fn" or "_test" in (g.span or [""])[0]:
            continue
        if not g.id.startswith(FX + "::") or g.id.split("::")[-1] in ("session_id", "start_new_session", "new"):
            continue
        if f.p.helper_of(g, {x for x in f.p.by_id if x.startswith(FX + "::")} - {g.id}):
            continue  # a private helper: followed where it is called
        for q in c.paths_of(f.p, g, Config(**CFG)):
            c.ob("only-writers", f.memory(q) is None and not q.has(r"^Store::(set|delete)"), q,
                 "writes the session outside reading the first id or starting a session")


def delegation(c):
    """The public entry points reach the strategy unchanged."""
    p = c.program(*CR)
    c.rule("entry", "the public strategy hands the fixed strategy's own answer to the caller")
    for name in ("session_id", "start_new_session", "previous_process_session_id"):
        cfg = Config(opaque=[r"^bd_session::(fixed|activity_based)::Strategy::\w+$"])
        for q in c.paths_of(p, f"bd_session::Strategy::{name}", cfg):
            if q.truth(r"self is Fixed") is False or q.truth(r"self is ActivityBased"):
                continue
            evs = q.ev(rf"^Strategy::{name}\(self\?Fixed\.0")
            c.ob("entry", len(evs) == 1 and len(q.ev(r"^Strategy::")) == 1
                 and (q.rett is evs[0].res or name == "start_new_session"), q,
                 "the public entry point does not return the strategy's answer")


GROUPS = [session_id, start_new_session, only_writers, delegation]
FLOORS = {"keeps-id": 1, "fresh-id-recorded": 1, "new-id": 2, "entry": 2}
