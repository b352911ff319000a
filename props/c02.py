"""Fixed sessions: the previous process's last id is captured before it is overwritten and never changes."""
from session import *


def capture(c, name):
    f = Fixed(c)
    c.rule("captured", "the first id of a process is recorded only after the record of the previous process was read, "
                       "and what was read is what is remembered as the previous process's id")
    c.rule("kept", "once captured, the previous process's id is carried over unchanged")
    for q in f.paths(name):
        if f.in_callback(q):
            c.ob("kept", f.memory(q) is None and not f.sets(q), q, "the session is written from inside the callback")
            continue
        m = f.memory(q)
        if f.known(q) is True:
            c.ob("kept", m is None or m[1] is f.mem_prev(), q, "the previous process's id is replaced")
        elif f.known(q) is False:
            held, rid = f.recorded(q)
            want = some(rid) if held else NONE
            c.ob("captured", held is not None and m is not None and m[1] is want, q,
                 "what is remembered is not the id the previous process recorded")
            c.ob("captured", q.before(r"^Store::get\(", r"^Store::set\(")
                 and show(q.ev(r"^Store::get\(")[0].args[1]) == f.key if q.ev(r"^Store::get\(") else False, q,
                 "the record is overwritten before it is read")
        else:
            c.ob("captured", False, q, "whether a session is known does not decide where the previous id comes from")


def reading(c):
    capture(c, "session_id")


def starting(c):
    capture(c, "start_new_session")


def previous(c):
    f = Fixed(c)
    c.rule("reported", "the id reported is the captured one, or the record when no session has begun; nothing is written")
    for q in f.paths("previous_process_session_id"):
        if f.in_callback(q) is True:
            # the thread holds the lock already and is not answered: C03
            continue
        quiet = q.kind == "ret" and f.memory(q) is None and not q.has(r"^Store::(?!get\()")
        if f.known(q) is True:
            c.ob("reported", quiet and q.rett is f.mem_prev(), q, "not the captured id")
        elif f.known(q) is False:
            held, rid = f.recorded(q)
            c.ob("reported", quiet and held is not None and q.rett is (some(rid) if held else NONE), q, "not the recorded id")
        else:
            # the option itself may be returned
            c.ob("reported", False, q, "does not depend on whether a session is known")


def delegation(c):
    p = c.program(*CR)
    c.rule("entry", "the public entry point hands the strategy's answer to the caller")
    cfg = Config(opaque=[r"^bd_session::(fixed|activity_based)::Strategy::\w+$"])
    for q in c.paths_of(p, "bd_session::Strategy::previous_process_session_id", cfg):
        evs = q.ev(r"^Strategy::")
        c.ob("entry", q.kind == "ret" and len(evs) == 1 and repr(evs[0]).startswith("Strategy::previous_process_session_id(self?")
             and q.rett is evs[0].res, q, "not the strategy's answer")


GROUPS = [reading, starting, previous, delegation]
FLOORS = {"captured": 4, "kept": 2, "reported": 2, "entry": 2}
