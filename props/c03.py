"""Fixed sessions: the id callback may fail or call back in; neither blocks nor leaves the strategy marked."""
from session import *


def generate(c):
    f = Fixed(c)
    c.rule("marked", "the callback runs only while the calling thread is marked as being inside it")
    c.rule("unmarked", "the mark is cleared on every path after the callback returned, whether it failed or not")
    c.rule("fallback", "a failing callback yields a random id")
    cell = f"ThreadLocal::get_or_default({f.flag})"
    for name in ("session_id", "start_new_session"):
        for q in f.paths(name):
            for i in q.idx(r"^Callbacks::"):
                marks = [e for e in q.events()[:i] if repr(e).startswith((f"Cell::set({cell},", f"Cell::replace({cell},"))]
                c.ob("marked", bool(marks) and marks[-1].args[1] is TRUE, q, "the callback runs unmarked")
            if q.has(r"^Callbacks::"):
                last = q.idx(r"^Callbacks::")[-1]
                after = [e for e in q.events()[last:] if repr(e).startswith((f"Cell::set({cell},", f"Cell::replace({cell},"))]
                c.ob("unmarked", bool(after) and after[-1].args[1] is FALSE, q, "the mark stays set")
                evs = q.ev(r"^Callbacks::")
                if q.decide(mk("is", evs[0].res, "Ok")) is False:
                    c.ob("fallback", f.generated(q) is not None and f.generated(q) in subterms(q.rett), q,
                         "no random id after a failure")


def inside(c):
    f = Fixed(c)
    c.rule("no-wait", "inside the callback neither reading nor starting takes the session lock or runs the callback")
    c.rule("inside-read", "reading inside the callback returns a random id and leaves memory and store alone")
    c.rule("inside-start", "starting a session inside the callback is refused and leaves memory and store alone")
    c.rule("inside-previous", "asked for inside the callback the previous process's id is not given, and memory and store are left alone")
    for name in ("session_id", "start_new_session", "previous_process_session_id"):
        for q in f.paths(name):
            k = f.in_callback(q)
            c.ob("no-wait", k is not None, q, "does not test whether the thread is inside the callback")
            if k is not True:
                c.ob("no-wait", q.kind == "ret", q, "can panic")
                continue
            c.ob("no-wait", not q.has(r"^(lock:|Callbacks::|.*[lL]ock\()") and q.kind == "ret", q,
                 "waits or calls back from inside the callback")
            quiet = f.memory(q) is None and not q.has(r"^Store::") and not q.has(r"^Cell::(set|replace|take|swap)")
            if name == "session_id":
                c.ob("inside-read", quiet and q.rett is uuid(q), q, "not a random id, or not without effect")
            elif name == "previous_process_session_id":
                c.ob("inside-previous", quiet and known_variant(q.rett) == "None", q, "something is given, or not without effect")
            else:
                c.ob("inside-start", quiet and known_variant(q.rett) == "Err", q, "not refused, or not without effect")


def thread_only(c):
    f = Fixed(c)
    c.rule("per-thread", "the mark belongs to one thread")
    t = fields(f.p, FX)[f.flag[5:]]
    c.ob("per-thread", "ThreadLocal<" in t, FX, f"the mark is a {t}")


GROUPS = [generate, inside, thread_only]
FLOORS = {"marked": 4, "unmarked": 4, "fallback": 2, "no-wait": 2, "inside-read": 1, "inside-start": 1, "inside-previous": 1}
