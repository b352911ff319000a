"""Shared between the session properties: the paths of the fixed-session strategy."""
from rules import *

CR = ("bd_session", "bd_key_value", "bd_log_primitives")
CFG = dict(opaque=[r"^bd_key_value::Store::\w+$"])
FX = "bd_session::fixed::Strategy"


class Fixed:
    def __init__(self, c):
        self.c = c
        p = self.p = c.program(*CR)
        self.store = "self." + field(p, FX, r"Arc<bd_key_value::Store>")
        self.cb = "self." + field(p, FX, r"Arc<\(?dyn ")
        self.flag = "self." + field(p, FX, r"ThreadLocal<")
        self.state = "self." + field(p, FX, r"Mutex<")
        m = re.search(r"Option<([\w:]+)>", fields(p, FX)[self.state[5:]])
        if not m:
            raise Anchor("in-memory session state type")
        self.mem = m.group(1) if m.group(1) in p.adts else "bd_session::" + m.group(1)
        self.cur = field(p, self.mem, r"^std::string::String$")
        self.prev = field(p, self.mem, r"^std::option::Option<std::string::String>$")
        self.rec = field(p, "bd_session::fixed::State", r"^std::string::String$")
        self.key = "static:bd_session::fixed::STATE_KEY"
        self.guard = mk("call", "lock", (self._t(self.state),), 1)
        self.getres = None

    def _t(self, s):
        t = sym("self")
        for x in s.split(".")[1:]:
            t = fld(t, x)
        return t

    def paths(self, name):
        return self.c.paths_of(self.p, f"{FX}::{name}", Config(**CFG))

    # what a path knows
    def in_callback(self, q):
        return q.truth(re.escape(f"ThreadLocal::get_or_default({self.flag})"))

    def known(self, q):
        """Whether the in-memory state is present when the lock is taken."""
        k = q.decide(mk("is", self.guard, "Some"))
        return q.decide(mk("is", self.taken(), "Some")) if k is None else k

    def taken(self):
        """What was behind the lock, once it was taken out."""
        return mk("call", "content", (self.guard,), 0)

    def recorded(self, q):
        """Whether the store holds a record: (truth, its id)."""
        evs = q.ev(r"^Store::get\(")
        if len(evs) != 1:
            return None, None
        r = evs[0].res
        return q.decide(mk("is", r, "Some")), fld(fld(downcast(r, "Some"), "0"), self.rec)

    def memory(self, q):
        """(current id, previous id) left in memory, or None when the state is not written."""
        v = q.x.heap().get(self.guard)
        if v is None:
            return None
        v = q.e.resolve(q.state, v)
        if known_variant(v) != "Some":
            return ("?", "?")
        v = fld(downcast(v, "Some"), "0")
        v = subst(v, {self.taken(): self.guard})
        return fld(v, self.cur), fld(v, self.prev)

    def sets(self, q):
        return q.ev(r"^Store::set\(")

    def set_id(self, ev):
        return fld(ev.args[2], self.rec)

    def mem_cur(self):
        return fld(fld(downcast(self.guard, "Some"), "0"), self.cur)

    def mem_prev(self):
        return fld(fld(downcast(self.guard, "Some"), "0"), self.prev)

    def generated(self, q):
        """The id the application's callback returned, or a random one after it failed; None otherwise."""
        evs = q.ev(r"^Callbacks::generate_session_id\(")
        if len(evs) != 1:
            return None
        r = evs[0].res
        okk = q.decide(mk("is", r, "Ok"))
        if okk is True:
            return fld(downcast(r, "Ok"), "0")
        if okk is False:
            return uuid(q)
        return None


def uuid(q):
    evs = q.ev(r"^(v4|Uuid)::new_v4\(")
    return mk("call", "to_string", (evs[-1].res,), 0) if evs else None
