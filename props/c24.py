"""Activity-based sessions: a new session exactly after inactivity (or a clock set back), recorded and announced."""
from rules import *
from session import uuid

CR = ("bd_session", "bd_key_value", "bd_log_primitives")
CFG = dict(opaque=[r"^bd_key_value::Store::\w+$"])
S = "bd_session::activity_based::Strategy"
KEY = "static:bd_session::activity_based::STATE_KEY"


class Act:
    def __init__(self, c):
        self.c = c
        p = self.p = c.program(*CR)
        self.store = "self." + field(p, S, r"Arc<bd_key_value::Store>")
        self.state = "self." + field(p, S, r"Mutex<")
        m = re.search(r"Option<([\w:]+)>", fields(p, S)[self.state[5:]])
        self.mem = m.group(1) if m.group(1) in p.adts else "bd_session::" + m.group(1)
        self.cur = field(p, self.mem, r"^std::string::String$")
        self.prev = field(p, self.mem, r"Option<std::string::String>$")
        self.last = field(p, self.mem, r"^time::OffsetDateTime$")
        self.write = field(p, self.mem, r"Option<time::OffsetDateTime>$")
        self.rid = field(p, "bd_session::activity_based::State", r"^std::string::String$")
        self.rlast = field(p, "bd_session::activity_based::State", r"OffsetDateTime$")
        # the two durations by what they are constructed from: one is a parameter, the other a constant
        durs = [k for k, t in fields(p, S).items() if t == "time::Duration"]
        self.thr = self.every = None
        for q in self.paths("new"):
            for d in durs:
                v = fld(q.rett, d)
                if v.op == "sym" and show(v).startswith("$"):
                    self.thr = f"self.{d}"
                else:
                    self.every = f"self.{d}"
        if self.thr is None or self.every is None:
            raise Anchor("inactivity threshold and write interval")

    def paths(self, n):
        return self.c.paths_of(self.p, f"{S}::{n}", Config(**CFG))

    def guard(self, q):
        lk = q.ev(r"^lock:")
        if len(lk) != 1 or show(lk[0].args[0]) != self.state:
            return None
        return lk[0].res

    def one_section(self, q):
        """State, clock-independent: store, callback and generation happen between the one lock and its release."""
        g = self.guard(q)
        if g is None:
            return False
        un = q.idx(r"^unlock:")
        return bool(un) and min(un) > max(q.idx(r"^(lock:|Store::|Callbacks::|v4::)"))

    def after(self, q, g):
        """Memory left behind (None: not written)."""
        v = q.x.heap().get(g)
        if v is None:
            return None
        v = q.e.resolve(q.state, v)
        return fld(downcast(v, "Some"), "0") if known_variant(v) == "Some" else None

    def since(self, now, last, q, dur):
        """Whether more than `dur` lies between last and now on this path (None: not asked)."""
        n, t = show(now), show(last)
        for pat in (f"{dur}<Sub::sub({n},{t})", f"Add::add({t},{dur})<{n}", f"{t}<Sub::sub({n},{dur})"):
            v = q.truth(re.escape(pat))
            if v is not None:
                return v
        return None


def read(c):
    a = Act(c)
    c.rule("one-section", "reading the session decides, changes, records and announces it in one critical section")
    c.rule("rotates", "a known session is replaced exactly when the clock is before its last activity or the threshold has passed since")
    c.rule("keeps", "otherwise the session known in memory, or else in the store, is the one returned and kept")
    c.rule("fresh", "a replaced or first session has a generated id that is returned, remembered and recorded alike")
    c.rule("announced", "the application is told of a generated session, with the id that is returned, and of no other")
    c.rule("activity", "every read moves the last activity to the present")
    c.rule("previous", "the previous process's id is what the store held at the first read, and never changes")
    c.rule("throttled", "an unchanged session is recorded again exactly when it was not yet, or not for the write interval")
    for q in a.paths("session_id"):
        g = a.guard(q)
        if not c.ob("one-section", q.kind == "ret" and g is not None and a.one_section(q), q, "not one critical section"):
            continue
        now = [e.res for e in q.ev(r"^TimeProvider::now\(")]
        known = q.decide(mk("is", g, "Some"))
        sets, tells, gen = q.ev(r"^Store::set\("), q.ev(r"^Callbacks::"), q.ev(r"^(v4|Uuid)::new_v4\(")
        m = a.after(q, g)
        if not c.ob("activity", len(now) == 1 and m is not None and fld(m, a.last) is now[0], q, "the last activity is not moved to now"):
            continue
        now = now[0]
        if known:
            old = fld(downcast(g, "Some"), "0")
            oid, ol, ow = fld(old, a.cur), fld(old, a.last), fld(old, a.write)
            c.ob("previous", fld(m, a.prev) is fld(old, a.prev) and not q.has(r"^Store::get"), q, "the previous id is changed")
        else:
            st = q.ev(r"^Store::get\(")
            if not c.ob("previous", known is False and len(st) == 1 and show(st[0].args[1]) == KEY, q, "the store is not asked once"):
                continue
            found = q.decide(mk("is", st[0].res, "Some"))
            rec = fld(downcast(st[0].res, "Some"), "0")
            if found:
                oid, ol = fld(rec, a.rid), fld(rec, a.rlast)
                c.ob("previous", fld(m, a.prev) is some(oid), q, "not what the store held")
            else:
                oid, ol = None, now
                c.ob("previous", found is False and known_variant(fld(m, a.prev)) == "None", q, "an id of no process")
            ow = NONE
        back, exp = q.truth(re.escape(f"{show(now)}<{show(ol)}")), a.since(now, ol, q, a.thr)
        cur = fld(m, a.cur)
        fresh = [e.res for e in gen]
        isfresh = any(cur is mk("call", "to_string", (r,), 0) for r in fresh)
        c.ob("fresh", q.rett is cur and bool(fresh) == isfresh, q, "the id returned is not the one remembered")
        c.ob("announced", bool(tells) == bool(fresh) and (not tells or tells[-1].args[1] is cur), q,
             "a generated session is not announced, or another one is")
        if oid is not None:
            c.ob("rotates", isfresh == (back is True or exp is True) and (isfresh or (exp is False and back is False)), q,
                 "replaced although the session is active, or kept although it is not")
            if not isfresh:
                c.ob("keeps", cur is oid and not tells, q, "not the known session")
        rec_ok = all(show(s.args[0]) == a.store and show(s.args[1]) == KEY and fld(s.args[2], a.rid) is cur
                     and fld(s.args[2], a.rlast) is now for s in sets[-1:])
        if isfresh:
            c.ob("fresh", len(sets) >= 1 and rec_ok, q, "the generated session is not the one recorded")
        else:
            last = fld(downcast(ow, "Some"), "0")
            first = True if ow is NONE else {True: False, False: True, None: None}[q.decide(mk("is", ow, "Some"))]
            due = first or a.since(now, last, q, a.every)
            c.ob("throttled", due is not None and len(sets) == (1 if due else 0) and rec_ok, q, "recorded too often or too rarely")
        if sets:
            c.ob("throttled", fld(m, a.write) is some(now), q, "the write is not remembered")
        elif known:
            c.ob("throttled", fld(m, a.write) is ow, q, "a write is remembered that did not happen")


def start(c):
    a = Act(c)
    c.rule("new-id", "starting a session returns a generated id, remembers and records that same one")
    for q in a.paths("start_new_session"):
        g = a.guard(q)
        if not c.ob("one-section", q.kind == "ret" and g is not None and a.one_section(q), q, "not one critical section"):
            continue
        m, sets = a.after(q, g), q.ev(r"^Store::set\(")
        cur = uuid(q)
        c.ob("new-id", cur is not None and q.rett is cur and m is not None and fld(m, a.cur) is cur and len(sets) == 1
             and show(sets[0].args[1]) == KEY and fld(sets[0].args[2], a.rid) is cur, q, "the id returned, remembered and recorded differ")
        if m is None:
            continue
        known = q.decide(mk("is", g, "Some"))
        if known:
            c.ob("previous", fld(m, a.prev) is fld(fld(downcast(g, "Some"), "0"), a.prev), q, "the previous id is changed")
        else:
            st = q.ev(r"^Store::get\(")
            okk = known is False and len(st) == 1 and q.before(r"^Store::get\(", r"^Store::set\(")
            if okk:
                found = q.decide(mk("is", st[0].res, "Some"))
                want = some(fld(fld(downcast(st[0].res, "Some"), "0"), a.rid))
                okk = fld(m, a.prev) is want if found else known_variant(fld(m, a.prev)) == "None"
            c.ob("previous", okk, q, "the previous id is not what the store held before")


def others(c):
    a = Act(c)
    c.rule("asked", "asking for the previous process's id changes nothing and gives the remembered, or else the stored, one")
    c.rule("flushed", "flushing records the session in memory and changes nothing else")
    for q in a.paths("previous_process_session_id"):
        g = a.guard(q)
        known = q.decide(mk("is", g, "Some")) if g is not None else None
        good = q.kind == "ret" and g is not None and a.after(q, g) is None and not q.has(r"^Store::(set|delete)")
        if known:
            good = good and q.rett is fld(fld(downcast(g, "Some"), "0"), a.prev)
        else:
            st = q.ev(r"^Store::get\(")
            good = good and known is False and len(st) == 1 and show(st[0].args[1]) == KEY
            if good:
                found = q.decide(mk("is", st[0].res, "Some"))
                good = q.rett is some(fld(fld(downcast(st[0].res, "Some"), "0"), a.rid)) if found else known_variant(q.rett) == "None"
        c.ob("asked", good, q, "not the previous process's session")
    for q in a.paths("flush"):
        g = a.guard(q)
        known = q.decide(mk("is", g, "Some")) if g is not None else None
        sets = q.ev(r"^Store::set\(")
        good = q.kind == "ret" and g is not None and a.after(q, g) is None and not q.has(r"^Callbacks::|^Store::delete")
        if known:
            old = fld(downcast(g, "Some"), "0")
            good = good and len(sets) == 1 and show(sets[0].args[1]) == KEY and fld(sets[0].args[2], a.rid) is fld(old, a.cur) \
                and fld(sets[0].args[2], a.rlast) is fld(old, a.last)
        else:
            good = good and known is False and not sets
        c.ob("flushed", good, q, "what is flushed is not the session in memory")


GROUPS = [read, start, others]
FLOORS = {"rotates": 6, "keeps": 2, "fresh": 4, "announced": 6, "throttled": 4, "previous": 6, "new-id": 2, "asked": 3, "flushed": 2}
