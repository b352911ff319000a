"""Component shutdown: seen by every component, complete only when all of them are gone."""
from rules import *

S = "bd_shutdown"
TR, HA, CS = f"{S}::ComponentShutdownTrigger", f"{S}::ComponentShutdownTriggerHandle", f"{S}::ComponentShutdown"
STATUS = f"{S}::ComponentStatus"


def setup(c):
    p = c.program(S)
    return p, field(p, TR, r"watch::Sender<"), field(p, HA, r"watch::Sender<"), field(p, CS, r"watch::Receiver<")


def announce(c):
    p, tx, _, _ = setup(c)
    c.rule("announced", "shutting down marks the status unconditionally, even while nobody listens, before it starts waiting")
    c.rule("waits-for-all", "shutting down returns only when no component can still be running")
    for name in ("shutdown", "shutdown_blocking"):
        for q in c.paths_of(p, f"{TR}::{name}"):
            s = q.ev(r"^Sender::(send_replace|send_modify|send_if_modified|send)\(")
            c.ob("announced", q.kind == "ret" and len(s) == 1 and s[0].path.endswith("send_replace") and show(s[0].args[0]) == f"self.{tx}"
                 and known_variant(s[0].args[1]) == "PendingShutdown" and q.before(r"^Sender::send_replace\(", r"^Sender::(closed|is_closed)\(|^await:"),
                 q, "the shutdown is not announced to everybody before waiting")
            cl = [e for e in q.ev(r"^await:", deep=False) if re.match(r"await\(Sender::closed\(self\." + tx, show(e.res))]
            ic = q.ev(r"^Sender::is_closed\(", deep=False)
            ic = [e for e in ic if show(e.args[0]) == f"self.{tx}"]
            rc = [e for e in q.ev(r"^Sender::receiver_count\(", deep=False) if show(e.args[0]) == f"self.{tx}"]
            cl += [e for e in rc[-1:] if q.decide(eq(e.res, integer(0)))]
            c.ob("waits-for-all", bool(cl) or (bool(ic) and q.decide(ic[-1].res) is True), q, "returns while a component may still be running")


def wiring(c):
    p, tx, htx, rx = setup(c)
    c.rule("wired", "triggers, handles and components all look at the one status")
    for f, want in ((f"{TR}::make_shutdown", (rx, f"Sender::subscribe(self.{tx})#1")), (f"{HA}::make_shutdown", (rx, f"Sender::subscribe(self.{htx})#1")),
                    (f"{TR}::make_handle", (htx, f"self.{tx}"))):
        for q in c.paths_of(p, f):
            c.ob("wired", q.kind == "ret" and show(fld(q.rett, want[0])) == want[1], q, "not connected to this trigger's status")
    c.rule("no-self-wait", "neither a trigger nor a handle counts as a component, so waiting can end")
    for adt in (TR, HA):
        c.ob("no-self-wait", not any("Receiver" in t or "ComponentShutdown" in re.sub("ComponentShutdownTrigger", "", t) for t in fields(p, adt).values()), adt,
             "holds a receiver of the status it waits to be closed")
    for f in [f for f in p.by_id.values() if f.id.endswith("ComponentShutdownTrigger as std::default::Default>::default")]:
        for q in c.paths_of(p, f):
            ch = q.ev(r"^(watch::channel|Sender::new)\(")
            c.ob("wired", len(ch) == 1 and known_variant(ch[0].args[0]) == "Running" and fld(q.rett, tx) in (fld(ch[0].res, "0"), ch[0].res), q, "does not start as running")


def cancelled(c):
    p, _, _, rx = setup(c)
    c.rule("cancelled", "waiting for cancellation returns at once if it already happened, and otherwise when the status changes")
    for q in c.paths_of(p, f"{CS}::cancelled"):
        b = q.ev(r"^(await:|Receiver::(borrow|borrow_and_update|changed|wait_for|has_changed)\()", deep=False)
        wf = [e for e in b if repr(e).startswith(f"Receiver::wait_for(self.{rx}, ")]
        if wf:
            c.ob("cancelled", q.kind == "ret" and len(wf) == 1 and waits_for_shutdown(c, p, wf[0].args[1])
                 and any(e.kind == "await" and "Receiver::wait_for" in show(e.res) for e in b), q, "waits for something else than the shutdown")
            continue
        looks = [e for e in b if re.match(r"^Receiver::borrow(_and_update)?\(", repr(e))]
        if not c.ob("cancelled", q.kind == "ret" and bool(looks), q, "the current status is not looked at"):
            continue
        run = q.decide(is_(looks[-1].res, "Running", STATUS))
        aw = [e for e in b if e.kind == "await"]
        if run is False:
            c.ob("cancelled", True, q, "")
            continue
        later = b[b.index(looks[-1]):]
        chg = [e for e in later if e.kind == "await" and re.search(r"Receiver::changed\(.*\b" + rx, show(e.res))]
        c.ob("cancelled", run is True and bool(chg), q, "returns although shutdown was neither requested nor announced since")
        c.ob("cancelled", all(e in later for e in aw), q, "waits for a change before looking whether it already happened")
    for q in c.paths_of(p, f"{CS}::component_status"):
        c.ob("cancelled", re.fullmatch(rf"Receiver::borrow\(self\.{rx}\)(#1)?", q.ret) is not None, q, "not the current status")


def waits_for_shutdown(c, p, clos):
    """Whether a predicate over the status is: shutdown is pending."""
    body = p.fns.get(clos.a[0][1]) if clos.op == "agg" and isinstance(clos.a[0], tuple) else None
    if body is None:
        return False
    for h in c.paths_of(p, body):
        for v, want in (("Running", FALSE), ("PendingShutdown", TRUE)):
            m = {sym("$2"): agg(STATUS, v, (), ())}
            if holds(c, p, list(h.state.facts.items()), m) is not False and fold(c, p, h.rett, m) is not want:
                return False
    return True


def senders(c):
    p, _, _, _ = setup(c)
    c.rule("one-way", "the status only ever changes from running to shutting down")
    for f in p.by_id.values():
        if f.kind not in ("fn", "closure") or f.crate != S or "_test" in (f.span or [""])[0]:
            continue
        if f.kind == "fn" and p.helper_of(f, set(p.by_id) - {f.id}):
            continue  # followed where it is called
        for q in c.paths_of(p, f):
            for e in q.ev(r"^Sender::(send|send_replace|send_modify|send_if_modified)\("):
                c.ob("one-way", known_variant(e.args[1]) == "PendingShutdown", q, "writes something else than a shutdown")


def signals(c):
    p = c.program(S)
    c.rule("signals", "graceful shutdown starts on either SIGTERM or SIGINT, and not without one")
    seen = set()
    for q in c.paths_of(p, f"{S}::real_graceful_shutdown"):
        if q.kind != "ret":
            c.ob("signals", any(q.decide(mk("is", e.res, "Ok")) is False for e in q.ev(r"signal\(")), q, "panics although both signals can be watched")
            continue
        aw = q.ev(r"^await:", deep=False)
        m = re.search(r"SignalKind::(\w+)\(", show(aw[-1].res)) if aw else None
        if c.ob("signals", bool(m) and "Signal::recv" in show(aw[-1].res), q, "continues without a signal"):
            seen.add(m.group(1))
    c.ob("signals", seen == {"terminate", "interrupt"}, f"{S}::real_graceful_shutdown", f"only reacts to {sorted(seen)}")


GROUPS = [announce, wiring, cancelled, senders, signals]
FLOORS = {"announced": 2, "waits-for-all": 2, "wired": 4, "no-self-wait": 2, "cancelled": 2, "one-way": 2, "signals": 5}
