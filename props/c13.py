"""Completion signals: the receiver gets exactly the value sent, or an error, and never waits forever."""
from rules import *

S, R = "bd_completion::Sender", "bd_completion::Receiver"


def pair(c):
    p = c.program("bd_completion")
    tx, rx = field(p, S, r"oneshot::Sender<"), field(p, R, r"oneshot::Receiver<")
    c.rule("paired", "a new pair is the two ends of one channel")
    for q in c.paths_of(p, f"{S}::<T>::new"):
        ch = q.ev(r"^oneshot::channel\(")
        c.ob("paired", q.kind == "ret" and len(ch) == 1 and fld(fld(q.rett, "0"), tx) is fld(ch[0].res, "0")
             and fld(fld(q.rett, "1"), rx) is fld(ch[0].res, "1"), q, "not the two ends of one channel")
    c.rule("held-once", "neither side keeps another copy of its end, so a dropped sender is noticed")
    c.ob("held-once", list(fields(p, S)) == [tx] and not re.search(r"Arc|Rc<|Receiver", fields(p, S)[tx]), S, "the sender holds more than its end")
    c.ob("held-once", list(fields(p, R)) == [rx] and not re.search(r"Arc|Rc<|Sender", fields(p, R)[rx]), R, "the receiver holds more than its end")


def send(c):
    p = c.program("bd_completion")
    tx = field(p, S, r"oneshot::Sender<")
    c.rule("sent", "sending passes the given value on exactly once and cannot fail, whether or not anybody waits")
    for q in c.paths_of(p, f"{S}::<T>::send", Config(drops=[r"oneshot::Sender"])):
        s = q.ev(r"^Sender::send\(")
        c.ob("sent", q.kind == "ret" and len(s) == 1 and show(s[0].args[0]) == f"self.{tx}" and show(s[0].args[1]) == "$2", q, "the value is not sent exactly once")


def receive(c):
    p = c.program("bd_completion")
    rx = field(p, R, r"oneshot::Receiver<")
    c.rule("received", "receiving gives the value the sender sent, and an error exactly when the sender went away")
    for name, pat in (("recv", rf"^await:await\(self\.{rx}\)"), ("blocking_recv", rf"^Receiver::blocking_recv\(self\.{rx}\)")):
        for q in c.paths_of(p, f"{R}::<T>::{name}"):
            w = q.ev(pat)
            if not c.ob("received", q.kind == "ret" and len(w) == 1, q, "does not wait for the sender exactly once"):
                continue
            good = q.decide(mk("is", w[0].res, "Ok"))
            if good:
                c.ob("received", q.rett is ok(fld(downcast(w[0].res, "Ok"), "0")), q, "not the value sent")
            else:
                c.ob("received", good is False and known_variant(q.rett) == "Err", q, "a sender that went away is not reported")


GROUPS = [pair, send, receive]
FLOORS = {"received": 4, "sent": 1, "held-once": 1}
