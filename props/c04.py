"""The device id: one id per store, handed out only as recorded."""
from rules import *

CFG = dict(opaque=[r"^bd_key_value::Store::\w+$"])
DEV = "bd_device::Device"


def device_id(c):
    p = c.program("bd_device", "bd_key_value")
    idf = "self." + field(p, DEV, r"Mutex<")
    store = "self." + field(p, DEV, r"Arc<bd_key_value::Store>")
    c.rule("cached", "an id already known is returned unchanged, without touching the store")
    c.rule("recorded", "the first read returns the id the store holds, without writing the store")
    c.rule("created", "only when the store holds none is an id generated, written to the same key, and that id returned")
    c.rule("remembered", "the id returned is the one every later read returns")
    c.rule("atomic", "reading, generating and remembering happen in one critical section")
    g = mk("call", "lock", (fld(sym("self"), idf[5:]),), 1)
    for q in c.paths_of(p, f"{DEV}::id", Config(**CFG)):
        locks = q.ev(r"^lock:")
        un = q.idx(r"^unlock:")
        c.ob("atomic", q.kind == "ret" and len(locks) == 1 and show(locks[0].args[0]) == idf and len(un) == 1
             and un[0] > max(q.idx(r"^(lock:|Store::|v4::)")), q, "not one critical section")
        known = q.decide(mk("is", g, "Some"))
        sets, gets = q.ev(r"^Store::set\("), q.ev(r"^Store::get\(")
        h = q.x.heap().get(g)
        if known:
            c.ob("cached", q.rett is fld(downcast(g, "Some"), "0") and not q.has(r"^Store::") and h is None, q,
                 "a known id is not returned unchanged")
            continue
        c.ob("remembered", known is False and h is not None and q.e.resolve(q.state, h) is some(q.rett), q,
             "the id returned is not remembered")
        okk = len(gets) == 1 and show(gets[0].args[0]) == store
        if not c.ob("recorded", okk, q, "the store is not consulted exactly once"):
            continue
        r = gets[0].res
        held = q.decide(mk("is", r, "Some"))
        if held:
            c.ob("recorded", q.rett is fld(downcast(r, "Some"), "0") and not q.has(r"^Store::(?!get)"), q,
                 "the recorded id is not returned, or is overwritten")
        else:
            u = q.ev(r"^v4::new_v4\(")
            c.ob("created", held is False and len(u) == 1 and q.rett is mk("call", "to_string", (u[0].res,), 0)
                 and len(sets) == 1 and sets[0].args[2] is q.rett and sets[0].args[1] is gets[0].args[1]
                 and show(sets[0].args[0]) == store and q.before(r"^Store::get", r"^Store::set"), q,
                 "the id returned is not the one generated and written under the key that is read")


GROUPS = [device_id]
FLOORS = {"cached": 1, "recorded": 1, "created": 1, "remembered": 1, "atomic": 1}
