"""Queued logs are bounded in number and in memory, and what is waiting is accounted for exactly."""
from rules import *

CR = ("bd_logger", "bd_log_primitives")
MB, PB = "bd_logger::memory_bound", "bd_logger::pre_config_buffer::PreConfigBuffer::<T>"
OPQ = Config(opaque=[r"Atomic.*::new$"])
USE = r"self\.memory_capacity_usage"


def addends(t):
    if t.op == "bin" and t.a[0] == "Add":
        return addends(t.a[1]) + addends(t.a[2])
    return [show(t)]


def channel(c):
    p = c.program(*CR)
    c.rule("one-account", "sender and receiver of a channel share one account, which starts at zero, and the limits are the ones asked for")
    c.rule("reserved-first", "a message is put in the queue only after its size was added to the account and found within the limit")
    c.rule("refused", "it is refused for its size exactly when the account would exceed the limit, and for the count or as closed exactly when the queue is")
    c.rule("given-back", "a refused message gives its size back, once, and an accepted one does not")
    c.rule("received", "a received message gives its size back once, and is returned as it was sent")
    for q in c.paths_of(p, f"{MB}::channel", OPQ):
        a, t = q.ev(r"^Atomic::new\("), q.ev(r"^mpsc::channel\(\$1\)")
        c.ob("one-account", len(a) == 1 and len(t) == 1 and show(a[0].args[0]) == "0" and all(fld(q.rett.a[3][i], "memory_capacity_usage") is a[0].res for i in (0, 1))
             and show(fld(q.rett.a[3][0], "memory_capacity")) == "$2" and fld(q.rett.a[3][0], "tx") is fld(t[0].res, "0") and fld(q.rett.a[3][1], "rx") is fld(t[0].res, "1"), q, "not one account, or other limits")
    for q in c.paths_of(p, f"bd_logger::<memory_bound::Sender<T> as std::clone::Clone>::clone", OPQ):
        c.ob("one-account", show(q.rett) == "Sender{memory_capacity:self.memory_capacity,memory_capacity_usage:self.memory_capacity_usage,tx:self.tx}", q, "a copy of the sender has another account or limit")
    for q in c.paths_of(p, f"{MB}::Sender::<T>::try_send", OPQ):
        size = q.ev(r"^MemorySized::size\(\$2\)")
        add, sub, snd = q.ev(rf"^Atomic::fetch_add\({USE}"), q.ev(rf"^Atomic::fetch_sub\({USE}"), q.ev(r"^Sender::try_send\(self\.tx, \$2\)")
        oth = [e for e in q.ev(r"^Atomic::(?!load|fetch_add|fetch_sub)")]
        if not c.ob("reserved-first", q.kind == "ret" and len(add) == 1 and size and all(s.res is add[0].args[1] for s in size) and not oth and len(snd) <= 1
                    and len(q.ev(r"^Sender::try_send")) == len(snd), q, "the size is not added to the account once"):
            continue
        over = q.truth(rf"self\.memory_capacity<Add\({re.escape(show(add[0].res))},{re.escape(show(add[0].args[1]))}\)|self\.memory_capacity<Add\({re.escape(show(add[0].args[1]))},{re.escape(show(add[0].res))}\)")
        c.ob("refused", over is not None and len(snd) == (0 if over else 1), q, "the limit does not decide")
        c.ob("reserved-first", q.before(r"^Atomic::fetch_add", r"^Sender::try_send"), q, "sent before the size was accounted")
        sent = bool(snd) and q.decide(mk("is", snd[0].res, "Ok"))
        r = show(q.rett)
        if over:
            c.ob("refused", r == "Err(FullSizeOverflow($2))", q, "another reason is given")
        elif not sent:
            full = q.truth(re.escape(show(snd[0].res)) + r"\?Err\.0 is Full")
            closed = q.truth(re.escape(show(snd[0].res)) + r"\?Err\.0 is Closed")
            c.ob("refused", r.startswith("Err(FullCountOverflow(" if full or closed is False else "Err(Closed("), q, "another reason is given")
        c.ob("refused", (r == "Ok(())") == (sent is True), q, "the outcome is not the result")
        c.ob("given-back", len(sub) == (0 if sent else 1) and all(s.args[1] is add[0].args[1] for s in sub), q, "the account is wrong afterwards")
    for q in c.paths_of(p, f"{MB}::Receiver::<T>::recv", OPQ):
        aw = q.ev(r"^await:await\(Receiver::recv\(self\.rx")
        if not c.ob("received", q.kind == "ret" and len(aw) == 1 and q.rett is aw[0].res, q, "not what was received"):
            continue
        got = q.decide(mk("is", aw[0].res, "Some"))
        at, size = q.ev(r"^Atomic::(?!load)"), q.ev(r"^MemorySized::size\(")
        c.ob("received", got is not None and len(at) == (1 if got else 0) and all(repr(e).startswith("Atomic::fetch_sub(self.memory_capacity_usage") for e in at)
             and all(show(s.args[0]) == show(aw[0].res) + "?Some.0" and at[0].args[1] is s.res for s in size) and bool(size) == bool(at), q, "the size is not given back")


def waiting(c):
    p = c.program(*CR)
    c.rule("pre-bounded", "before the first configuration a log is kept exactly when there is room for one more and for its size")
    c.rule("pre-kept", "a kept log is added at the end and its size counted, a refused one changes nothing")
    c.rule("pre-all", "all kept logs are given out, in order, and a new buffer is empty and has the limits asked for")
    for q in c.paths_of(p, f"{PB}::push"):
        size = q.ev(r"^MemorySized::size\(\$2\)")
        room = q.truth(r"len\(self\.items\)<self\.max_count")
        s = show(size[0].res) if size else "?"
        big = q.truth(re.escape(f"self.max_size<Add({s},self.current_size)") + "|" + re.escape(f"self.max_size<Add(self.current_size,{s})"))
        r, h = show(q.rett), q.heap(r"self$")
        keep = room is True and big is False
        c.ob("pre-bounded", q.kind == "ret" and room is not None and (room is False or big is not None)
             and r == ("Ok(())" if keep else "Err(FullCountOverflow)" if not room else "Err(FullSizeOverflow)"), q, "the limits do not decide")
        txt = " ".join(h.values())
        if keep:
            c.ob("pre-kept", f"items:=[self.items ++ one($2)]" in txt and (f"current_size:=Add({s},self.current_size)" in txt or f"current_size:=Add(self.current_size,{s})" in txt), q, "not added at the end, or not counted")
        else:
            c.ob("pre-kept", ":=" not in txt, q, "a refused log changes the buffer")
    for q in c.paths_of(p, f"{PB}::pop_all"):
        c.ob("pre-all", show(q.rett) in ("iter(self.items)", "self.items"), q, "not all logs in order")
    for q in c.paths_of(p, f"{PB}::new"):
        r = q.rett
        c.ob("pre-all", [show(fld(r, x)) for x in ("max_count", "max_size", "current_size")] == ["$1", "$2", "0"] and show(fld(r, "items")) in ("[]", "Vec::new()"), q, "not empty, or other limits")


def sizes(c):
    p = c.program(*CR)
    c.rule("size", "the size of a message counts all text and bytes it holds: its message, every field's key and value, its names")
    b = "bd_logger::<"
    for ty, pre in (("async_log_buffer::AsyncLogBufferMessage", "self?EmitLog.0"), ("async_log_buffer::LogLine", "self"), ("::Log", "self")):
        f = f"{b}{ty} as size::MemorySized>::size" if ty != "::Log" else "bd_logger::async_log_buffer::<impl size::MemorySized for bd_log_primitives::Log>::size"
        for q in c.paths_of(p, f):
            a = addends(q.rett)

            def one(place, txt):
                return f"len({place})" in txt or f"Vec::capacity({place})" in txt

            def held(place, txt):
                v = q.truth(re.escape(place) + " is String")
                return v is not None and one(f"{place}?{'String' if v else 'Bytes'}.0", txt)
            if "Message" in ty and q.truth(r"self is EmitLog") is not True:
                s = " ".join(a)
                if q.truth(r"self is AddLogField"):
                    c.ob("size", one("self?AddLogField.0.key", a) and held("self?AddLogField.0.value", a), q, "a held text is not counted")
                elif q.truth(r"self is RemoveLogField"):
                    c.ob("size", one("self?RemoveLogField.0", a), q, "a held text is not counted")
                else:
                    c.ob("size", bool(a), q, "no size")
                continue
            c.ob("size", held(f"{pre}.message", a), q, "the message is not counted")
            if ty.endswith("::Log"):
                c.ob("size", one("self.session_id", a), q, "the session id is not counted")
            for l in ("fields", "matching_fields"):
                pl = f"{pre}.{l}"
                it = f"item({pl})" + ("" if ty.endswith("::Log") else ".field")
                ss = [x for x in a if x.startswith(f"sum([each {pl}: ")]
                c.ob("size", len(ss) == 1 and ss[0].count(f"len({it}.key)") == 2 and one(f"{it}.value?String.0", ss[0]) and one(f"{it}.value?Bytes.0", ss[0]), q, f"not all {l} are counted")


GROUPS = [channel, waiting, sizes]
FLOORS = {"one-account": 2, "reserved-first": 8, "refused": 10, "given-back": 4, "received": 4, "pre-bounded": 3, "pre-kept": 3, "pre-all": 2, "size": 15}
