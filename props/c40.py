"""What is said about the network is so, and a stream is pinged as the server asked."""
from rules import *
from apiloop import API, answer, deep, is_, kept, rounds

SS = "bd_api::api::StreamState"
NQ = "bd_api::api::SimpleNetworkQualityProvider"


def said(i, net):
    """(position, value) of what each write of a round says."""
    out = []
    evs = i.events()
    h = i.heap(r"lock\(.*")
    for n, e in enumerate(evs):
        if e.kind == "lock" and repr(e).startswith("lock:write(") and f".{net}." in repr(e):
            m = re.fullmatch(r"lock:write\((.*)\)", repr(e))
            out.append((n, next((v for k, v in h.items() if re.fullmatch(r"lock\(" + re.escape(m.group(1)) + r"\)(#\d+)?", k) and v in ("Online", "Offline", "Unknown")), None)))
    return out


def quality(c):
    c.rule("said", "before each attempt to connect the network is said to be offline exactly if the connection has been lost for longer than the grace period, and unknown otherwise; it is said to be online only once the handshake is complete")
    c.rule("lost-since", "the time of the loss is when the first attempt after it was made, and is kept until a handshake completes")
    p, qs, its, ends = rounds(c)
    net = field(p, API, "SimpleNetworkQualityProvider")
    online = 0
    for i in its + ends:
        evs = i.events()
        start = next((n for n, e in enumerate(evs) if repr(e).startswith("PlatformNetworkManager::start_stream(")), len(evs))
        hs = next((n for n, e in enumerate(evs) if repr(e).startswith("await:await(Api::wait_for_handshake(")), len(evs))
        w = said(i, net)
        since = r"(Instant::now\(\)#\d+|phi:\w+\?Some\.0)"
        late = i.truth(rf"Add::add\({since},Duration::(from_secs|seconds)\([1-9]\d*\)\)<Instant::now\(\)#\d+")
        if late is None and i.truth(rf"Instant::now\(\)#\d+<Add::add\({since},Duration::(from_secs|seconds)\([1-9]\d*\)\)") is not None:
            late = False if i.truth(rf"Instant::now\(\)#\d+<Add::add\({since},Duration::(from_secs|seconds)\([1-9]\d*\)\)") else None
        pre = [v for n, v in w if n < start]
        post = [(n, v) for n, v in w if n > start]
        c.ob("said", late is not None and pre == ["Offline" if late else "Unknown"], i, "the network is said to be offline too early or too late")
        r = answer(i)
        got = is_(i, r, "Received") if r else None
        c.ob("said", all(n > hs and v == "Online" and got for n, v in post), i, "the network is said to be online without a handshake")
        served = any(e.kind == "loop" and any("Receiver::recv" in str(x.name) for tr, _ in i.q.e.loops[e.extra].iters for x in tr) for e in evs)
        if served:
            online += 1
            c.ob("said", len(post) == 1, i, "the network is not said to be online though connected")
    c.ob("said", online > 0, API, "the network is never said to be online")
    n = 0
    for i in its:
        r = answer(i)
        v = kept(i, r"^Instant::now\(\)")
        now = show(v[i.n]) if i.n in v else None
        if is_(i, r, "Received"):
            c.ob("lost-since", now is None, i, "the loss of an earlier stream is still counted")
            continue
        n += 1
        since = next((show(k) for k in i.state.facts if re.fullmatch(r"Add::add\((Instant::now\(\)#\d+|phi:\w+\?Some\.0),.*<.*|.*<Add::add\((Instant::now\(\)#\d+|phi:\w+\?Some\.0),.*", show(k))), "")
        c.ob("lost-since", now is not None and f"Add::add({now}," in since and (now.startswith("phi:") or now == "Instant::now()#1"), i, "the time of the loss is not kept")
    c.ob("lost-since", n > 0, API, "no failed attempt")
    for q in c.paths_of(p, f"bd_api::<api::SimpleNetworkQualityProvider as bd_network_quality::NetworkQualityProvider>::get_network_quality"
                        if any("<api::SimpleNetworkQualityProvider as" in x for x in p.by_id) else "SimpleNetworkQualityProvider as NetworkQualityProvider>::get_network_quality"):
        c.ob("said", re.fullmatch(r"lock\(self\.network_quality\)(#\d+)?|\*?lock\(self\.\w+\)(#\d+)?", q.ret) is not None, q, "what is told is not what was said last")


def pings(c):
    p = c.program("bd_api")
    iv, dl = field(p, SS, r"^std::option::Option<.*Duration>"), field(p, SS, r"^std::option::Option<.*Instant>")
    c.rule("interval", "the ping interval is the one the server gave with the handshake; without a valid one there are no pings")
    c.rule("next-ping", "the next ping is due one interval after the handshake or the last pong, and never without an interval")
    c.rule("one-ping", "a ping is sent when it is due, and not again before it was answered")

    def due(q, d, given):
        """one interval from now; an interval the clock cannot be moved on by is one that never passes, and nothing to panic at"""
        at = r"(tokio::time::)?Instant::checked_add\(Instant::now\(\)(#\d+)?," + given + r"\)(#\d+)?"
        return re.fullmatch(rf"{at}|Some\({at}\?Some\.0\)", d) is not None or d == "None" and q.truth(rf"{at} is Some") is False

    def last(q):
        t = q.e.resolve(q.state, next((v for k, v in q.x.heap().items() if show(k) == "self"), mk("sym", "self")))
        return show(fld(t, iv)), show(fld(t, dl))
    for q in c.paths_of(p, f"{SS}::initialize_stream_settings"):
        i_, d = last(q)
        v = r"(TryInto::try_into|TryFrom::try_from|.*)\((MessageField::take\()?\$2\?Some\.0\.ping_interval\)?(#\d+)?(\?Some\.0|\.0\?Some\.0)\)(#\d+)?\?Ok\.0"
        given = [k for k, t in q.state.facts.items() if t and re.search(r"ping_interval.* is Ok$", show(k))]
        if given:
            c.ob("interval", re.fullmatch(rf"Some\({v}\)", i_) is not None, q, "the interval given is not the one used")
            c.ob("next-ping", due(q, d, re.escape(i_[5:-1])), q, "no ping is due an interval after the handshake, or telling when panics")
        else:
            c.ob("interval", i_ == "None" and d == "None", q, "there are pings without an interval given")
    for q in c.paths_of(p, f"{SS}::maybe_schedule_ping"):
        i_, d = last(q)
        some = q.truth(rf"self\.{iv} is Some")
        c.ob("next-ping", i_ == f"self.{iv}" and (d == "None" if some is False else some is True and due(q, d, rf"self\.{iv}\?Some\.0")), q, f"the next ping is not due an interval from now, or telling when panics: {d}")
    p, qs, its, ends = rounds(c)
    loops = {}
    for i in its + ends:
        for lp in i.loops():
            if any("Receiver::recv" in str(x.name) for tr, _ in lp.iters for x in tr):
                loops.setdefault(id(lp), (i, lp))
    for i, lp in loops.values():
        sent = 0
        for n, (tr, st) in enumerate(lp.iters):
            j = Iter(i.q, tr, st)
            s = [e for e in tr if repr(e).startswith("StreamState::send_ping(")]
            due = [e for e in tr if e.kind == "call" and repr(e).startswith("time::sleep_until(")]
            c.ob("one-ping", all(re.fullmatch(rf"phi:\w+\.{dl}\?Some\.0", show(e.args[0])) for e in due), j, "a ping is due at another time")
            if s:
                sent += 1
                aw = [e for e in tr if repr(e).startswith("await:await(time::sleep_until(")]
                c.ob("one-ping", len(s) == 1 and len(aw) == 1 and f"{dl}:=None" in show(s[0].args[0]), j, "a ping is sent before it is due, or may be sent again without an answer")
            t = j.truth(rf"phi:\w+\.{dl} is Some")
            c.ob("one-ping", bool(due) == (t is True), j, "a ping that is due is not waited for")
        c.ob("one-ping", sent == 1, i, "no ping is sent when one is due")


GROUPS = [quality, pings]
FLOORS = {"said": 40, "lost-since": 10, "interval": 2, "next-ping": 2, "one-ping": 10}
