"""A stream is used for nothing before its handshake, and reconnects are paced."""
from rules import *
from apiloop import API, answer, deep, is_, kept, rounds

USE = r"^(Api::handle_responses|StreamState::handle_data_upload|StreamState::handle_upstream_event|StreamState::send_ping|StreamState::initialize_stream_settings|ConfigurationUpdate::on_handshake_complete)\("


def waiting(c):
    p = c.program("bd_api")
    c.rule("first-answer", "the first response on a stream decides: a handshake opens it and keeps what came with it, a refusal to authenticate is told apart, another error or the end of the stream ends it, anything else is an error")
    num = set()
    for q in c.paths_of(p, f"{API}::wait_for_handshake", Config(opaque=[r"::handle_upstream_event$"])):
        ev = q.ev(r"^StreamState::handle_upstream_event\(", deep=False)
        if not ev or not q.ev(r"^await:await\(StreamState::handle_upstream_event\(", deep=False):
            c.ob("first-answer", q.ret == "Ok(ShuttingDown)" and bool(q.ev(r"^ComponentShutdown::cancelled\(")), q, "the wait ends without an event and without the shutdown")
            continue
        e = f"await({show(ev[-1].res)})"
        E = re.escape(e)
        c.ob("first-answer", re.fullmatch(r"await\(Receiver::recv\(.*\.stream_event_rx\)(#\d+)?\)", show(ev[-1].args[1])) is not None, q, "what is handled is not the next event of the stream")
        if q.truth(E + " is Ok") is False:
            c.ob("first-answer", q.ret == f"Err({e}?Err.0)", q, "an error in handling an event is lost")
            continue
        v = next((x for x in ("UpstreamMessages", "StreamClosed", "Shutdown") if q.truth(E + rf"\?Ok\.0 is {x}")), None)
        if v == "Shutdown":
            c.ob("first-answer", q.ret == "Ok(ShuttingDown)", q, "a shutdown is taken for something else")
        elif v == "StreamClosed":
            c.ob("first-answer", q.ret == f"Ok(StreamClosure({e}?Ok.0?StreamClosed.0))", q, "the end of the stream, or its reason, is lost")
        elif v == "UpstreamMessages":
            ms = f"{e}?Ok.0?UpstreamMessages.0"
            if q.kind == "panic":
                c.ob("first-answer", q.truth(r"slice::split_first\(" + re.escape(ms) + r"\) is Some") is False and q.truth("0==len\\(" + re.escape(ms) + r"\)") is False, q, "the wait can panic")
                continue
            first = rf"(slice::split_first\({re.escape(ms)}\)\?Some\.0\.0|slice::first\({re.escape(ms)}\)\?Some\.0|{re.escape(ms)}\[0\])"
            kind = next((x for x in ("Handshake", "ErrorShutdown") if q.truth(first + rf"\.response_type\?Some\.0 is {x}")), None)
            if kind == "Handshake":
                m = re.fullmatch(rf"Ok\(Received\((?:MessageField::take\()?{first}\.response_type\?Some\.0\?Handshake\.0\.stream_settings(?:\.0)?\)?(?:#\d+)?,(.*)\)\)", q.ret)
                c.ob("first-answer", m is not None and m.group(m.lastindex) in (f"slice::split_first({ms})?Some.0.1", f"{ms}[1..]"), q, "the handshake's settings, or what came after it, are lost")
            elif kind == "ErrorShutdown":
                st = [(k, v2) for k, v2 in q.state.facts.items() if re.fullmatch(first + r"\.response_type\?Some\.0\?ErrorShutdown\.0\.grpc_status==.*|.*==" + first + r"\.response_type\?Some\.0\?ErrorShutdown\.0\.grpc_status", show(k))]
                if not c.ob("first-answer", len(st) == 1, q, "why the server shut the stream down is not asked"):
                    continue
                num |= set(re.findall(r"static:([\w:{}#]+)|(?<==)(\d+)\b|^(\d+)(?===)", show(st[0][0])))
                c.ob("first-answer", q.ret == "Ok(Unauthenticated)" if st[0][1] else re.match(r"Ok\(StreamClosure\(.*" + first + r"\.response_type\?Some\.0\?ErrorShutdown\.0\.grpc_message", q.ret) is not None, q, "a refusal to authenticate and another error are confused, or the reason lost")
            else:
                c.ob("first-answer", q.ret.startswith("Err("), q, "something other than a handshake opens the stream")
        else:
            c.ob("first-answer", False, q, "an event is not told apart")
        for lp in q.loops():
            for i in [Iter(q, tr, st) for tr, st in lp.iters]:
                ev = i.ev(r"^StreamState::handle_upstream_event\(", deep=False)
                if ev:
                    e = re.escape(f"await({show(ev[-1].res)})")
                    c.ob("first-answer", i.truth(rf"0==len\({e}\?Ok\.0\?UpstreamMessages\.0\)") is True or i.truth(rf"slice::(split_)?first\({e}\?Ok\.0\?UpstreamMessages\.0\) is Some") is False, i, "something that arrived before the handshake is skipped")
    for s, a, b in num:
        f = next((f for f in p.by_id.values() if s and f.id == s), None)
        n = a or b or (str(f.blocks[0][0][0][2][1].get("k", {}).get("v")) if f is not None else None)
        c.ob("first-answer", n == "16", f"{API}::wait_for_handshake", f"the status taken for a refusal to authenticate is {n}")
    c.ob("first-answer", len(num) == 1, f"{API}::wait_for_handshake", "no status is taken for a refusal to authenticate")


def opening(c):
    c.rule("handshake-first", "the first thing sent on a stream is the handshake, and nothing else is sent, handled or announced on it before the server's handshake arrived")
    c.rule("leftovers", "what came with the handshake is handled before the pipelines are told it is complete, and every pipeline is told, once per stream")
    c.rule("reason", "the handshake carries the reason the last stream ended for, once")
    c.rule("paced", "a lost stream is followed by a wait before the next one, unless it had lived long enough or the client was refused; a wait cut short by the shutdown ends the task")
    p, qs, its, ends = rounds(c)
    pipes = field(p, API, "ConfigurationUpdate")
    told = given = 0
    for i in its + ends:
        evs = deep(i)
        st = [n for n, e in enumerate(evs) if repr(e).startswith("PlatformNetworkManager::start_stream(")]
        w = [n for n, e in enumerate(evs) if repr(e).startswith("await:await(Api::wait_for_handshake(")]
        use = [n for n, e in enumerate(evs) if re.match(USE, repr(e))]
        sent = [n for n, e in enumerate(evs) if repr(e).startswith("StreamState::send_request(")]
        r = answer(i)
        got = is_(i, r, "Received") if r else None
        c.ob("handshake-first", len(st) <= 1 and len(w) <= 1, i, "more than one stream, or more than one handshake, in a round")
        if use:
            c.ob("handshake-first", got is True and len(w) == 1 and use[0] > w[0], i, "the stream is used before its handshake")
        if w:
            ok_ = len(sent) == 1 and sent[0] < w[0] and bool(re.match(r"Api::handshake_request\(", show(evs[sent[0]].args[1]))) and any(repr(e).startswith("await:await(StreamState::send_request(") for e in evs[sent[0]:w[0]])
            c.ob("handshake-first", ok_, i, "the handshake is not what is sent first")
        for n in sent:
            hs = re.fullmatch(r"Api::handshake_request\((.*)\)(#\d+)?", show(evs[n].args[1]))
            t = evs[n].args[1]
            last = show(t.a[1][2]) if hs and t.op == "call" and len(t.a[1]) == 3 else "?"
            given += last.startswith("Some(")
            c.ob("reason", last == "None" or re.fullmatch(r"Some\((phi:\w+\?Some\.0)\)", last) is not None, i, "the reason given is not that of the last stream")
        if got:
            hr = [n for n, e in enumerate(evs) if repr(e).startswith("Api::handle_responses(")]
            ah = [n for n, e in enumerate(evs) if repr(e).startswith("await:await(Api::handle_responses(")]
            c.ob("leftovers", bool(hr) and bool(ah) and f"{r}?Received.1" == show(evs[hr[0]].args[1]), i, "what came with the handshake is not handled")
            ini = [e for e in evs if repr(e).startswith("StreamState::initialize_stream_settings(")]
            c.ob("leftovers", len(ini) == 1 and show(ini[0].args[1]) == f"{r}?Received.0", i, "the settings of the stream are lost")
            lps = [lp for lp in i.loops() if lp.src is not None and show(lp.src).endswith(f".{pipes}")]
            if ah and i.truth(re.escape(show(evs[ah[0]].args[0]) if evs[ah[0]].args else "?") + " is Ok") is not False and not (i.kind == "ret" and re.match(r"Err\(await\(Api::handle_responses\(", i.ret) and not lps):
                done = [n for n, e in enumerate(evs) if repr(e).startswith("ConfigurationUpdate::on_handshake_complete(")]
                told += 1
                c.ob("leftovers", len(lps) == 1 and i.whole(lps[0]) and all(len(Iter(i.q, tr, s).ev(r"^ConfigurationUpdate::on_handshake_complete\(item\(")) == 1 for tr, s in lps[0].iters)
                     and bool(done) and done[0] > ah[0], i, "the pipelines are not all told that the handshake is complete, or before what came with it is handled")
    c.ob("leftovers", told > 0, API, "no stream is ever opened")
    c.ob("reason", given > 0, API, "no handshake ever gives a reason")
    for i in its:
        r = answer(i)
        evs = deep(i)
        bo = [e for e in i.events() if repr(e).startswith("Api::do_reconnect_backoff(")]
        waited = bool(bo) and i.truth(re.escape(f"await({show(bo[-1].res)})")) is True
        M, N = r"Duration::minutes\([1-9]\d*\)", r".*Instant::now\(\)#\d+.*"
        lived = i.truth(f"{M}<{N}") is True or i.truth(f"{N}<{M}") is False or None
        fresh = i.ev(r"^Backoff::reset\(")
        c.ob("paced", waited or is_(i, r, "Unauthenticated") is True or (lived is True and len(fresh) == 1 and is_(i, r, "Received") is True), i, "a new stream is tried without waiting")
        c.ob("paced", not fresh or lived is True, i, "the pace is reset though the stream did not live long")
        v = kept(i, r"\?StreamClos\w+\.0$")
        now = show(v[i.n]) if i.n in v else None
        if is_(i, r, "StreamClosure"):
            c.ob("reason", now == f"{r}?StreamClosure.0", i, "the reason the stream ended for is not kept")
        elif is_(i, r, "Received"):
            c.ob("reason", now is not None and re.fullmatch(r"await\(StreamState::handle_upstream_event\(.*\)(#\d+)?\)\?Ok\.0\?StreamClosed\.0", now) is not None, i, "the reason the stream ended for is not kept")
        else:
            c.ob("reason", now is None, i, "an old reason is given again")
    for i in ends:
        bo = [e for e in i.events() if repr(e).startswith("Api::do_reconnect_backoff(")]
        if bo:
            c.ob("paced", i.truth(re.escape(f"await({show(bo[-1].res)})")) is False and i.ret == "Ok(())", i, "a wait not cut short ends the task, or a shutdown is an error")
    for q in c.paths_of(p, f"{API}::do_reconnect_backoff"):
        if q.kind == "panic":
            c.ob("paced", q.truth(r"Backoff::next_backoff\(.*\)(#\d+)? is Some") is False, q, "waiting can panic")
            continue
        sl = q.ev(r"^await:await\(time::sleep\(Backoff::next_backoff\(\$2\)(#\d+)?\?Some\.0\)")
        if q.ret == "true":
            c.ob("paced", len(sl) == 1, q, "the wait is not as long as the pace says")
        else:
            c.ob("paced", q.ret == "false" and bool(q.ev(r"^(await:await\()?ComponentShutdown::cancelled\(")), q, "a wait is given up without the shutdown")


GROUPS = [waiting, opening]
FLOORS = {"first-answer": 12, "handshake-first": 60, "leftovers": 30, "reason": 40, "paced": 30}
