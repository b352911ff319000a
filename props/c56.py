"""The network the client uses on desktops: one stream at a time, each told its end, until shutdown."""
from rules import *
from c46 import n, facts

H = "bd_hyper_network::HyperNetwork::"
S = r"(?:self|G|phi:self|self\{[^{}]*\}|phi:self\{[^{}]*\})"
GOT = rf"await\(Receiver::recv\({S}\.stream_event_rx\)(?:#\d+)?\)"
QUIET = r"TokioExecutor|Client::builder|HttpConnector|HttpsConnector|Builder::(?!body)|Level|PartialOrd|__|Callsite|log::|Interest"


def own(q):
    """the events of a path, or of a round alone"""
    return [e for e in (q._top if q.kind == "iter" else q.trace) if e.kind not in ("done", "loop") and not re.match(QUIET, repr(e))]


def known(q, pat):
    """the answer to a question on this path (every answer to it is the same, or it was not asked)"""
    v = {v for k, v in q.state.facts.items() if re.fullmatch(pat, n(k))}
    return v.pop() if len(v) == 1 else None


def last_wait(q):
    w = [e for e in own(q) if e.kind == "await"]
    return n(w[-1])[len("await:"):] if w else ""


def streams(c):
    c.rule("streams", "each stream asked for is run with its own receiver and headers and its end is told there; what was sent to an earlier one is dropped; it goes on until shutdown or until nobody can ask")
    p = c.program("bd_hyper_network")
    met = set()
    for q in c.paths_of(p, H + "start", Config(opaque=["process_stream$", "make_tls_connector$"], budget=60000), is_async=True):
        run = [e for e in own(q) if repr(e).startswith("HyperNetwork::process_stream(")]
        if q.kind == "ret":
            over = re.fullmatch(r"await\(ComponentShutdown::cancelled\(.*\.shutdown\)(#\d+)?\)", last_wait(q)) is not None
            gone = known(q, rf"{GOT} is Some") is False
            ended = any(v is False and re.match(r"await\(HyperNetwork::process_stream\(", n(k)) and n(k).endswith(" is Some") for k, v in q.state.facts.items())
            c.ob("streams", over or gone or ended, q, f"ends after {[n(e)[:60] for e in own(q)][-3:]}, {[(n(k)[:60], v) for k, v in q.state.facts.items()]}")
        elif q.kind == "panic":
            c.ob("streams", False, q, "gives up")
        for i in iterations(q):
            ev = own(i)
            run = [e for e in ev if e.kind == "call" and repr(e).startswith("HyperNetwork::process_stream(")]
            sent = [e for e in ev if e.kind == "call" and re.match(r"Sender::(try_)?send\(", repr(e))]
            if not run:
                stale = known(i, rf"{GOT}\?Some\.0 is Start") is False or known(i, rf"{GOT}\?Some\.0 is Data") is True
                c.ob("streams", stale and not sent and known(i, rf"{GOT} is Some") is True, i, f"a request is passed over: {facts(i)}")
                met.add("stale")
                continue
            if not c.ob("streams", len(run) == 1, i, f"{len(run)} streams at once"):
                continue
            tx, hd = n(run[0].args[2]), n(run[0].args[3])
            new = re.fullmatch(rf"{GOT}\?Some\.0\?Start\.0", tx) and hd == tx[:-1] + "1"
            kept = re.fullmatch(r"phi:(\w+)\?Some\.0\.0", tx) and hd == tx[:-1] + "1"
            c.ob("streams", new or kept, i, f"a stream is run with {tx} and {hd}")
            met.add("new" if new else "kept")
            rest = n(run[0].args[4])
            c.ob("streams", rest == "None" or known(i, re.escape(rest) + " is Some") is False, i, f"while it runs {rest} is still to come")
            res = "await(" + n(run[0].res) + ")"
            c.ob("streams", known(i, re.escape(res) + " is Some") is True, i, "goes on though the stream's end is not known")
            c.ob("streams", len(sent) == 1 and n(sent[0].args[0]) == tx and n(sent[0].args[1]) == res + "?Some.0" and "await:await(" + n(sent[0].res) + ")" in [n(e) for e in ev], i, f"its end is told {[n(e)[:80] for e in sent]}")
    c.ob("streams", met == {"stale", "new", "kept"}, H + "start", f"met only {met}")
    for q in c.paths_of(p, H + "run_on_thread", Config(opaque=["HyperNetwork::new$", "HyperNetwork::start$"])):
        ev = [e for e in own(q) if e.kind == "call"]
        sp = [e for e in ev if re.match(r"thread::spawn\(|Builder::spawn\(", repr(e))]
        c.ob("streams", q.kind == "ret" and len(sp) == 1 and re.match(r"HyperNetwork::new\(\$1,\$2\)(#\d+)?\.1$", n(q.ret)) and re.search(r"HyperNetwork::new\(\$1,\$2\)(#\d+)?\.0", n(sp[0])), q, f"the thread: {[n(e) for e in ev]}")


def stream(c):
    c.rule("opened", "a stream that is refused is told as closed; none is used before it was accepted")
    c.rule("passed", "while it is open, what is sent goes out and what comes is handed on, each once and as it is; it is closed when either side is, or when another is asked for, which is then the next")
    p = c.program("bd_hyper_network")
    met = set()
    FRAME = r"await\(BodyExt::frame\(.*\)(?:#\d+)?\)"
    for q in c.paths_of(p, H + "process_stream", Config(opaque=["create_request$"], budget=90000), is_async=True):
        req = [e for e in own(q) if e.kind == "call" and repr(e).startswith("Client::request(")]
        cr = [e for e in own(q) if e.kind == "call" and repr(e).startswith("HyperNetwork::create_request(")]
        if not c.ob("opened", len(req) == len(cr) == 1 and re.fullmatch(rf"HyperNetwork::create_request\({S}\.uri, \$4\)", n(cr[0])) and n(req[0].args[0]) == "$2" and n(req[0].args[1]) == n(cr[0].res) + ".1", q, f"the request: {[n(e) for e in cr + req]}"):
            continue
        body, resp = n(cr[0].res) + ".0", "await(" + n(req[0].res) + ")"
        came = known(q, re.escape(resp) + " is Ok")
        st = known(q, r"200==Response::status\(.*\)(#\d+)?")
        grpc = r"HeaderMap::get\(Response::headers\(.*\)(?:#\d+)?,'grpc-status'\)(?:#\d+)?"
        has, zero = known(q, grpc + " is Some"), known(q, rf"'0'=={grpc}\?Some\.0|{grpc}\?Some\.0=='0'")
        good = came is True and st is True and (has is False or has is True and zero is True)
        closed = re.match(r"Some\(StreamClosed\(", n(q.ret)) is not None
        rounds = iterations(q)
        if q.kind == "panic":
            c.ob("passed", good and any(v is False and re.fullmatch(r"Frame::into_data\(.*\)(#\d+)? is Ok", n(k)) for k, v in q.state.facts.items()), q, "gives up")
            continue
        if q.kind != "ret":
            continue
        if not any(e.kind == "loop" for e in q.trace):
            bad = came is False or st is False or has is True and zero is False
            c.ob("opened", closed and bad, q, f"answers {n(q.ret)[:100]} on {facts(q)}")
            met.add("no answer" if came is False else "status" if st is False else "grpc")
            continue
        c.ob("opened", good, q, f"used though {facts(q)}")
        lw = last_wait(q)
        nxt = n(q.e.resolve(q.state, q.x.heap().get(next((k for k in q.x.heap() if show(k) == "$5"), None), mk("sym", "$5")))) if q.x.heap() else "$5"
        sends = [e for e in own(q) if e.kind == "call" and re.match(r"Sender::(try_)?send\(", repr(e))]
        got = re.match(rf"({GOT})", " ".join(w for w in [n(e)[len("await:"):] for e in own(q) if e.kind == "await"] if re.fullmatch(GOT, w)) or "-")
        if re.fullmatch(r"await\(ComponentShutdown::cancelled\(.*\)(#\d+)?\)", lw):
            c.ob("passed", n(q.ret) == "None" and nxt == "$5", q, f"at shutdown {n(q.ret)[:80]}")
            met.add("shutdown")
        elif got and known(q, rf"{GOT} is Some") is False:
            c.ob("passed", n(q.ret) == "None" and nxt == "$5", q, f"when nobody is left {n(q.ret)[:80]}")
            met.add("nobody")
        elif got and (known(q, rf"{GOT}\?Some\.0 is Start") is True or known(q, rf"{GOT}\?Some\.0 is Data") is False):
            m = re.fullmatch(r"Some\(\((.*)\?Start\.0,(.*)\?Start\.1\)\)", nxt)
            c.ob("passed", closed and not sends and m and m.group(1) == m.group(2) and re.fullmatch(rf"{GOT}\?Some\.0", m.group(1)), q, f"when another is asked for {n(q.ret)[:80]}, next {nxt[:120]}")
            met.add("another")
        elif got:
            c.ob("passed", closed and nxt == "$5" and len(sends) == 1 and known(q, rf"await\(Sender::send\({re.escape(body)},.*\)(#\d+)?\) is Ok") is False, q, f"while sending {n(q.ret)[:80]} {facts(q)}")
            met.add("cut")
        else:
            end = known(q, FRAME + " is Some") is False or known(q, FRAME + r"\?Some\.0 is Ok") is False or any(v is True and re.fullmatch(r"Frame::is_trailers\(.*\)(#\d+)?", n(k)) for k, v in q.state.facts.items())
            lost = known(q, r"await\(Sender::send\(\$3,.*\)(#\d+)?\) is Ok") is False
            c.ob("passed", closed and nxt == "$5" and (end and not sends or lost and len(sends) == 1), q, f"at its end {n(q.ret)[:80]} {facts(q)}")
            met.add("end" if end else "given up")
        for i in rounds:
            sent = [e for e in own(i) if e.kind == "call" and re.match(r"Sender::(try_)?send\(", repr(e))]
            if not c.ob("passed", len(sent) == 1 and "await:await(" + n(sent[0].res) + ")" in [n(e) for e in own(i)], i, f"sends {[n(e)[:100] for e in sent]}"):
                continue
            to, what = n(sent[0].args[0]), n(sent[0].args[1])
            ok = known(i, re.escape("await(" + n(sent[0].res) + ")") + " is Ok")
            if to == body:
                c.ob("passed", ok is True and re.fullmatch(rf"Ok\(Frame::data\({GOT}\?Some\.0\?Data\.0\)(#\d+)?\)", what), i, f"goes out as {what[:150]}, {ok}")
                met.add("out")
            else:
                c.ob("passed", to == "$3" and ok is True and re.fullmatch(rf"Data\(Frame::into_data\({FRAME}\?Some\.0\?Ok\.0\)(#\d+)?\?Ok\.0\)", what), i, f"handed on as {what[:150]} to {to}, {ok}")
                met.add("in")
    want = {"no answer", "status", "grpc", "shutdown", "nobody", "another", "cut", "end", "given up", "out", "in"}
    c.ob("passed", met == want, H + "process_stream", f"missing {want - met}")


def asked(c):
    c.rule("asked", "a stream is asked for with the headers given, and the request carries each of them to the service's address; what is sent to it is sent as it is")
    p = c.program("bd_hyper_network")
    for q in c.paths_of(p, H + "create_request", Config(opaque=[])):
        if q.kind != "ret":
            continue
        chans = [e for e in own(q) if e.kind == "call" and re.match(r"\w+::channel\(", repr(e))]
        lps = q.loops()
        if not c.ob("asked", len(chans) == 1 and len(lps) == 1 and lps[0].src is not None and n(lps[0].src) == "$2", q, f"{len(chans)} channels, loops over {[n(lp.src) if lp.src is not None else None for lp in lps]}"):
            continue
        ch, lp = n(chans[0].res), lps[0]
        var = [(n(k), [n(x) for x in b], [n(x) for x in a.values()]) for k, (b, a) in lp.vars.items() if re.search(r"uilder", n(k))]
        c.ob("asked", len(var) == 1 and len(lp.iters) == 1 and len(var[0][1]) == 1 and re.search(r"Builder::method\(.*POST", var[0][1][0]) and re.search(r"Builder::uri\(.*\$1\)|Builder::uri\(.*,\$1\)", var[0][1][0]) and len(var[0][2]) == 1 and re.fullmatch(rf"Builder::header\({re.escape(var[0][0])},item\(\$2\)\.0,item\(\$2\)\.1\)(#\d+)?", var[0][2][0]), q, f"the request: {var}")
        r = n(q.ret)
        c.ob("asked", r.startswith(f"({ch}.0,") and var and f"Builder::body({var[0][0]}," in r and f"{ch}.1" in r and r.endswith("?Ok.0)"), q, f"is {r[:200]}")
    for q in c.paths_of(p, H + "new", Config(opaque=[])):
        m = re.fullmatch(r"\(HyperNetwork\{shutdown:\$2,stream_event_rx:(.*)\.1,uri:cat\(\$1,'/bitdrift_public\.protobuf\.client\.v1\.ApiService/Mux'\)\},Handle\{stream_event_tx:(.*)\.0\}\)", n(q.ret))
        c.ob("asked", m and m.group(1) == m.group(2), q, f"begins as {n(q.ret)[:300]}")
    fs = [f for f in p.by_id.values() if re.fullmatch(r"bd_hyper_network::<Handle as bd_api::PlatformNetwork\w+(<T>)?>::(start_stream|send_data)", f.id)]
    if len(fs) != 2:
        raise Anchor(f"{len(fs)} ways to use the handle")
    for f in fs:
        for q in c.paths_of(p, f, Config(opaque=[]), is_async=True):
            ev = [e for e in own(q) if e.kind == "call" and re.match(r"Sender::", repr(e))]
            t = n(ev[0].args[1]) if len(ev) == 1 else ""
            want = r"Data\(\$2\)" if f.id.endswith("send_data") else r"Start\(\$2,(collect:HashMap\()?\[each \$4: \{ => one\(\(item\(\$4\)\.0,item\(\$4\)\.1\)\)\}\]\)?\)"
            c.ob("asked", q.kind in ("ret", "panic") and len(ev) == 1 and n(ev[0].args[0]) == "self.stream_event_tx" and repr(ev[0]).startswith("Sender::send(") and re.fullmatch(want, t) and "await:await(" + n(ev[0].res) + ")" in [n(e) for e in own(q)], q, f"sends {[n(e)[:200] for e in ev]}")
            if q.kind == "ret":
                c.ob("asked", n(q.ret).startswith("Ok(") and known(q, r"await\(Sender::send\(.*\) is Ok") is True, q, f"answers {n(q.ret)}")


def noop(c):
    c.rule("noop", "the network that connects to nothing gives a stream that takes everything and tells nothing")
    p = c.program("bd_noop_network")
    fs = [f for f in p.by_id.values() if re.fullmatch(r"bd_noop_network::<NoopNetwork as bd_api::PlatformNetwork\w+(<T>)?>::(start_stream|send_data)", f.id)]
    if len(fs) != 2:
        raise Anchor(f"{len(fs)} ways to use it")
    for f in fs:
        for q in c.paths_of(p, f, Config(opaque=[]), is_async=True):
            c.ob("noop", q.kind == "ret" and n(q.ret).startswith("Ok(") and not own(q), q, f"does {[n(e) for e in own(q)]}, {n(q.ret)}")


GROUPS = [streams, stream, asked, noop]
FLOORS = {"streams": 12, "opened": 10, "passed": 20, "asked": 6, "noop": 2}
