"""Every upload is tracked before it is sent and gets the answer the server gave for it."""
from rules import *
from apiloop import API, Tail, answer, deep, is_, rounds

ST = "bd_api::upload::StateTracker"
SS = "bd_api::api::StreamState"


def maps(p):
    return field(p, ST, r"HashMap<.*UploadResponse"), field(p, ST, r"HashMap<.*IntentResponse")


def settling(c):
    p = c.program("bd_api")
    up, intent = maps(p)
    c.rule("settled", "an answer reaches the one upload or intent asked under its id, which then awaits nothing more; an answer nobody asked for is an error")
    c.rule("tracked", "whoever asks is remembered under the id of the request, and what is sent is the request")
    for fn, m in (("track_intent", intent), ("track_upload", up)):
        for q in c.paths_of(p, f"{ST}::{fn}"):
            e = q.ev(r"^HashMap::")
            c.ob("tracked", q.kind == "ret" and q.ret == "$2.payload" and len(e) == 1 and repr(e[0]) == f"HashMap::insert(self.{m}, $2.uuid, $2.response_tx)", q, "the request is not remembered under its id, or not what is sent")
    for fn, m, what in (("resolve_pending_upload", up, r"UploadResponse\{success:0==len\(\$3\),uuid:\$2\}"), ("resolve_intent", intent, r"\$3")):
        for q in c.paths_of(p, f"{ST}::{fn}"):
            e, s = q.ev(r"^HashMap::(remove|remove_entry)\("), q.ev(r"^Sender::send\(")
            if not c.ob("settled", q.kind == "ret" and len(e) == 1 and show(e[0].args[0]) == f"self.{m}" and show(e[0].args[1]) == "$2", q, "who asked is not looked up under the id, or stays remembered"):
                continue
            known = q.decide(mk("is", e[0].res, "Some"))
            if known:
                c.ob("settled", len(s) == 1 and re.fullmatch(re.escape(show(e[0].res)) + r"\?Some\.0(\.1)?", show(s[0].args[0])) is not None and re.fullmatch(what, show(s[0].args[1])) is not None and q.ret == "Ok(())", q, "the answer does not reach who asked as the server gave it")
            else:
                c.ob("settled", known is False and not s and q.ret.startswith("Err("), q, "an answer nobody asked for is not an error")


def answering(c):
    p = c.program("bd_api")
    c.rule("answered", "each answer of the server is passed on under its own id with its own outcome: an upload succeeded exactly if no error is given, an intent without a decision is to be dropped")
    c.rule("other-answers", "a second handshake is an error, a pong sets the next ping, a request to flush asks for just the buffers named, anything else is offered to every configuration pipeline and their answers are sent")
    pipes = field(p, API, "ConfigurationUpdate")
    trig = field(p, API, r"Sender<TriggerUpload>")
    trk = field(p, SS, "StateTracker")
    qs = c.paths_of(p, f"{API}::handle_responses", Config(opaque=[r"::resolve_pending_upload$", r"::resolve_intent$", r"::send_request$", r"::maybe_schedule_ping$"]))
    seen = set()
    kinds = set()
    its = []
    for q in qs:
        c.ob("answered", q.kind == "ret", q, f"handling responses ends in {q.kind}")
        lps = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == "$2"]
        if q.ret == "Ok(())":
            c.ob("answered", len(lps) >= 1 and q.whole(lps[0]), q, "not every response is handled")
        for lp in lps[:1]:
            if id(lp) not in seen:
                seen.add(id(lp))
                its += [Iter(q, tr, st) for tr, st in lp.iters]
        if q.ret != "Ok(())":
            its.append(Tail(q, next((n for n, e in enumerate(q.trace) if e.kind == "loop" and q.e.loops[e.extra] in lps), -1) + 1))
    R = r"item\(\$2\)\.response_type"
    KINDS = {"Handshake": None, "LogUpload": ("resolve_pending_upload", "upload_uuid", "error"), "StatsUpload": ("resolve_pending_upload", "upload_uuid", "error"),
             "SankeyDiagramUpload": ("resolve_pending_upload", "upload_uuid", "error"), "OpaqueUpload": ("resolve_pending_upload", "uuid", "error?"),
             "LogUploadIntent": ("resolve_intent", "intent_uuid", None), "SankeyIntentResponse": ("resolve_intent", "intent_uuid", None),
             "Pong": None, "ErrorShutdown": None, "FlushBuffers": None}
    for i in its:
        k = next((x for x in KINDS if i.truth(R + rf"\?Some\.0 is {x}")), "Untyped")
        if k == "Untyped":
            known = i.truth(R + " is Some")
            if known is not False and not all(i.truth(R + rf"\?Some\.0 is {x}") is False for x in KINDS):
                continue  # a path that fails while an earlier response is handled
        kinds.add(k)
        evs = i.events()
        rs = [e for e in evs if re.match(r"StateTracker::resolve_", repr(e))]
        sends = [e for e in evs if re.match(r"Sender::send\(", repr(e))]
        off = [e for e in deep(i) if re.match(r"ConfigurationUpdate::", repr(e))]
        b = f"item($2).response_type?Some.0?{k}.0"
        failed = i.kind == "ret"
        if KINDS.get(k):
            fn, u, err = KINDS[k]
            if not c.ob("answered", len(rs) == 1 and rs[0].name == f"StateTracker::{fn}" and show(rs[0].args[0]).endswith("." + trk) and show(rs[0].args[1]) == f"{b}.{u}" and not sends and not off, i, f"a {k} answer is not passed on under its id"):
                continue
            okk = i.decide(mk("is", rs[0].res, "Ok"))
            c.ob("answered", okk is (not failed), i, f"a {k} answer nobody asked for goes unnoticed, or a good one ends the stream")
            v = show(rs[0].args[2])
            if fn == "resolve_intent":
                d = i.truth(re.escape(b) + r"\.decision is Some")
                imm = i.truth(re.escape(b) + r"\.decision\?Some\.0 is UploadImmediately")
                dec = "UploadImmediately" if d and imm else "Drop" if d is False or (d and imm is False) else "?"
                c.ob("answered", v == f"IntentResponse{{decision:{dec},uuid:{b}.{u}}}", i, f"the decision of a {k} answer is not the server's")
            elif err == "error?":
                has = i.truth(re.escape(b) + r"\.error is Some")
                c.ob("answered", v == f"{b}.error?Some.0" if has else has is False and (v == "''" or v.startswith("default(")), i, f"the outcome of a {k} answer is not the server's")
            else:
                c.ob("answered", v == f"{b}.error", i, f"the outcome of a {k} answer is not the server's")
            continue
        c.ob("answered", not rs, i, f"a {k} answers an upload")
        if k == "Handshake":
            c.ob("other-answers", failed and i.ret.startswith("Err("), i, "a second handshake is taken")
        elif k == "Pong":
            c.ob("other-answers", not failed and len([e for e in evs if repr(e).startswith("StreamState::maybe_schedule_ping(")]) == 1 and not sends, i, "a pong does not set the next ping")
        elif k == "ErrorShutdown":
            c.ob("other-answers", not failed and not sends and not off, i, "an error shutdown is acted on")
        elif k == "FlushBuffers":
            c.ob("other-answers", len(sends) == 1 and show(sends[0].args[0]).endswith("." + trig) and re.match(r"TriggerUpload\{buffer_ids:" + re.escape(b) + r"\.buffer_id_list,", show(sends[0].args[1])) is not None, i, "a request to flush does not ask for the buffers named")
        elif k == "Untyped":
            lps = [lp for lp in i.loops() if lp.src is not None and show(lp.src) == f"self.{pipes}"]
            if not c.ob("other-answers", bool(lps) and (failed or i.whole(lps[0])), i, "an update is not offered to every pipeline"):
                continue
            for tr, st in lps[0].iters:
                j = Iter(i.q, tr, st)
                a = j.ev(r"^await:await\(ConfigurationUpdate::try_apply_config\(.*, ?item\(\$2\)\)")
                s = [e for e in tr if repr(e).startswith("StreamState::send_request(")]
                A = [e for e in tr if repr(e).startswith("ConfigurationUpdate::try_apply_config(")]
                if not c.ob("other-answers", len(A) == 1 and show(A[0].args[1]) == "item($2)", j, "an update is not offered to every pipeline as it is"):
                    continue
                r = f"await({show(A[0].res)})"
                some = j.truth(re.escape(r) + " is Some")
                c.ob("other-answers", (len(s) == 1 and show(s[0].args[1]) == f"{r}?Some.0") if some else some is False and not s, j, "a pipeline's answer is not sent")
    for k in KINDS:
        c.ob("answered" if KINDS[k] else "other-answers", k in kinds, f"{API}::handle_responses", f"no path handles a {k} answer")


def sending(c):
    p = c.program("bd_api")
    up, intent = maps(p)
    trk = field(p, SS, "StateTracker")
    c.rule("tracked-first", "every upload is remembered before it is sent, uploads among uploads and intents among intents; stats are stamped with when they are sent")
    c.rule("served", "while a stream lasts, every upload asked for is sent on it and every batch of responses is handled")
    c.rule("fresh-stream", "a new stream awaits no answers from an old one")
    k = set()
    for q in c.paths_of(p, f"{SS}::handle_data_upload", Config(opaque=[r"::send_request$"])):
        v = next((show(f)[6:] for f, t in q.state.facts.items() if t and re.fullmatch(r"\$2 is \w+", show(f))), None)
        k.add(v)
        ins, s = q.ev(r"^HashMap::insert\("), q.ev(r"^StreamState::send_request\(")
        if not c.ob("tracked-first", len(ins) == 1 and len(s) == 1 and q.before(r"^HashMap::insert\(", r"^StreamState::send_request\(") and len(q.ev(r"^await:await\(StreamState::send_request\(")) == 1, q, "an upload is not remembered before it is sent"):
            continue
        m = intent if "Intent" in (v or "") else up
        want = f"$2?{v}.0.payload"
        sent = show(s[0].args[1])
        body = re.fullmatch(re.escape(want) + r"\{sent_at:=.*into_proto\(TimeProvider::now\(self\.time_provider\)(#\d+)?\).*\}", sent) if "Stats" in (v or "") else sent == want
        c.ob("tracked-first", [show(a) for a in ins[0].args] == [f"self.{trk}.{m}", f"$2?{v}.0.uuid", f"$2?{v}.0.response_tx"] and bool(body), q, "an upload is remembered wrongly, or something else is sent")
    a = p.adts["bd_api::DataUpload"]
    names = {x[0] for x in a["variants"]}
    c.ob("tracked-first", names <= k, f"{SS}::handle_data_upload", f"no path sends {sorted(names - k)}")
    for q in c.paths_of(p, f"{SS}::new"):
        c.ob("fresh-stream", q.kind == "ret" and re.search(rf"{trk}:StateTracker\{{(pending_\w+|\w+):HashMap::new\(\),\w+:HashMap::new\(\)\}}", q.ret) is not None, q, "a new stream does not start without anything to answer")
    p, qs, its, ends = rounds(c)
    loops, done = {}, 0
    for i in its + ends:
        for lp in i.loops():
            if any("Receiver::recv" in str(x.name) for tr, _ in lp.iters for x in tr):
                loops.setdefault(id(lp), (i, lp))
    for i, lp in loops.values():
        got = hand = 0
        for tr, st in lp.iters:
            j = Iter(i.q, tr, st)
            d = [e for e in tr if e.kind == "await" and re.match(r"await\(Receiver::recv\(.*\.data_upload_rx\)", show(e.args[0]) if e.args else "")]
            h = [e for e in tr if repr(e).startswith("StreamState::handle_data_upload(")]
            u = [e for e in tr if repr(e).startswith("StreamState::handle_upstream_event(")]
            s = [e for e in tr if repr(e).startswith("StreamState::send_ping(")]
            if u:
                r = f"await({show(u[0].res)})?Ok.0"
                hr = [e for e in tr if repr(e).startswith("Api::handle_responses(")]
                hand += 1
                c.ob("served", len(hr) == 1 and show(hr[0].args[1]) == f"{r}?UpstreamMessages.0" and re.fullmatch(r"await\(Receiver::recv\(.*stream_event_rx\)(#\d+)?\)", show(u[0].args[1])) is not None, j, "responses are not handled")
            elif h:
                got += 1
                c.ob("served", len(h) == 1 and re.fullmatch(r"await\(Receiver::recv\(.*\.data_upload_rx\)(#\d+)?\)\?Some\.0", show(h[0].args[1])) is not None and any(repr(e).startswith("await:await(StreamState::handle_data_upload(") for e in tr), j, "an upload asked for is not sent")
            else:
                c.ob("served", len(s) == 1, j, "an upload asked for is not sent")
        c.ob("served", got > 0 and hand > 0, i, "a stream does not serve uploads and responses")


def same_id(c):
    c.rule("same-id", "the id an upload or intent is remembered under is the one in the request sent")
    p = c.program("bd_api", "bd_logger", "bd_client_stats", "bd_workflows")
    new = [f for f in p.by_id.values() if f.kind != "std" and re.search(r"bd_api::upload::Tracked\b.*::new$", f.id)]
    c.ob("same-id", len(new) == 1, "bd_api::upload::Tracked::new", "no single way to make a tracked request")
    made = 0
    for g in p.users(new[0]) if new else ():
        if re.search(r"(^|::)(tests?|\w+_test)::", g.id):
            continue
        for q in c.paths_of(p, g, Config(opaque=[r"upload::Tracked\b.*::new$"])):
            for e in q.ev(r"^(\w+::)*Tracked(<.*>)?::new\("):
                made += 1
                u, x = e.args[0], q.e.resolve(q.state, e.args[1])
                c.ob("same-id", show(u) in {show(fld(x, n)) for n in ("upload_uuid", "intent_uuid", "uuid")}, q, f"{g.id} remembers a request under another id than the one it sends")
    c.ob("same-id", made >= 4, "bd_api::upload::Tracked::new", "fewer tracked requests than kinds")


GROUPS = [settling, answering, sending, same_id]
FLOORS = {"settled": 4, "tracked": 2, "answered": 20, "other-answers": 8, "tracked-first": 8, "served": 20, "fresh-stream": 1, "same-id": 5}
