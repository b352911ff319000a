"""What is sent on the API stream is of its own kind and framed once; what comes in is read as its own kind."""
from rules import *
from c61 import m, asked, fn

A = "bd_api::"
API = A + "api::"
SS = API + "StreamState::"
REQ = {"StatsUploadRequest": "StatsUpload(self)", "LogUploadRequest": "LogUpload(self)", "PingRequest": "Ping(self)", "HandshakeRequest": "Handshake(self)", "LogUploadIntentRequest": "LogUploadIntent(self)",
       "SankeyIntentRequest": "SankeyIntent(self)", "SankeyPathUploadRequest": "SankeyPathUpload(self)", "OpaqueRequest": "OpaqueUpload(self)",
       "RuntimeConfigurationUpdate": "RuntimeUpdateAck(self.0)", "ClientConfigurationUpdate": "ConfigurationUpdateAck(self.0)"}
RESP = {"Handshake": "Handshake", "LogUpload": "LogUpload", "LogUploadIntent": "LogUploadIntent", "StatsUpload": "StatsUpload", "Pong": "Pong", "ErrorShutdown": "ErrorShutdown", "FlushBuffers": "FlushBuffers",
        "SankeyDiagramUpload": "SankeyPathUpload", "SankeyIntentResponse": "SankeyPathUploadIntent", "OpaqueUpload": "Opaque"}
OPQ = [r"bd_grpc_codec::", r"bd_runtime::", r"bd_log::"]


def runs(c, rule, f, *, opaque=OPQ, panics=False, **kw):
    p = c.program("bd_api")
    f = fn(p, f) if isinstance(f, str) else f
    out = []
    for q in c.paths_of(p, f, Config(opaque=opaque, budget=20000), **kw):
        if panics and q.kind == "panic":
            continue
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{f.id} ends with {q.kind} {q.why}"):
            out.append(q)
    return out


def plain(x):
    return x.replace(", ", ",")


def kinds(c):
    c.rule("own-kind", "each kind of request goes out as that kind and with all of what it holds; a request already made goes out as it is")
    p = c.program("bd_api")
    seen = set()
    for i in p.impls:
        if not i["trait"].endswith("IntoRequest"):
            continue
        t = i["self"].split("::")[-1]
        path = dict(i["items"])["into_request"]
        seen.add(t)
        for q in runs(c, "own-kind", p.by_id.get(path) or fn(p, path)):
            got = m(q.ret)
            if t == "ApiRequest":
                c.ob("own-kind", got == "self", q, f"a request goes out as {got}")
            else:
                c.ob("own-kind", t in REQ and re.fullmatch(r"ApiRequest\{request_type:Some\(" + re.escape(REQ.get(t, "?")) + r"\),special_fields:default\('[\w:]*'\)\.special_fields\}", got), q, f"a {t} goes out as {got}")
    c.ob("own-kind", seen == set(REQ) | {"ApiRequest"}, None, f"kinds of requests: {sorted(seen ^ (set(REQ) | {'ApiRequest'}))}")


def responses(c):
    c.rule("read-as", "a response is read as the kind it is and with all of what it holds; one of a kind not known here is passed on as such")
    p = c.program("bd_api")
    seen = set()
    R = "self.response_type"
    for q in runs(c, "read-as", fn(p, A + "payload_conversion::client::<impl MuxResponse for bd_proto::protos::client::api::ApiResponse>::demux")):
        some = asked(q, re.escape(R) + " is Some")
        k = [x for x in RESP if asked(q, re.escape(R) + rf"\?Some\.0 is {x}")]
        got = m(q.ret)
        if some is False:
            c.ob("read-as", got == "None", q, f"an empty response is {got}")
        elif k:
            seen.add(k[0])
            c.ob("read-as", len(k) == 1 and got == f"Some({RESP[k[0]]}({R}?Some.0?{k[0]}.0))", q, f"{k} is read as {got}")
        else:
            no = {x for x in RESP if asked(q, re.escape(R) + rf"\?Some\.0 is {x}") is False}
            left = set(RESP) - no
            if len(left) == 1 and got != "Some(Untyped)":
                k = left.pop()
                seen.add(k)
                c.ob("read-as", got == f"Some({RESP[k]}({R}?Some.0?{k}.0))", q, f"{k} is read as {got}")
            else:
                c.ob("read-as", got == "Some(Untyped)" and not left, q, f"what is none of {len(no)} kinds is read as {got}")
    c.ob("read-as", seen == set(RESP), None, f"kinds of responses: {sorted(set(RESP) - seen)} not read")
    for k in ("ConfigurationUpdate", "RuntimeUpdate"):
        yes = 0
        for q in runs(c, "read-as", fn(p, A + f"payload_conversion::client::<impl FromResponse<bd_proto::protos::client::api::ApiResponse> for bd_proto::protos::client::api::{k}>::from_response")):
            some, mine = asked(q, r"\$1\.response_type is Some"), asked(q, rf"\$1\.response_type\?Some\.0 is {k}")
            got = m(q.ret)
            yes += bool(mine)
            c.ob("read-as", (some is False or mine is not None) and got == (f"Some($1.response_type?Some.0?{k}.0)" if mine else "None"), q, f"there: {some}, a {k}: {mine}, gives {got}")
        c.ob("read-as", yes == 1, None, f"{k}: {yes}")


def wire(c):
    c.rule("framed-once", "what is sent is framed once with the stream's encoder and handed to the stream, whose answer is passed on; a ping is an empty ping")
    c.rule("decoded", "data coming in goes through the stream's decoder, and every message in it is passed on; a close is passed on with its reason, and a stream without a source is a shutdown")
    c.rule("counted-as", "what goes out is counted as sent and what comes in as received, each before and after compression under its own name")
    for name, what in (("send_request", "$2"), ("send_ping", r"default('bd_proto::protos::client::api::PingRequest')")):
        for q in runs(c, "framed-once", SS + name, is_async=True):
            es = [plain(m(e)) for e in q.events()]
            r = f"IntoRequest::into_request({what})"
            want = [r, f"Encoder::encode(self.request_encoder,{r})", f"PlatformNetworkStream::send_data(self.stream_handle,Encoder::encode(self.request_encoder,{r}))"]
            ok = es[:3] == want and len(es) == 4 and re.match(r"(await:)?await\(", es[3]) and (m(q.ret).startswith("await(PlatformNetworkStream::send_data(") or q.kind == "ret" and re.match(r"(Ok|Err)\(await\(Platform", m(q.ret)))
            c.ob("framed-once", ok, q, f"does {[x[:120] for x in es]}, and answers {m(q.ret)[:120]}")
    seen = set()
    for q in runs(c, "decoded", SS + "handle_upstream_event", is_async=True):
        some = asked(q, r"\$2 is Some")
        data, closed = asked(q, r"\$2\?Some\.0 is Data"), asked(q, r"\$2\?Some\.0 is StreamClosed")
        data = (not closed) if data is None and closed is not None else data
        D = "Decoder::decode_data(self.response_decoder,$2?Some.0?Data.0)"
        es = [plain(m(e)) for e in q.events() if not re.match(r"Vec::len|log::", repr(e))]
        got = plain(m(q.ret))
        if some is False:
            want, k = ([], "Ok(Shutdown)"), "gone"
        elif data is False:
            want, k = ([], "Ok(StreamClosed($2?Some.0?StreamClosed.0))"), "closed"
        else:
            fine = asked(q, re.escape(D) + " is Ok")
            want, k = ([D], f"Ok(UpstreamMessages({D}?Ok.0))" if fine else f"Err({D}?Err.0)"), f"data {fine}"
            if fine is False and got.startswith("Err("):
                want = ([D], got)
        seen.add(k)
        c.ob("decoded", some is not None and (es, got) == want, q, f"{k}: does {es}, gives {got}")
    c.ob("decoded", seen == {"gone", "closed", "data True", "data False"}, None, f"cases {seen}")
    for q in runs(c, "counted-as", SS + "new"):
        got = [plain(m(e)) for e in q.ev(r"^(Decoder|Encoder)::(initialize_stats|new)\(")]
        enc, dec = "Encoder::new($1)", "Decoder::new(Some(StatelessZlib),Cpu)"
        W = "CounterWrapper::make_dyn($5.%s)"
        want = {dec, enc, f"Decoder::initialize_stats({dec},{W % 'rx_bytes'},{W % 'rx_bytes_decompressed'})", f"Encoder::initialize_stats({enc},{W % 'tx_bytes'},{W % 'tx_bytes_uncompressed'})"}
        c.ob("counted-as", set(got) == want and len(got) == 4, q, f"does {got}")
        r = m(q.ret)
        fields = [r"request_encoder:after_initialize_stats", r"response_decoder:after_initialize_stats", r"stream_handle:\$2", r"stream_event_rx:\$3", r"time_provider:\$4", r"ping_interval:None", r"ping_deadline:None"]
        c.ob("counted-as", all(re.search(rf"[{{,]{x}[,}}]", r) for x in fields), q, f"a stream starts as {r[:300]}")
        raw = show(q.x.ret)
        c.ob("counted-as", re.search(r"request_encoder:upd_by\(Encoder::", raw) and re.search(r"response_decoder:upd_by\(Decoder::", raw), q, "the encoder and the decoder are not those of the stream")
    names = {"tx_bytes_uncompressed": "bandwidth_tx_uncompressed", "tx_bytes": "bandwidth_tx", "rx_bytes": "bandwidth_rx", "rx_bytes_decompressed": "bandwidth_rx_decompressed", "stream_total": "stream_total",
             "remote_connect_failure": "remote_connect_failure", "error_shutdown_total": "error_shutdown_total"}
    for q in runs(c, "counted-as", API + "Stats::new"):
        want = "Stats{" + ",".join(f"{k}:Scope::counter($1,'{v}')" for k, v in sorted(names.items())) + "}"
        c.ob("counted-as", plain(m(q.ret)) == want, q, f"counts {m(q.ret)}")


def runtime(c):
    c.rule("acknowledged", "a runtime update is applied once and then acknowledged, with the version now in use and no complaint; nothing else is taken for one")
    c.rule("introduced", "the handshake tells the device's data, why the last stream ended and, of every pipeline, what it has; the pipeline of runtime values tells its version")
    I = API + "<impl ConfigurationUpdate for bd_runtime::runtime::RuntimeManager>::"
    seen = set()
    for q in runs(c, "acknowledged", I + "try_apply_config", is_async=True):
        some, mine = asked(q, r"\$2\.response_type is Some"), asked(q, r"\$2\.response_type\?Some\.0 is RuntimeUpdate")
        es = [plain(m(e)) for e in q.events() if e.kind == "call" and not re.match("log::|Level", repr(e))]
        got = plain(m(q.ret))
        seen.add(mine)
        if not mine:
            c.ob("acknowledged", (some is False or mine is False) and es == [] and got == "None", q, f"there: {some}, an update: {mine}, does {es}, gives {got}")
            continue
        v = asked(q, r"RuntimeManager::version_nonce\(self\) is Some")
        want = ["RuntimeManager::process_update(self,$2.response_type?Some.0?RuntimeUpdate.0)", "RuntimeManager::version_nonce(self)"]
        nonce = r"RuntimeManager::version_nonce\(self\)\?Some\.0" if v else r"default\('[\w:]*'\)|String::new\(\)|''"
        ok = [x for x in es if x.startswith("RuntimeManager")] == want and re.search(r"RuntimeUpdateAck\(ConfigurationUpdateAck\{last_applied_version_nonce:(" + nonce + r"),nack:(None|MessageField\w*\(?None\)?|[^,]*None[^,]*),", got)
        ok = ok or [x for x in es if x.startswith("RuntimeManager")] == want and v is None and re.search(r"last_applied_version_nonce:(Option::unwrap_or_default\()?RuntimeManager::version_nonce\(self\)", got)
        c.ob("acknowledged", ok, q, f"does {es}, answers {got[:300]}")
    c.ob("acknowledged", True in seen, None, "no update is applied")
    for q in runs(c, "introduced", I + "partial_handshake"):
        v = asked(q, r"RuntimeManager::version_nonce\(self\) is Some")
        nonce = r"RuntimeManager::version_nonce\(self\)\?Some\.0" if v else r"default\('[\w:]*'\)(\.\w+)?|String::new\(\)|''"
        got = m(q.ret)
        others = [x for x in re.findall(r"[{,](\w+):", got) if x not in ("runtime_version_nonce",)]
        ok = re.search(rf"[{{,]runtime_version_nonce:({nonce})[,}}]", got) and all(re.search(rf"[{{,]{x}:default\('[\w:]*'\)\.{x}[,}}]", got) for x in others)
        c.ob("introduced", v is not None and ok, q, f"tells {got[:300]}")
    for name, call in (("on_handshake_complete", "RuntimeManager::server_is_available(self)"), ("try_load_persisted_config", "RuntimeManager::handle_cached_config(self)")):
        for q in runs(c, "introduced", I + name, is_async=name.startswith("try")):
            es = [m(e) for e in q.events()]
            c.ob("introduced", es == [call], q, f"does {es}")
    for q in runs(c, "introduced", API + "Api::handshake_request", panics=True):
        tops = [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]
        tops = [lp for lp in tops if lp.src is not None and m(lp.src) == "self.configuration_pipelines"]
        if not c.ob("introduced", len(tops) == 1 and q.whole(tops[0]), q, f"goes over {len(tops)} lists of pipelines"):
            continue
        lp = tops[0]
        it = "item(self.configuration_pipelines)"
        acc = [(k, v[0]) for k, v in lp.vars.items() if any("HandshakeRequest" in show(x) for x in v[0])]
        why = asked(q, r"\$3 is Some")
        start = [m(x) for _, v in acc for x in v]
        reason = r"\$3\?Some\.0" if why else r"default\('[\w:]*'\)(\.\w+)?|String::new\(\)|''"
        c.ob("introduced", len(acc) == 1 and why is not None and all(re.search(r"[{,]static_device_metadata:\$2[,}]", s) and re.search(rf"[{{,]previous_disconnect_reason:({reason})[,}}]", s) for s in start), q, f"starts with {[s[:300] for s in start]}")
        for tr, st in lp.iters:
            i = Iter(q, tr, st)
            es = [plain(m(e)) for e in i.events()]
            ph = f"ConfigurationUpdate::partial_handshake({it})"
            want = [ph, f"Message::write_to_bytes({ph})"]
            ok = es[:2] == want and len(es) == 3 and re.fullmatch(r"Message::merge_from_bytes\(phi:[^,]*," + re.escape(want[1]) + r"\?Ok\.0\)", es[2])
            c.ob("introduced", ok, i, f"a pipeline adds {es}")
        c.ob("introduced", len(acc) == 1 and show(q.x.ret) == show(acc[0][0]), q, f"sends {m(q.ret)}")


GROUPS = [kinds, responses, wire, runtime]
FLOORS = {"own-kind": 20, "read-as": 20, "framed-once": 2, "decoded": 5, "counted-as": 4, "acknowledged": 4, "introduced": 8}
