"""What is handed on between the parts arrives whole, and as it was."""
from rules import *
from c61 import asked, fn, m

API = "bd_api::api::StreamState::"
ME = r"(?:self|G|after_\w+|phi:\*self)"
QUIET = r"await:|lock:|unlock:|LOOP|drop:|done$|Argument::|Arguments::"


def did(q):
    """what a path calls, in order, not counting waiting and locking"""
    return [x for x in (m(e) for e in q.events()) if not re.match(QUIET, x)]


def named(q, *names):
    return [e for e in q.events() if any(re.match(n + r"\(", repr(e)) for n in names)]


def given(q):
    """The answer of a path: of a call that was awaited, or the one put together by asking whether it was Ok."""
    return m(q.x.ret)


def passes(c, rule, q, res, msg):
    """What comes of a path is what came of the one thing it did, whether handed on as it is or put together again."""
    r = given(q)
    if r == res:
        return c.ob(rule, True, q, msg)
    was = asked(q, re.escape(res) + " is Ok")
    return c.ob(rule, was is not None and r in ((f"Ok({res}?Ok.0)", "Ok(())") if was else (f"Err({res}?Err.0)", )) or was is False and r.startswith("Err("), q, f"{msg}: {r[:200]}")


def sends(c):
    c.rule("frame", "a request is encoded and exactly its frame is sent on the stream, once, and whether that failed is told")
    c.rule("upload", "an upload is remembered as awaiting its answer, by its own kind, and the very request remembered is sent; statistics are sent with the time of sending")
    c.rule("upstream", "data that arrives is decoded whole and all messages in it handed on; an end is handed on with its reason; that nobody is left is told apart from both")
    p = c.program("bd_api")
    f = fn(p, API + "send_request")
    for q in c.paths_of(p, f, Config(opaque=[r"IntoRequest"]), is_async=True):
        sd = named(q, r"PlatformNetworkStream::send_data")
        want = rf"PlatformNetworkStream::send_data\({ME}\.stream_handle, Encoder::encode\({ME}\.request_encoder,IntoRequest::into_request\(\$2\)\)\)"
        if c.ob("frame", q.kind == "ret" and len(sd) == 1 and re.fullmatch(want, m(sd[0])) is not None, q, f"sent is {[m(x)[:200] for x in sd]}"):
            passes(c, "frame", q, f"await({m(sd[0].res)})", "whether it was sent is not told")
    f = fn(p, API + "handle_data_upload")
    kinds = {}
    for q in c.paths_of(p, f, Config(opaque=[r"StateTracker::", r"StreamState::send_request$"]), is_async=True):
        kind = next((k[1] for k in (re.fullmatch(r"\$2 is (\w+)", show(t)) for t, v in q.state.facts.items() if v) if k), None)
        tr, sd = named(q, r"StateTracker::\w+"), named(q, r"StreamState::send_request")
        if not c.ob("upload", q.kind == "ret" and kind is not None and len(tr) == len(sd) == 1, q, f"a {kind} is remembered {len(tr)} times and sent {len(sd)} times"):
            continue
        kinds[kind] = tr[0].name.rsplit("::", 1)[-1]
        body = rf"\$2\?{kind}\.0"
        want = rf"{body}\{{payload:={body}\.payload\{{sent_at:=OffsetDateTimeExt::into_proto\(TimeProvider::now\({ME}\.time_provider\)\)\}}\}}" if kind == "StatsUploadRequest" else body
        c.ob("upload", re.fullmatch(want, m(tr[0].args[1])) is not None and re.match(ME + r"\.upload_state_tracker$", m(tr[0].args[0])) is not None, q, f"a {kind} is remembered as {m(tr[0].args[1])[:200]}")
        c.ob("upload", m(sd[0].args[1]) == m(tr[0].res), q, f"sent is {m(sd[0].args[1])[:200]}")
        passes(c, "upload", q, f"await({m(sd[0].res)})", "whether it was sent is not told")
    want = {k: "track_intent" if "Intent" in k else "track_upload" for k in kinds}
    c.ob("upload", len(kinds) >= 6 and kinds == want, f, f"kinds are remembered as {kinds}")
    f = fn(p, API + "handle_upstream_event")
    seen = set()
    for q in c.paths_of(p, f, Config(), is_async=True):
        some = asked(q, r"\$2 is Some")
        data = asked(q, r"\$2\?Some\.0 is Data")
        if data is None and some:
            data = {True: False, False: True}.get(asked(q, r"\$2\?Some\.0 is StreamClosed"))
        dec = named(q, r"Decoder::decode_data")
        r = given(q)
        if not c.ob("upstream", q.kind == "ret" and some is not None and (not some or data is not None), q, "what arrived is not looked at"):
            continue
        seen.add((some, data))
        if some and data:
            ok = len(dec) == 1 and re.fullmatch(rf"Decoder::decode_data\({ME}\.response_decoder, \$2\?Some\.0\?Data\.0\)", m(dec[0])) is not None
            if c.ob("upstream", ok, q, f"decoded is {[m(x)[:200] for x in dec]}"):
                was = asked(q, re.escape(m(dec[0].res)) + " is Ok")
                c.ob("upstream", was is not None and (r == f"Ok(UpstreamMessages({m(dec[0].res)}?Ok.0))" if was else r.startswith("Err(")), q, f"data is handed on as {r[:200]}")
        else:
            c.ob("upstream", r == ("Ok(StreamClosed($2?Some.0?StreamClosed.0))" if some else "Ok(Shutdown)") and not dec, q, f"an end is handed on as {r[:200]}")
    c.ob("upstream", len(seen) == 3, f, f"cases {seen}")


def files(c):
    c.rule("file", "a file holds the compressed bytes of the whole message, and reading gives back that message or an error, an error if it is empty")
    p = c.program("bd_client_common")
    f = fn(p, "bd_client_common::file::write_compressed_protobuf")
    ok = 0
    X = r"Message::write_to_bytes\(\$1\)\?Ok\.0"
    for q in c.paths_of(p, f, Config()):
        if q.kind != "ret":
            # only a message that cannot be encoded, or memory that cannot be read, gets here
            bad = [k for k in (rf"Message::write_to_bytes\(\$1\) is Ok", r"Read::read_to_end\(.*\) is Ok", r"Write::\w+\(.*\) is Ok", r"ZlibEncoder::finish\(.*\) is Ok") if asked(q, k) is False]
            c.ob("file", bool(bad), q, "writing may panic")
            continue
        ok += 1
        rd = named(q, r"Read::read_to_end")
        if rd:
            good = len(rd) == 1 and re.fullmatch(rf"ZlibEncoder::new\((Index::index\({X},RangeFull\)|{X}),Compression::\w+\(.*\)\)", m(rd[0].args[0])) is not None and m(rd[0].args[1]) == "[]" and given(q) == "after_read_to_end"
        else:
            wr, fi = named(q, r"Write::write_all", r"ZlibEncoder::write_all"), named(q, r"ZlibEncoder::finish")
            good = len(wr) == len(fi) == 1 and re.fullmatch(rf"Index::index\({X},RangeFull\)|{X}", m(wr[0].args[1])) is not None and re.match(r"ZlibEncoder::new\(\[\],", m(wr[0].args[0])) is not None and given(q) == f"{m(fi[0].res)}?Ok.0"
        c.ob("file", good, q, f"the file holds {[m(x)[:150] for x in rd]}, {given(q)[:100]}")
    c.ob("file", ok > 0, f, "nothing is written")
    f = fn(p, "bd_client_common::file::read_compressed_protobuf")
    seen = set()
    for q in c.paths_of(p, f, Config()):
        emp = asked(q, r"slice::is_empty\(\$1\)|0==len\(\$1\)|len\(\$1\)==0")
        r = given(q)
        seen.add(emp)
        if not c.ob("file", q.kind == "ret" and emp is not None, q, "an empty file is not noticed, or reading panics"):
            continue
        if emp:
            c.ob("file", r.startswith("Err("), q, f"of an empty file comes {r[:100]}")
            continue
        ps = named(q, r"Message::parse_from_reader", r"Message::parse_from_bytes")
        if not ps:
            rd = [e for e in named(q, r"Read::read_to_end") if asked(q, re.escape(m(e.res)) + " is Ok") is False]
            c.ob("file", bool(rd) and r.startswith("Err("), q, f"without parsing it comes {r[:100]}")
            continue
        src = m(ps[0].args[0])
        whole = src == "ZlibDecoder::new($1)" if ps[0].name.endswith("reader") else src == "after_read_to_end" and [(m(e.args[0]), asked(q, re.escape(m(e.res)) + " is Ok")) for e in named(q, r"Read::read_to_end")] == [("ZlibDecoder::new($1)", True)]
        was = asked(q, re.escape(m(ps[0].res)) + " is Ok")
        c.ob("file", len(ps) == 1 and whole and (r == m(ps[0].res) if was is None else r == f"Ok({m(ps[0].res)}?Ok.0)" if was else r.startswith("Err(")), q, f"read is {src[:100]}, given back {r[:100]}")
    c.ob("file", seen == {True, False}, f, f"cases {seen}")
    c.rule("task", "how a task of the library ended is looked at, under its own name")
    f = fn(p, "bd_client_common::spawn_error_handling_task")
    for q in c.paths_of(p, f, Config(opaque=[r"error::handle_unexpected\w*$"])):
        sp = named(q, r"(\w+::)?spawn")
        tasks = spawned(q, sp[0].args[0]) if len(sp) == 1 else []
        c.ob("task", q.kind == "ret" and bool(tasks), q, "no task is started")
        for t in tasks:
            h = named(t, r"error::handle_unexpected\w*")
            c.ob("task", t.kind == "ret" and len(h) == 1 and re.fullmatch(r"await\(\$1\)", m(h[0].args[0])) is not None and m(h[0].args[1]) == "$2", t, f"looked at is {[m(x)[:200] for x in h]}")


def record(c):
    c.rule("record", "what is written to a buffer in one go is reserved at its own length, copied whole and made readable; without room nothing is made readable, and either is told")
    p = c.program("bd_buffer")
    f = fn(p, "bd_buffer::buffer::RingBufferProducer::write")
    R = r"RingBufferProducer::reserve\(self,\(len\(\$2\) as u32\),true\)"
    seen = set()
    for q in c.paths_of(p, f, Config()):
        d = did(q)
        rs = named(q, r"RingBufferProducer::reserve")
        good = len(rs) == 1 and re.fullmatch(R, m(rs[0].res)) is not None
        was = asked(q, R + " is Ok")
        seen.add(was)
        if not c.ob("record", q.kind == "ret" and good and was is not None, q, f"reserved is {[m(x)[:100] for x in rs]}"):
            continue
        cp, cm = named(q, r"slice::copy_from_slice", r"slice::clone_from_slice"), named(q, r"RingBufferProducer::commit")
        if not was:
            c.ob("record", not cp and not cm and given(q).startswith("Err("), q, f"without room: {d}")
            continue
        ev = list(q.events())
        c.ob("record", len(cp) == len(cm) == 1 and ev.index(cp[0]) < ev.index(cm[0]) and re.fullmatch(R + r"\?Ok\.0", m(cp[0].args[0])) is not None and m(cp[0].args[1]) == "$2", q, f"copied is {[m(x)[:200] for x in cp]}")
        if cm:
            passes(c, "record", q, m(cm[0].res), "whether it was made readable is not told")
    c.ob("record", seen == {True, False}, f, f"cases {seen}")


# what a thin part does: the function, whether it is async, what it calls, what it results in
THIN = [
    ("bd_runtime", "bd_runtime::runtime::RuntimeManager::process_update", False, [r"ConfigLoader::"], [rf"ConfigLoader::update_snapshot\({ME}\.loader, \$2\)"], r"\(\)"),
    ("bd_runtime", "bd_runtime::runtime::RuntimeManager::server_is_available", False, [r"ConfigLoader::"], [rf"ConfigLoader::mark_safe\({ME}\.loader\)"], r"\(\)"),
    ("bd_runtime", "bd_runtime::runtime::RuntimeManager::handle_cached_config", False, [r"ConfigLoader::"], [rf"ConfigLoader::handle_cached_config\({ME}\.loader\)"], r"\(\)"),
    ("bd_runtime", "bd_runtime::runtime::RuntimeManager::version_nonce", False, [], [], r"lock\(self\.loader\.state\)\.snapshot\.nonce"),
    ("bd_runtime", "bd_runtime::runtime::ConfigLoader::snapshot", False, [], [], r"lock\(self\.state\)\.snapshot"),
    ("bd_runtime", "bd_runtime::runtime::RuntimeManager::new", False, [], [], r"RuntimeManager\{loader:\$1\}"),
    ("bd_api", API + "send_ping", True, [r"StreamState::send_request$"], [r"StreamState::send_request\(self, default\('bd_proto::protos::client::api::PingRequest'\)\)"], r"await\(StreamState::send_request\(self,.*\)\)"),
    ("bd_grpc", "bd_grpc::StreamingApi::<OutgoingType, IncomingType>::send", True, [r"StreamingApiSender::"], [rf"StreamingApiSender::send\({ME}\.sender, \$2\)"], rf"await\(StreamingApiSender::send\({ME}\.sender,\$2\)\)"),
    ("bd_grpc", "bd_grpc::StreamingApi::<OutgoingType, IncomingType>::send_raw", True, [r"StreamingApiSender::"], [rf"StreamingApiSender::send_raw\({ME}\.sender, \$2\)"], rf"await\(StreamingApiSender::send_raw\({ME}\.sender,\$2\)\)"),
    ("bd_logger", "bd_logger::<log_replay::LoggerReplay as log_replay::LogReplay>::replay_log", True, [r"ProcessingPipeline::process_log"], [r"ProcessingPipeline::process_log\(\$4, \$2, \$3\)"], r"await\(ProcessingPipeline::process_log\(\$4,\$2,\$3\)\)"),
    ("bd_logger", "bd_logger::async_log_buffer::AsyncLogBuffer::<R>::write_log_internal", True, [r"AsyncLogBuffer::<R>::write_log$"],
     [rf"AsyncLogBuffer::write_log\(self, Log\{{fields:\$3,log_level:3,log_type:LogType\(4\),matching_fields:\$4,message:\$2,occurred_at:\$6,session_id:\$5\}}, None\)"], r"await\(AsyncLogBuffer::write_log\(.*\)\)"),
    ("bd_logger", "bd_logger::builder::LoggerBuilder::new", False, [], [], r"LoggerBuilder\{component_shutdown_handle:None,internal_logger:false,mobile_features:false,params:\$1,stats_scope:None\}"),
    ("bd_logger", "bd_logger::builder::LoggerBuilder::with_shutdown_handle", False, [], [], r"self\{component_shutdown_handle:=Some\(\$2\)\}"),
    ("bd_logger", "bd_logger::builder::LoggerBuilder::with_mobile_features", False, [], [], r"self\{mobile_features:=\$2\}"),
    ("bd_logger", "bd_logger::builder::LoggerBuilder::with_stats_scope", False, [], [], r"self\{stats_scope:=Some\(\$2\)\}"),
    ("bd_logger", "bd_logger::builder::LoggerBuilder::with_internal_logger", False, [], [], r"self\{internal_logger:=\$2\}"),
]


def thin(c):
    c.rule("thin", "a part that only hands on does so once, to the part it stands for, with what it was given, and gives back its answer")
    for crate, name, is_async, opaque, calls, ret in THIN:
        p = c.program(crate)
        f = fn(p, name)
        for q in c.paths_of(p, f, Config(opaque=opaque), is_async=is_async):
            d = did(q)
            r = given(q)
            ok = q.kind == "ret" and len(d) == len(calls) and all(re.fullmatch(w, x) for w, x in zip(calls, d))
            c.ob("thin", ok, q, f"does {[x[:200] for x in d]}")
            res = next((m(e.res) for e in q.events() if e.kind == "await" and e.res is not None), None)
            was = asked(q, re.escape(res) + " is Ok") if res else None
            c.ob("thin", re.fullmatch(ret, r) is not None or was is not None and r in ((f"Ok({res}?Ok.0)", "Ok(())") if was else (f"Err({res}?Err.0)",)), q, f"gives {r[:200]}")


def pipeline(c):
    c.rule("round", "in a round of the pipeline the workflows run, or a flush they ask for is passed on whole with whoever waits for it, or a switch that changed is obeyed, and nothing else; a flush that cannot be passed on is counted by what kept it")
    p = c.program("bd_logger")
    f = fn(p, "bd_logger::log_replay::ProcessingPipeline::run")
    seen = set()
    RX = rf"{ME}\.buffers_to_flush_rx\?Some\.0"
    GOT = rf"await\(Receiver::recv\({RX}\)\)\?Some\.0"
    FL = {"workflows_enabled_flag", "filter_chain_enabled_flag"}
    for q in c.paths_of(p, f, Config(opaque=[r"WorkflowsEngine::", r"TriggerUpload::new$"]), is_async=True):
        if not c.ob("round", q.kind == "ret" or q.truth(r"self\.buffers_to_flush_rx is Some") is not False and q.kind != "panic", q, "a round may panic"):
            continue
        ran = [e for e in q.events() if re.match(r"await:await\(WorkflowsEngine::run\(", repr(e))]
        flush = [e for e in q.events() if re.match(r"await:await\(Receiver::recv\(", repr(e))]
        chg = [e for e in q.events() if re.match(r"await:await\(Watch::changed\(", repr(e))]
        sent = named(q, r"Sender::(try_)?send")
        read = named(q, r"Watch::read\w*")
        now = next((v for k, v in q.x.heap().items() if show(k) == "self"), None)
        now = now if now is None else q.e.resolve(q.state, now)

        def of(k):
            return f"self.{k}" if now is None else m(fld(now, k))
        keep = {k: of(k) in (f"self.{k}", f"G.{k}") for k in ("filter_chain_enabled",)}
        eng = of("workflows_engine")
        kept = not eng.startswith("None")
        if not c.ob("round", len(ran) + len(flush) + len(chg) == 1, q, f"in a round, {[m(x)[:100] for x in ran + flush + chg]} are finished"):
            continue
        if ran:
            seen.add("run")
            c.ob("round", not sent and kept and all(keep.values()), q, "running the workflows does something else")
        elif flush:
            seen.add("flush")
            mk_ = named(q, r"TriggerUpload::new")
            ids = rf"\[each {GOT}\.buffer_ids: \{{ => one\(to_string\(item\({GOT}\.buffer_ids\)\)\)\}}\]"
            ok = len(mk_) == len(sent) == 1 and re.fullmatch(ids, m(mk_[0].args[0])) is not None and re.fullmatch(GOT + r"\.response_tx", m(mk_[0].args[1])) is not None
            ok = ok and re.fullmatch(ME + r"\.trigger_upload_tx", m(sent[0].args[0])) is not None and m(sent[0].args[1]) == m(mk_[0].res)
            c.ob("round", ok and kept and all(keep.values()), q, f"a flush is passed on as {[m(x)[:300] for x in mk_ + sent]}")
            if sent:
                r = re.escape(m(sent[0].res))
                was = asked(q, r + " is Ok")
                inc = [m(e.args[0]).rsplit(".", 1)[-1] for e in named(q, r"Counter::inc")]
                full = asked(q, r + r"\?Err\.0 is Full")
                if full is None:
                    full = {True: False, False: True}.get(asked(q, r + r"\?Err\.0 is Closed"))
                c.ob("round", was is not None and inc == ([] if was else ["send_err_full"] if full else ["send_err_closed"]) and (was or full is not None), q, f"a flush passed on: {was}, full: {full}, counts {inc}")
        else:
            k = re.search(r"Watch::changed\(\w+\.(\w+)\)", m(chg[0]))[1]
            seen.add(k)
            ok = len(read) == 1 and re.fullmatch(rf"{ME}\.{k}", m(read[0].args[0])) is not None and read[0].name.endswith("read_mark_update") and not sent
            if not c.ob("round", ok and k in FL, q, f"{k} changed, read is {[m(x)[:100] for x in read]}"):
                continue
            if k == "filter_chain_enabled_flag":
                c.ob("round", of("filter_chain_enabled") == m(read[0].res) and kept, q, f"the switch of the filters is {of('filter_chain_enabled')[:100]}")
            else:
                on = asked(q, re.escape(m(read[0].res)))
                c.ob("round", on is not None and kept == on and all(keep.values()), q, f"workflows switched on: {on}, kept: {kept}")
    c.ob("round", seen == {"run", "flush"} | FL, f, f"cases {seen}")


def quality(c):
    c.rule("quality", "the quality of the network that is asked for is the one last told")
    p = c.program("bd_api")
    Q = "bd_api::<api::SimpleNetworkQualityProvider as bd_network_quality::NetworkQualityProvider>::"
    for q in c.paths_of(p, fn(p, Q + "get_network_quality"), Config()):
        c.ob("quality", q.kind == "ret" and given(q) == "lock(self.network_quality)", q, f"gives {given(q)[:100]}")
    for q in c.paths_of(p, fn(p, Q + "set_network_quality"), Config()):
        now = {re.sub(r"#\d+", "", show(k)): m(v) for k, v in q.x.heap().items()}
        c.ob("quality", q.kind == "ret" and now.get("lock(self.network_quality)") == "$2", q, f"becomes {now}")


GROUPS = [quality, pipeline, sends, files, record, thin]
FLOORS = {"quality": 2, "round": 10, "frame": 1, "upload": 13, "upstream": 6, "file": 5, "task": 2, "record": 3, "thin": 16}
