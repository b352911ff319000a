"""gRPC servers: each request is read, handled and answered once, and each connection served until it is over."""
from rules import *
from c46 import n, facts
from c59 import own, known
from c61 import E, G, asked, fn, m, runs


def where(es, pat):
    return [k for k, e in enumerate(es) if re.match(pat, e)]


def server(c):
    c.rule("request read", "a request is read as its headers say, and is one message, valid where that is asked for, or an error of the caller's")
    c.rule("answered", "a unary request is handled once, with its own headers and message, and answered with the one response and status 0, or with the error, which is told to the error handler and counted")
    c.rule("streamed", "a streaming request is counted as started and as how it ended, once; the handler's end is sent as its status after everything it sent")
    P = r"Request::into_parts\(\$1\)"
    RAW = rf"await\((body::)?to_bytes\({P}\.1,18446744073709551615\)\)"
    CE = rf"HeaderMap::get\({P}\.0\.headers,'content-encoding'\)"
    for q in runs(c, "request read", G + "decode_request", Config(opaque=[r"::finalize_\w+$", r"validate$"], budget=60000), True):
        r = m(q.ret)
        whole = asked(q, RAW + " is Ok")
        if whole is False:
            c.ob("request read", re.fullmatch(rf"Err\(BodyStream\((Into::into\()?{RAW}\?Err\.0\)?\)\)", r), q, f"a body cut off gives {r[:200]}")
            continue
        there = asked(q, CE + " is Some")
        snappy = asked(q, rf"'snappy'==HeaderValue::as_bytes\({CE}\?Some\.0\)|'snappy'=={CE}\?Some\.0|{CE}\?Some\.0=='snappy'") if there else there
        body = RAW + r"\?Ok\.0"
        U = rf"Decoder::decompress_vec\(Decoder::new\(\),{body}\)"
        if snappy:
            un = asked(q, U + " is Ok")
            if un is False:
                c.ob("request read", re.fullmatch(rf"Err\((Snap\()?{U}\?Err\.0\)?\)", r), q, f"a body that cannot be unpacked gives {r[:200]}")
                continue
            body = U + r"\?Ok\.0"
        D = rf"Decoder::decode_data\(Decoder::new\((bd_grpc::)?finalize_decompression\({P}\.0\.headers\),Cpu\),{body}\)"
        read, one = asked(q, D + " is Ok"), asked(q, rf"1==len\({D}\?Ok\.0\)|len\({D}\?Ok\.0\)==1")
        if not c.ob("request read", whole and snappy is not None and read is not None, q, f"snappy: {snappy}; asked {facts(q)}"[-500:]):
            continue
        if read is False:
            c.ob("request read", re.fullmatch(rf"Err\((Codec\()?{D}\?Err\.0\)?\)", r), q, f"a body that cannot be read gives {r[:200]}")
            continue
        if one is False:
            c.ob("request read", r == "Err(Grpc(Status{code:InvalidArgument,message:Some('Invalid request body')}))", q, f"another number of messages gives {r[:200]}")
            continue
        M = rf"(item|Index::index|Vec::(?:swap_)?remove)?\(?{D}\?Ok\.0(,0)?\)?"
        check = asked(q, r"\$2")
        V = rf"\w+::validate\({M}\)"
        good = asked(q, V + " is Ok") if check else None
        if check and good is False:
            c.ob("request read", re.match(r"Err\(Grpc\(Status\{code:InvalidArgument,message:Some\(", r), q, f"a message that is not valid gives {r[:200]}")
            continue
        c.ob("request read", one and check is not None and (good is True if check else not q.ev(r"^\w+::validate\(")) and re.fullmatch(rf"Ok\(\({P}\.0\.headers,{P}\.0\.extensions,{M}\)\)", r), q, f"checked: {check}, valid: {good}, gives {r[:300]}")
    DR = r"(bd_grpc::)?decode_request\(%s\)"
    OPQ = [r"::finalize_\w+$", r"::decode_request$", r"::new_grpc_response$", r"::send_error$", r"::send_ok_trailers$", r"warn_every_message$", r"StreamingApiSender::<.*>::(new|initialize_stats)$"]
    for q in runs(c, "answered", G + "unary_handler", Config(opaque=OPQ), True):
        R = rf"await\({DR % r'[$]1,[$]3'}\)"
        mm = lambda x: re.sub(R, "REQ", re.sub(R, "REQ", m(x)))
        es = [mm(e).replace(", ", ",") for e in own(q) if e.kind in ("call", "await")]
        f = {mm(k): v for k, v in q.state.facts.items()}
        r = mm(q.ret)
        H = "Handler::handle($2,REQ?Ok.0.0,REQ?Ok.0.1,REQ?Ok.0.2)"
        h = where(es, r"Handler::handle\(")
        if f.get("REQ is Ok") is False:
            c.ob("answered", not h and r == "Err(REQ?Err.0)", q, f"a request that cannot be read gives {r}")
            continue
        if not c.ob("answered", f.get("REQ is Ok") and len(h) == 1 and es[h[0]] == H, q, f"handles {[es[k] for k in h]}"):
            continue
        ok = f.get(f"await({H}) is Ok")
        if ok is False:
            c.ob("answered", r == f"Err(await({H})?Err.0)", q, f"a failure gives {r}")
            continue
        CO = r"(bd_grpc::)?finalize_response_compression\(Some\(StatelessZlib\{level:\d+\}\),REQ\?Ok\.0\.0\)"
        ch = r"mpsc::channel\((\d+)\)"
        tx = [e for e in own(q) if re.match(r"Sender::(try_)?send\(", repr(e))]
        want = [rf"Sender::send\({ch}\.0, Ok\(Frame::data\(Encoder::encode\(Encoder::new\({CO}\),{E(f'await({H})')}\?Ok\.0\)\)\)\)", rf"Sender::send\({ch}\.0, Ok\(Frame::trailers\(after_insert\)\)\)"]
        cap = re.match(r"Sender::send\(mpsc::channel\((\d+)\)", m(tx[0])) if tx else None
        c.ob("answered", ok and len(tx) == 2 and all(re.fullmatch(w, mm(e)) for w, e in zip(want, tx)) and cap and int(cap.group(1)) >= 2, q, f"sends {[mm(e)[:200] for e in tx]}")
        ins = [mm(e) for e in own(q) if re.match(r"HeaderMap::insert\(", repr(e))]
        c.ob("answered", len(ins) == 1 and re.fullmatch(r"HeaderMap::insert\(HeaderMap::(new|default)\(\), 'grpc-status', HeaderValue::\w+\('0'\)(\?Ok\.0)?\)", ins[0]), q, f"the trailers are {ins}")
        c.ob("answered", re.fullmatch(rf"Ok\((bd_grpc::)?new_grpc_response\(Body::new\(StreamBody::new\(ReceiverStream::new\({ch}\.1\)\)\),{CO}\)\)", r), q, f"gives {r}")
    c1 = r"GenericCounter::inc\(\$4\.stream_(\w+)_total\)"
    for q in runs(c, "streamed", G + "server_streaming_handler", Config(opaque=OPQ), True):
        R = rf"await\({DR % r'[$]2,[$]5'}\)"
        mm = lambda x: re.sub(R, "REQ", re.sub(R, "REQ", m(x)))
        es = [mm(e).replace(", ", ",") for e in own(q) if e.kind in ("call", "await")]
        ok = asked(q, R + " is Ok")
        sp = [e for e in own(q) if re.match(r"(tokio::|task::)?spawn\(", repr(e))]
        counted = [re.match(c1, x).group(1) for x in es if re.match(c1, x)]
        if ok is False:
            c.ob("streamed", not sp and sorted(counted) == ["completion_failures", "initiations"] and mm(q.ret) == "Err(REQ?Err.0)", q, f"a request that cannot be read counts {counted}, gives {mm(q.ret)}")
            continue
        CO = r"(bd_grpc::)?finalize_response_compression\(\$7,REQ\?Ok\.0\.0\)"
        ch = r"mpsc::channel\(\d+\)"
        c.ob("streamed", ok and counted == ["initiations"] and len(sp) == 1 and re.fullmatch(rf"Ok\((bd_grpc::)?new_grpc_response\(Body::new\(StreamBody::new\(ReceiverStream::new\({ch}\.1\)\)\),{CO}\)\)", mm(q.ret)), q, f"starts {len(sp)} tasks, counts {counted}, gives {mm(q.ret)}")
        SND = rf"StreamingApiSender::new\({ch}\.0,{CO}\)"
        ends = set()
        for t in spawned(q, sp[0].args[0]) if sp else []:
            es = [mm(e).replace(", ", ",") for e in t.trace if e.kind in ("call", "await") and not re.match(r"Level|PartialOrd|__|log::|Argument", repr(e))]
            ini, st, end = (where(es, x) for x in (rf"StreamingApiSender::initialize_stats\({SND},\$4\.tx_messages_total,\$4\.tx_bytes_total,\$4\.tx_bytes_uncompressed_total\)$", r"ServerStreamingHandler::stream\(\$1,REQ\?Ok\.0\.0,REQ\?Ok\.0\.1,REQ\?Ok\.0\.2,after_initialize_stats\)$", r"StreamingApiSender::send_(error|ok_trailers)\("))
            if not c.ob("streamed", t.kind == "ret" and len(ini) == len(st) == len(end) == 1 and ini < st < end and f"await:await({es[end[0]]})" in es, t, f"a task does {[x[:80] for x in es]}"):
                continue
            S = rf"await\({E(es[st[0]])}\)"
            f = {mm(k): v for k, v in t.state.facts.items()}
            fine = next((v for k, v in f.items() if re.fullmatch(S + " is Ok", k)), None)
            ends.add(fine)
            counted = [re.match(c1, x).group(1) for x in es if re.match(c1, x)]
            told = [x for x in es if x.startswith("call:$3(")]
            if fine:
                c.ob("streamed", counted == ["completion_successes"] and not told and es[end[0]].startswith("StreamingApiSender::send_ok_trailers("), t, f"a good end counts {counted}, sends {es[end[0]][:80]}")
            else:
                grpc = next((v for k, v in f.items() if re.fullmatch(S + r"\?Err\.0 is Grpc", k)), None)
                x = rf"{S}\?Err\.0\?Grpc\.0" if grpc else rf"Status\{{code:Internal,message:Some\((to_string|fmt::format|format|cat)\({S}\?Err\.0\)\)\}}"
                c.ob("streamed", fine is False and grpc is not None and counted == ["completion_failures"] and len(told) == 1 and re.fullmatch(rf"call:\$3\({S}\?Err\.0\)", told[0]) and re.fullmatch(rf"StreamingApiSender::send_error\(after_stream,{x}\)", es[end[0]]), t, f"a failure counts {counted}, tells {[y[-60:] for y in told]}, sends {es[end[0]][:60]}…{es[end[0]][-100:]}")
        c.ob("streamed", ends >= {True, False}, q, f"ends: {ends}")
    p = c.program("bd_grpc")
    for rule, name, inner in (("answered", "make_unary_router", "unary_handler"), ("streamed", "make_server_streaming_router", "server_streaming_handler")):
        cfg = Config(opaque=[rf"::{inner}$", r"warn_every_message$"])
        for q in runs(c, rule, G + name, cfg):
            post = [e for e in own(q) if re.match(r"(\w+::)*post\(", repr(e))]
            rt = [e for e in own(q) if re.match(r"Router::route\(", repr(e))]
            cf = closure_fn(q, post[0].args[0]) if len(post) == 1 else None
            if not c.ob(rule, cf is not None and len(rt) == 1 and m(rt[0].args[1]) == "$1.full_path" and m(rt[0].args[2]) == m(post[0].res), q, f"{name} routes {[m(e)[:100] for e in rt]}"):
                continue
            v = q.e.closure_of(q.state, post[0].args[0])
            env = re.sub(r"#\d+", "", show(v))
            want = {"handler": "$2", "error_handler": "$3", "validate_request": "$5", **({"error_counter": "$4"} if inner == "unary_handler" else {"stream_stats": "$4", "compression": "$6"})}
            c.ob(rule, all(re.search(rf"\b{k}={E(x)}(?![\w.])", env) for k, x in want.items()), q, f"{name} hands on {env}")
            for q2 in c.paths_of(p, cf, cfg):
                for t in spawned(q2, q2.rett):
                    es = [m(e).replace(", ", ",") for e in t.trace if e.kind in ("call", "await")]
                    if inner == "unary_handler":
                        call = "bd_grpc::unary_handler($2,$1.handler,$1.validate_request)"
                    else:
                        call = "bd_grpc::server_streaming_handler($1.handler,$2,$1.error_handler,$1.stream_stats,$1.validate_request,$1.warn_tracker,$1.compression)"
                    k = where(es, r"(bd_grpc::)?" + inner + r"\(")
                    if not c.ob(rule, t.kind == "ret" and [es[x] for x in k] == [call] and f"await:await({call})" in es and m(t.ret) == f"await({call})", t, f"a request gets {[es[x] for x in k]}, gives {m(t.ret)}"):
                        continue
                    if inner == "unary_handler":
                        ok = asked(t, rf"await\({E(call)}\) is Ok")
                        told = [x for x in es if re.match(r"call:\$1\.error_handler\(|\w*Counter::inc", x)]
                        c.ob(rule, ok is not None and sorted(told) == ([] if ok else ["GenericCounter::inc($1.error_counter)", f"call:$1.error_handler(await({call})?Err.0)"]), t, f"fine: {ok} tells {told}")


def listener(c):
    c.rule("accepted", "every connection is counted and served by a task of its own until it is over, and is active until then; only a failing listener or the shutdown ends it")
    c.rule("drained", "at the shutdown every connection is told to finish, once, and none is left when it returns")
    p = c.program("bd_grpc")
    f = G + "axum_helper::serve_with_connect_info"
    SH = r"ComponentShutdownTrigger::(default|new)\(\)|default\('bd_shutdown::ComponentShutdownTrigger'\)"
    for q in runs(c, "accepted", f, Config(opaque=[r"serve_with_connect_info_ex$"]), True):
        c.ob("accepted", re.search(r"serve_with_connect_info_ex\(\$1,\$2,\$3,\$4,\$5,", m(q.ret)), q, f"gives {m(q.ret)}")
    for q in runs(c, "accepted", f + "_ex", Config(opaque=[r"AutoGauge"]), True):
        lps = q.loops()
        if not c.ob("accepted", len(lps) == 1 and lps[0].iters, q, "does not go round"):
            continue
        r = m(q.ret)
        es = [m(e) for e in own(q) if e.kind in ("call", "await")]
        bad = asked(q, r"await\(TcpListener::accept\(\$2\)\) is Ok")
        if bad is False:
            c.ob("accepted", re.match(r"Err\(.*await\(TcpListener::accept\(\$2\)\)\?Err\.0", r), q, f"a failing listener gives {r}")
        else:
            done = where(es, rf"await:await\(ComponentShutdownTrigger::shutdown\(({SH})\)\)")
            stop = where(es, r"await:await\(\$5\)")
            c.ob("drained", r in ("Ok(())", "Ok(unit)") and len(done) == len(stop) == 1 and stop < done, q, f"ends with {r} after {[e[:80] for e in es]}")
        for tr, st in lps[0].iters:
            i = Iter(q, tr, st)
            es = [m(e) for e in own(i) if e.kind in ("call", "await")]
            ACC = r"await\(TcpListener::accept\(\$2\)\)\?Ok\.0"
            sp = [e for e in own(i) if re.match(r"(tokio::|task::)?spawn\(", repr(e))]
            tot = [e for e in es if re.match(r"\w*Counter::inc\(\$3\)", e)]
            gauge = [e for e in es if re.match(r"AutoGauge::new\(\$4\)", e)]
            if not c.ob("accepted", len(sp) == len(tot) == len(gauge) == 1 and re.search(r"=AutoGauge::new\(\$4\)", m(sp[0].args[0])) and re.search(rf"={ACC}\.0[,)]", m(sp[0].args[0])), i, f"a connection: {[e[:100] for e in es]}"):
                continue
            before = set(q.e.loops)
            MS = rf"ComponentShutdownTrigger::make_shutdown\(({SH})\)"
            for t in spawned(i, sp[0].args[0]):
                ts = [m(e) for e in t.trace if e.kind in ("call", "await")]
                sv = where(ts, rf"Builder::serve_connection(_with_upgrades)?\(call:\$6\(\), TokioIo::new\({ACC}\.0\)")
                can = where(ts, rf"ComponentShutdown::cancelled\({MS}\)")
                over = where(ts, r"await:await\((phi:)?cx\)|await:await\(Builder::serve_connection")
                c.ob("accepted", t.kind == "ret" and len(sv) == len(over) == 1 and sv < over, t, f"a connection's task: {[x[:80] for x in ts]}")
                c.ob("drained", len(can) == 1, t, "a connection is not told of the shutdown")
            told = False
            for l in set(q.e.loops) - before:
                if l in before:
                    continue
                for tr2, st2 in q.e.loops[l].iters:
                    xs = [m(e) for e in tr2 if e.kind in ("call", "await")]
                    if any(x.startswith("ServiceExt::oneshot(") for x in xs):
                        continue
                    w = [x for x in xs if re.match(rf"await:await\((FutureExt::fuse\()?ComponentShutdown::cancelled\({MS}\)\)?\)", x)]
                    g = [x for x in xs if re.match(r"\w+::graceful_shutdown\(", x)]
                    c.ob("drained", len(w) == len(g) == 1 and "fuse(" in w[0], i, f"a connection goes on after {[x[:100] for x in xs]}")
                    told = True
            c.ob("drained", told, i, "a connection is never told to finish")


GROUPS = [server, listener]
FLOORS = {"request read": 12, "answered": 10, "streamed": 8, "accepted": 6, "drained": 4}
