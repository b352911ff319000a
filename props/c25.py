"""What is stored or streamed of a log: its own values, and only its captured fields."""
from rules import *

CR = ("bd_client_common", "bd_log_primitives", "bd_logger", "bd_log_matcher", "bd_buffer")
MK = "bd_client_common::fb::make_log"


def encode(c):
    p = c.program("bd_client_common", "bd_log_primitives")
    c.rule("encoded", "the encoded log has the level, type, session id, timestamp and message it was given")
    c.rule("all-fields", "it has one entry per given field, in order, with that field's key and value")
    c.rule("output", "the encoding of exactly this log is output once, and the output's result is the caller's")
    c.rule("clean-builder", "whatever the output did, the builder is emptied before the next log")
    b = lambda q, pat: [e for e in q.events(False) if re.search(pat, repr(e))]
    for q in c.paths_of(p, MK):
        lg = q.ev(r"^Log::create\(\$1, ")
        if not c.ob("encoded", q.kind == "ret" and len(lg) == 1, q, "not exactly one log is built"):
            continue
        a = lg[0].args[1]
        at = lambda n: show(q.e.resolve(q.state, fld(a, n)))
        strs = {show(e.res): show(e.args[1]) for e in q.ev(r"^FlatBufferBuilder::create_string\(\$1, ")}
        ts = [e for e in q.ev(r"^Timestamp::create\(\$1, ") if at("timestamp") == f"Some({show(e.res)})"]
        good = at("log_level") == "$2" and at("log_type") == "$3"
        good = good and any(at("session_id") == f"Some({r})" and v == "$6" for r, v in strs.items()) and len(ts) == 1
        if good:
            sec, ns = show(fld(ts[0].args[1], "seconds")), show(fld(ts[0].args[1], "nanos"))
            good = sec == "OffsetDateTime::unix_timestamp($7)" and ns in (
                "(Sub(OffsetDateTime::unix_timestamp_nanos($7),Mul(OffsetDateTime::unix_timestamp($7),1000000000)) as i32)",
                "(OffsetDateTime::nanosecond($7) as i32)", "(Rem(OffsetDateTime::unix_timestamp_nanos($7),1000000000) as i32)")
        c.ob("encoded", good, q, "level, type, session or timestamp are not the given ones")
        text = q.decide(mk("is", sym("$4"), "String"))
        c.ob("encoded", union(q.events(False), "$4", text, at("message"), at("message_type")), q, "the message is not the given one")
        # fields
        its = iterations(q, r"^for$|^(for_)?each|map|collect")
        fits = [i for i in its if i.ev(r"^Field::create\(")]
        vec = q.ev(r"^FlatBufferBuilder::create_vector(_from_iter)?\(\$1, .*\[each \$5: ")
        c.ob("all-fields", len(fits) >= 2 and len(vec) == 1 and at("fields") == f"Some({show(vec[0].res)})", q, "the fields are not all listed")
        for lp in [x for x in q.loops() if x.src is not None and show(x.src) == "$5"]:
            c.ob("all-fields", q.whole(lp) and all(any(e.name == "Field::create" or repr(e).startswith("Field::create(") for e in tr) for tr, _ in lp.iters), q, "a field is passed over")
        ress = set()
        for i in fits:
            f = i.ev(r"^Field::create\(\$1, ")
            keys = {show(e.res) for e in q.ev(r"^FlatBufferBuilder::create_string\(") if show(e.args[1]) == "item($5).key"}
            fa = lambda n: show(q.e.resolve(i.state, fld(f[0].args[1], n)))
            v = "item($5).value"
            t = i.truth(re.escape(v) + " is String")
            c.ob("all-fields", len(f) == 1 and any(fa("key") == f"Some({k})" for k in keys) and union(q.events(), v, t, fa("value"), fa("value_type")), q,
                 "a field's key or value is not its own")
            ress |= {show(e.res) for e in f}
        if vec:
            listed = set(re.findall(r"one\((Field::create\(.*?\)#\d+)\)", show(vec[0].args[1])))
            c.ob("all-fields", ("{ => " in show(vec[0].args[1]) or show(vec[0].args[1]).count("=> one(") == len(fits)) and "none" not in show(vec[0].args[1]), q, "a field is left out")
        fin = q.ev(r"^FlatBufferBuilder::finish(_minimal|_size_prefixed)?\(\$1, ")
        data = q.ev(r"^FlatBufferBuilder::finished_data\(\$1\)")
        out = q.ev(r"^call:\$10\(")
        c.ob("output", len(fin) == 1 and fin[0].args[1] is lg[0].res and len(data) == 1 and len(out) == 1 and out[0].args[-1] is data[0].res
             and q.before(r"^FlatBufferBuilder::finish_minimal", r"^FlatBufferBuilder::finished_data") and q.rett is out[0].res, q,
             "not this log's encoding is output, or the output's result is lost")
        rs = q.idx(r"^FlatBufferBuilder::reset\(\$1\)")
        c.ob("clean-builder", bool(rs) and max(rs) > max(q.idx(r"^call:\$10\(") + q.idx(r"^FlatBufferBuilder::(create|finish)|^\w+::create\(")), q, "the builder keeps this log")


def union(evs, v, text, val, kind):
    """Whether val/kind are the flatbuffer union of v on a path where v is (not) a string."""
    if text is None:
        return False
    want = f"{v}?{'String' if text else 'Bytes'}.0"
    for s in evs:
        if not re.match(r"FlatBufferBuilder::create_(string|vector)\(", repr(s)) or show(s.args[1]) != want:
            continue
        for d in evs:
            if re.match(r"(String|Binary)Data::create\(", repr(d)) and f"Some({show(s.res)})" == show(fld(d.args[1], "data")):
                for u in evs:
                    if re.match(r"WIPOffset::as_union_value\(", repr(u)) and u.args[0] is d.res and val == f"Some({show(u.res)})":
                        isstr = repr(s).startswith("FlatBufferBuilder::create_string") and repr(d).startswith("StringData")
                        isbin = repr(s).startswith("FlatBufferBuilder::create_vector") and repr(d).startswith("BinaryData")
                        return (isstr and kind == "Data(1)") if text else (isbin and kind == "Data(2)")
    return False


def callers(c):
    p = c.program(*CR)
    c.rule("own-values", "every log stored or streamed is made from one log's message, captured fields, session and time")
    c.rule("level-kept", "it keeps that log's level and type, unless it is the SDK's own marker of a flush")
    mkf = c.fn(p, MK)
    us = sorted((g for g in p.users(mkf) if g.d != mkf.d and "_test" not in g.span[0] and "/benches/" not in g.span[0]), key=lambda g: g.id)
    n = 0
    for g in us:
        for q in c.paths_of(p, g, Config(opaque=[r"fb::make_log$", r"::Tree::do_match$"])):
            for e in q.ev(r"^fb::make_log\("):
                n += 1
                a = [show(x) for x in e.args]
                m = re.fullmatch(r"(.*)\.message", a[3])
                o = m.group(1) if m else "?"
                c.ob("own-values", a[3:7] == [f"{o}.message", f"{o}.fields.captured_fields", f"{o}.session_id", f"{o}.occurred_at"], q,
                     "made from something else than one log's own values")
                mark = re.search(r"InternalSDK|LogType\(4\)|^4$", a[2]) is not None
                c.ob("level-kept", mark or a[1:3] == [f"{o}.log_level", f"{o}.log_type"], q, "another level or type")
    c.ob("own-values", len(us) >= 3 and n >= 3, MK, f"made at {len(us)} places only")


def borrowed(c):
    """The borrowed view handed down the pipeline is of the log itself."""
    p = c.program(*CR, "bd_log_filter", "bd_matcher", "bd_workflows")
    c.rule("view", "what is matched, streamed and stored is one view of the log as the filters left it")
    opq = [r"fb::make_log$", r"write_to_buffers$", r"process_flush_buffers_actions$", r"maybe_stream_log$", r"FilterChain::process$", r"BufferSelector::buffers$",
           r"WorkflowsEngine::", r"finish_blocking_log_processing$", r"LogLevelCounters::"]
    for q in c.paths_of(p, "bd_logger::log_replay::ProcessingPipeline::process_log", Config(opaque=opq)):
        if q.kind != "ret":
            continue
        fl = q.ev(r"^FilterChain::process\(")
        on = q.truth(r"self\.filter_chain_enabled")
        c.ob("view", len(fl) == (1 if on else 0) and (not fl or show(fl[0].args[1]) == "$2" and show(fl[0].args[0]) == "self.filter_chain"), q, "the filters do not see the log once")
        lg = f"upd_by({show(fl[0].res)},1)" if fl else "$2"
        want = {"fields": f"FieldsRef{{captured_fields:{lg}.fields,matching_fields:{lg}.matching_fields}}", **{k: f"{lg}.{k}" for k in ("log_level", "log_type", "message", "session_id", "occurred_at")}}
        view = "LogRef{" + ",".join(f"{k}:{want[k]}" for k in sorted(want)) + "}"
        seen = q.ev(r"^(TailConfigurations::maybe_stream_log|ProcessingPipeline::write_to_buffers|ProcessingPipeline::process_flush_buffers_actions|WorkflowsEngine::process_log)\(")
        c.ob("view", bool(seen) and all(any(show(x) == view for x in e.args) for e in seen), q, "another view of the log is used")
        sel = q.ev(r"^BufferSelector::buffers\(")
        c.ob("view", len(sel) == 1 and [show(x) for x in sel[0].args[1:]] == [f"{lg}.log_type", f"{lg}.log_level", f"{lg}.message", want["fields"]], q,
             "the buffers are not selected by the log's own values")


GROUPS = [encode, callers, borrowed]
FLOORS = {"encoded": 4, "all-fields": 6, "output": 4, "clean-builder": 4, "own-values": 4, "level-kept": 3, "view": 20}
