"""Who uploads which buffer: each continuous buffer as long as it is there, a triggered one once per request, and whoever asked is told."""
from rules import *
from c46 import n, evs, ask, after, facts

M = "bd_logger::consumer::BufferUploadManager::"
OPAQUE = [r"CompleteBufferUpload::run$", r"ContinuousBufferUploader::consume_continuous_logs$", r"StreamedBufferUpload::start$", r"handle_unexpected"]
TRIG = r"default\('bd_shutdown::ComponentShutdownTrigger'\)"
SHUT = rf"ComponentShutdownTrigger::make_shutdown\({TRIG}\)(#\d+)?"


def work(q):
    """what happens, logging and tracing left out"""
    return [e for e in q.trace if not re.match(r"LOOP|done:|Interest::|Callsite::|__macro_support|Span::|LevelFilter|MacroCallsite|DefaultCallsite|Logger::log_internal|oneshot::channel", repr(e))]


def trigger(c):
    c.rule("asked", "a buffer asked for is flushed if it is known and not being flushed, by one task, remembered before it begins and until it ended, however it ended")
    c.rule("told", "whoever asked is told when all the flushes it asked for have ended, however they ended, also if there are none")
    p = c.program("bd_logger")
    f = M + "handle_trigger_uploads"
    ID = r"item\(\$2\.buffer_ids\)"
    ACT = rf"HashSet::contains\((phi:\w+|G|self)\.active_trigger_uploads,{ID}\)"
    BUF = rf"HashMap::get\(self\.trigger_buffers,{ID}\)"
    NEW = rf"Buffer::new_consumer\({BUF}\?Some\.0\)(#\d+)?"
    UP = rf"CompleteBufferUpload\{{batch_builder:BatchBuilder\{{flags:self\.feature_flags,logs:\[\],total_bytes:0\}},buffer_id:{ID},consumer:{NEW}\?Ok\.0,log_upload_service:self\.log_upload_service,lookback_window:.*,old_logs_dropped:self\.old_logs_dropped\}}"
    seen, first = set(), True
    for q in c.paths_of(p, f, Config(opaque=OPAQUE, budget=60000), is_async=True):
        if not c.ob("asked", q.kind == "ret", q, "a request panics"):
            continue
        if n(q.ret) != "Ok(())":
            c.ob("asked", ask(q, NEW + " is Ok") is False, q, f"a request is refused for no reason: {n(q.ret)[:80]}")
            seen.add("error")
            continue
        sp = [e for e in q.trace if re.match(r"\w+::spawn\(", repr(e))]
        if not c.ob("told", len(sp) == 1, q, f"{len(sp)} tasks tell who asked"):
            continue
        done = 0
        for t in spawned(q, sp[0].args[0]):
            tx = [n(e) for e in work(t)]
            aw = [k for k, x in enumerate(tx) if x.startswith("await:")]
            say = [k for k, x in enumerate(tx) if re.match(r"Sender::send\(\$2\.response_tx, ?\(\)\)", x)]
            m = re.match(r"await:await\(\w+::(try_join_all|join_all)\(\[each \$2\.buffer_ids: \{(.*)\}\]\)", tx[aw[0]]) if aw else None
            c.ob("told", m is not None and len(aw) == 1, t, f"it waits for {[tx[k][:200] for k in aw]}")
            if m is not None:
                cases = [x.split(" => ", 1) for x in m.group(2).split("; ")]
                conds = [k for x in cases for k in x[0].split(" & ")]
                c.ob("told", all(len(x) == 2 and re.fullmatch(r"one\(oneshot::channel\(\)(#\d+)?\.1\)", x[1]) for x in cases) and all(re.match(r"!HashSet::contains|HashMap::get|Buffer::new_consumer|!?Duration::is_zero", x) for x in conds)
                     and len([x for x in conds if x.startswith("Duration::is_zero")]) == len([x for x in conds if x.startswith("!Duration::is_zero")]), t, f"it waits only for some: {m.group(2)[:200]}")
            c.ob("told", t.kind == "ret" and len(say) == 1 and bool(aw) and aw[0] < say[0], t, f"who asked is not told, once, at the end: {tx}")
            done += 1
        c.ob("told", done >= 1, q, "nobody tells who asked")
        if not first:
            continue
        first = False
        for i in iterations(q):
            sp = [k for k, e in enumerate(i.trace) if re.match(r"\w+::spawn\(", repr(e))]
            act = ask(i, ACT)
            known = ask(i, BUF + " is Some")
            tx = [n(e) for e in work(i)]
            if act is True or known is False:
                c.ob("asked", not sp and not tx, i, f"a buffer (being flushed: {act}, known: {known}) is not left alone: {tx[:3]}")
                seen.add("active" if act else "unknown")
                continue
            if not c.ob("asked", act is False and known is True and ask(i, NEW + " is Ok") is True and len(sp) == 1, i, f"a buffer (being flushed: {act}, known: {known}) is flushed by {len(sp)} tasks"):
                continue
            mark = [k for k, e in enumerate(i.trace) if re.fullmatch(rf"HashSet::insert\(\S*active_trigger_uploads, ?{ID}\)", n(e))]
            keep = [e for e in i.trace if re.fullmatch(rf"HashMap::insert\(\S*shutdowns, ?{ID}, ?{TRIG}\)", n(e))]
            c.ob("asked", len(mark) == 1 and mark[0] < sp[0], i, "it is not remembered that the buffer is being flushed, before it is")
            c.ob("asked", len(keep) == 1 and re.search(SHUT, n(i.trace[sp[0]])) is not None, i, "a buffer that is removed does not wait for its flush")
            kinds = set()
            for t in spawned(i, i.trace[sp[0]].args[0]):
                w = work(t)
                tx = [n(e) for e in w]
                RUN = rf"await\(CompleteBufferUpload::run\({UP}\)(#\d+)?\)"
                run = [k for k, x in enumerate(tx) if re.fullmatch("await:" + RUN, x)]
                one = [k for k, x in enumerate(tx) if re.match(r"Sender::send\(oneshot::channel\(\)(#\d+)?\.0, ?\(\)\)", x)]
                end = [k for k, x in enumerate(tx) if re.fullmatch(rf"await:await\(Sender::send\(\$3,{ID}\)(#\d+)?\)", x)]
                c.ob("asked", len(run) == 1, t, f"a task flushes {[x[:300] for x in tx if 'CompleteBufferUpload::run' in x][:1]}")
                c.ob("told", len(one) == 1 and run != [] and run[0] < one[0], t, "that a flush ended is not told, once, after it")
                if t.kind != "ret":
                    # nobody is there to be told any more
                    c.ob("told", any(re.match(r"Sender::send\(oneshot::channel", k) and k.endswith(" is Ok") and v is False for k, v in facts(t).items()), t, "a flush panics")
                    continue
                c.ob("asked", len(end) == 1 and one != [] and one[0] < end[0], t, "that a flush ended does not reach the manager")
                kinds.add(ask(t, RUN + " is Ok"))
            c.ob("asked", kinds == {True, False}, i, f"a flush that fails is as one that does not: {kinds}")
            seen.add("flush")
    c.ob("asked", seen == {"error", "active", "unknown", "flush"}, f, f"cases not there: {seen}")


def events(c):
    c.rule("known", "a continuous buffer is uploaded from when it is made, a trigger buffer known, and a stream buffer streamed; one that is removed is neither, and its removal is over when its uploads have stopped")
    p = c.program("bd_logger")
    f = M + "handle_buffer_event"
    E = r"\$2\.event"
    seen = set()
    for q in c.paths_of(p, f, Config(opaque=OPAQUE, budget=60000), is_async=True):
        kind = [v for v in ("ContinuousBufferCreated", "TriggerBufferCreated", "BufferRemoved", "StreamBufferAdded", "StreamBufferRemoved") if ask(q, rf"{E} is {v}") is True]
        if not c.ob("known", len(kind) == 1, q, f"what happened is not asked: {sorted(facts(q))}"):
            continue
        k = kind[0]
        ev = rf"{E}\?{k}\."
        tx = [n(e) for e in work(q)]
        a = after(q).get("self", "self")
        if k == "ContinuousBufferCreated":
            made = ask(q, rf"Buffer::create_continous_consumer\({ev}1\)(#\d+)? is Ok")
            if made is False:
                c.ob("known", n(q.ret).startswith("Err("), q, "a buffer that cannot be read is taken")
                seen.add((k, False))
                continue
            up = rf"ContinuousBufferUploader\{{batch_builder:BatchBuilder\{{flags:self\.feature_flags,logs:\[\],total_bytes:0\}},buffer_id:{ev}0,consumer:Buffer::create_continous_consumer\({ev}1\)(#\d+)?\?Ok\.0,feature_flags:self\.feature_flags,flush_batch_deadline:None,log_upload_service:self\.log_upload_service,shutdown:{SHUT}\}}"
            sp = [x for x in tx if re.match(r"\w+::spawn\(", x)]
            c.ob("known", made is True and len(sp) == 1 and re.search(r"consume_continuous_logs>?\((self=)?" + up, sp[0]) is not None, q, f"a continuous buffer is uploaded by {str(sp)[:400]}")
            c.ob("known", len([x for x in tx if re.fullmatch(rf"HashMap::insert\(self\.shutdowns, ?{ev}0, ?{TRIG}\)", x)]) == 1 and a == "self{shutdowns:=after_insert}", q, "its uploads cannot be stopped")
            seen.add((k, True))
        elif k == "TriggerBufferCreated":
            c.ob("known", len(tx) == 1 and re.fullmatch(rf"HashMap::insert\(self\.trigger_buffers, ?{ev}0, ?{ev}1\)", tx[0]) is not None and a == "self{trigger_buffers:=after_insert}", q, f"a trigger buffer does not become known: {tx}")
            seen.add(k)
        elif k == "BufferRemoved":
            R = rf"HashMap::remove\(self\.shutdowns,{ev}0\)(#\d+)?"
            had = ask(q, R + " is Some")
            gone = [x for x in tx if re.fullmatch(rf"HashMap::remove\(self\.trigger_buffers, {ev}0\)", x)]
            stop = [x for x in tx if re.fullmatch(rf"await:await\(ComponentShutdownTrigger::shutdown\({R}\?Some\.0\)(#\d+)?\)", x)]
            c.ob("known", had is not None and len(gone) == 1 and len(stop) == (1 if had else 0) and "trigger_buffers:=after_remove" in a and "shutdowns:=after_remove" in a, q, f"a removed buffer (uploads: {had}) stays known, or its uploads go on: {tx}")
            seen.add((k, had))
        elif k == "StreamBufferAdded":
            reg = ask(q, rf"RingBuffer::register_consumer\({ev}0\)(#\d+)? is Ok")
            if reg is False:
                c.ob("known", not [x for x in tx if "spawn(" in x], q, "a stream buffer that cannot be read is read")
                continue
            up = rf"StreamedBufferUpload\{{consumer:RingBuffer::register_consumer\({ev}0\)(#\d+)?\?Ok\.0,log_upload_service:self\.log_upload_service,shutdown:{SHUT}\}}"
            sp = [e for e in q.trace if re.match(r"\w+::spawn\(", repr(e))]
            if c.ob("known", reg is True and len(sp) == 1, q, f"a stream buffer is streamed by {len(sp)} tasks"):
                ok = 0
                for t in spawned(q, sp[0].args[0]):
                    x = [n(e) for e in work(t)]
                    ok += len([y for y in x if re.fullmatch(rf"await:await\(StreamedBufferUpload::start\({up}\)(#\d+)?\)", y)]) == 1
                if not ok:
                    ok = re.search(r"start>?\((self=)?" + up, n(sp[0])) is not None
                c.ob("known", ok, q, "a stream buffer is not streamed")
            c.ob("known", re.fullmatch(rf"self\{{stream_buffer_shutdown_trigger:=Some\({TRIG}\)\}}", a) is not None, q, f"streaming cannot be stopped: {a}")
            seen.add(k)
        else:
            had = ask(q, r"self\.stream_buffer_shutdown_trigger is Some")
            stop = [x for x in tx if re.fullmatch(r"await:await\(ComponentShutdownTrigger::shutdown\(self\.stream_buffer_shutdown_trigger\?Some\.0\)(#\d+)?\)", x)]
            c.ob("known", had is not None and len(stop) == (1 if had else 0), q, f"streaming goes on: {tx}")
            c.ob("known", a == "self{stream_buffer_shutdown_trigger:=None}" or not had and a == "self", q, f"after streaming stopped: {a}")
            seen.add((k, had))
        c.ob("known", q.kind == "ret" and n(q.ret) == "Ok(())", q, "taking up what happened fails")
    c.ob("known", seen >= {("ContinuousBufferCreated", True), ("ContinuousBufferCreated", False), "TriggerBufferCreated", ("BufferRemoved", True), ("BufferRemoved", False), "StreamBufferAdded", ("StreamBufferRemoved", True)}, f, f"cases not there: {seen}")


def loop(c):
    c.rule("turn", "every event and request is taken up, a flush that ended may be asked for again, and a shutdown waits for all uploads to stop")
    p = c.program("bd_logger")
    f = M + "run"
    PX = r"(phi:[\w.]*self|phi:_1\.self|self)(\{.*\})?"
    EV, TR = rf"await\(Receiver::recv\(phi:[\w.]*\.buffer_event_rx\)(#\d+)?\)", rf"await\(Receiver::recv\(phi:[\w.]*\.trigger_upload_rx\)(#\d+)?\)"
    DONE = r"await\(Receiver::recv\((phi:\w+|mpsc::channel\(1\)(#\d+)?\.1)\)(#\d+)?\)"
    H = [r"BufferUploadManager::handle_\w+$", r"BufferUploadManager::shutdown$"]
    seen, ends = set(), set()
    for q in c.paths_of(p, f, Config(opaque=OPAQUE + H, budget=60000), is_async=True):
        tx = [n(e) for e in work(q)]
        if n(q.ret).startswith("Err("):
            c.ob("turn", any(re.match(r"await\(BufferUploadManager::handle_", k) and k.endswith(" is Ok") and v is False for k, v in facts(q).items()), q, "the manager stops for no reason")
            ends.add("error")
            continue
        c.ob("turn", q.kind == "ret" and n(q.ret) == "Ok(())" and len([x for x in tx if re.match(r"await:await\(BufferUploadManager::shutdown\(", x)]) == 1, q, "the manager stops without waiting for the uploads")
        c.ob("turn", any(re.match(r"ComponentShutdown::cancelled\(", x) for x in tx), q, "the manager does not listen to a shutdown")
        ends.add("shutdown" if any(re.match(r"await:await\(ComponentShutdown::cancelled\(", x) for x in tx) else "idle")
        for i in iterations(q):
            tx = [n(e) for e in work(i)]
            aw = [x for x in tx if x.startswith("await:")]
            if ask(i, EV + " is Some") is True:
                c.ob("turn", len(aw) == 2 and re.fullmatch(rf"await:await\(BufferUploadManager::handle_buffer_event\({PX},{EV}\?Some\.0\)(#\d+)?\)", aw[1]) is not None, i, f"what happened to a buffer is not taken up: {aw[1:]}")
                seen.add("event")
            elif ask(i, TR + " is Some") is True:
                c.ob("turn", len(aw) == 2 and re.fullmatch(rf"await:await\(BufferUploadManager::handle_trigger_uploads\({PX},{TR}\?Some\.0,mpsc::channel\(1\)(#\d+)?\.0\)(#\d+)?\)", aw[1]) is not None, i, f"a request is not taken up: {aw[1:]}")
                seen.add("request")
            elif ask(i, DONE + " is Some") is True:
                c.ob("turn", len(aw) == 1 and len([x for x in tx if re.fullmatch(rf"HashSet::remove\(\S*\.active_trigger_uploads, ?{DONE}\?Some\.0\)", x)]) == 1, i, "that a flush ended is not taken up")
                seen.add("ended")
            else:
                c.ob("turn", False, i, f"a round that does nothing: {sorted(facts(i))}")
    c.ob("turn", seen == {"event", "request", "ended"} and ends >= {"error", "shutdown"}, f, f"cases not there: {seen} {ends}")
    for q in c.paths_of(p, M + "shutdown", Config(opaque=[]), is_async=True):
        lps = q.loops()
        ok = len(lps) == 1 and lps[0].src is not None and n(lps[0].src) == "self.shutdowns" and q.whole(lps[0])
        c.ob("turn", q.kind == "ret" and ok, q, f"not all uploads are stopped: {[n(lp.src) for lp in lps if lp.src is not None]}")
        for i in iterations(q):
            c.ob("turn", len([e for e in i.trace if re.fullmatch(r"await:await\(ComponentShutdownTrigger::shutdown\(item\(self\.shutdowns\)\.1\)(#\d+)?\)", n(e))]) == 1, i, "uploads are not stopped, or not waited for")


GROUPS = [trigger, events, loop]
FLOORS = {"asked": 12, "told": 8, "known": 12, "turn": 10}
