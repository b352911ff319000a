"""Every part is connected to the parts it works with."""
from rules import *
from models import ret
from c61 import fn, m

CH = r"mpsc::channel\(\w+\)(?:#\d+)?\.(?:0|1|tx|rx)"
NEW = [r"SimpleNetworkQualityProvider.*default$", r"^bd_[a-km-z]\w+::(?!.*ChannelPair)", r"AsyncLogBuffer::", r"UninitializedLoggingContext::new", r"logger::Logger::(new|new_logger_handle|initialize_buffer_directory)$",
       r"InternalLogger::new", r"BufferUploadManager::", r"LoggerUpdate::new", r"client_config::Config::new"]

# a kind of message: where it is sent from, and where it is received
ENDS = {
    "trigger-upload": ({"UninitializedLoggingContext::new", "Api::new"}, {"BufferUploadManager::new"}),
    "flush-buffers": ({"UninitializedLoggingContext::new"}, {"Manager::process_flushes"}),
    "config-update": ({"LoggerUpdate::new"}, {"AsyncLogBuffer::new"}),
    "data-upload": ({"UninitializedLoggingContext::new", "BufferUploadManager::new", "Stats::flush_handle", "returned"}, {"Api::new"}),
}


def short(e):
    return strip(e.name)


def strip(s):
    return re.sub(r"<[^<>]*>::|::<[^<>]*>", "", s)


def ends(t):
    """The channel ends a value is or holds, not counting those within the results of calls."""
    if re.fullmatch(CH, show(t)):
        return {show(t)}
    if t.op in ("agg", "tuple", "some", "ok"):
        return {x for s in t.a[3] for x in ends(s)} if t.op == "agg" else {show(t)} if re.fullmatch(CH, show(t)) else set()
    return set()


def builder(c):
    c.rule("ends", "each channel of the logger has its sending end with exactly the parts that send on it and its receiving end with the part that serves it")
    c.rule("runs", "the future of the logger runs the very parts that were built, all of them, and fails when one fails")
    c.rule("shared", "all parts share one runtime configuration, one scope of statistics, one shutdown and one directory, that of the logger")
    c.rule("returned", "the caller gets the logger that feeds the buffer that runs, the sender of uploads that are served, and the future that runs them")
    p = c.program("bd_logger")
    f = fn(p, "bd_logger::builder::LoggerBuilder::build")
    n = {"mobile": 0, "plain": 0, "own": 0, "scope": 0, "internal": 0}
    for q in c.paths_of(p, f, Config(opaque=NEW)):
        if q.kind != "ret":
            c.ob("returned", False, q, "building the logger may panic")
            continue
        mobile, scope = q.truth(r"self\.mobile_features"), q.truth(r"self\.stats_scope is Some")
        if mobile and scope:
            c.ob("returned", q.rett.op == "agg" and q.rett.a[1] == "Err", q, "two owners of the statistics are accepted")
            continue
        if not (q.rett.op == "agg" and q.rett.a[1] == "Ok"):
            continue
        out = q.rett.a[3][0]
        logger, tx, fut = (fld(out, k) for k in "012")
        tasks = spawned(q, fut)
        if not c.ob("runs", bool(tasks) and all(t.kind == "ret" for t in tasks), q, "what is returned does not run"):
            continue
        calls = [e for e in q.trace if e.kind in ("call", "event") and hasattr(e, "args")]
        made = {}
        for e in calls:
            made.setdefault(strip(e.name), []).append(e)
        # what the future runs
        ran, good, bad = {}, 0, 0
        for t in tasks:
            parts = [e for e in t.trace if e.name.endswith("maybe_done")]
            good += t.ret == "Ok(())"
            bad += t.ret.startswith("Err(")
            for e in parts:
                sub = spawned(t, e.args[0])
                c.ob("runs", bool(sub), t, "a part that is built does not run")
                for s in sub:
                    own = [x for x in s.trace if x.kind == "call"]
                    for x in own:
                        ran.setdefault(strip(x.name), {}).setdefault(show(x.args[0]), []).append((x, s))
                    may = [x for x in own if strip(x.name) in ("Api::start", "BufferUploadManager::run", "Manager::process_flushes")]
                    for x in may:
                        aw = mk("await", x.res)
                        aw = next((e.res for e in s.trace if e.kind == "await" and e.args and show(e.args[0]) == show(x.res) or show(e.res) == show(aw) if e.res is not None), aw)
                        good_ = s.decide(mk("is", aw, "Ok"))
                        c.ob("runs", s.ret == show(aw) or good_ is not None and s.ret.startswith("Ok(" if good_ else "Err("), s, f"whether {strip(x.name)} failed is lost: {s.ret[:100]}")
        c.ob("runs", good and bad, q, "that a part failed is not what the future of the logger results in")
        res = {k: show(v[0].res) for k, v in made.items() if len(v) == 1}
        want = {"Api::start": f"{res.get('Api::new')}?Ok.0", "BufferUploadManager::run": f"{res.get('BufferUploadManager::new')}?Ok.0",
                "AsyncLogBuffer::run": f"{res.get('AsyncLogBuffer::new')}.0", "Manager::process_flushes": f"{res.get('Manager::new')}.0"}
        if mobile:
            want["Flusher::periodic_flush"] = f"{res.get('Stats::flush_handle')}?Ok.0.flusher"
        for k, v in want.items():
            c.ob("runs", set(ran.get(k, ())) == {v} and all(any(e.kind == "await" for e in s.trace) for _, s in ran[k][v]), q, f"{k} runs {[x[:120] for x in ran.get(k, ())]}")
        c.ob("runs", mobile or "Flusher::periodic_flush" not in ran, q, "statistics are flushed by a logger without them")
        # where the ends of channels go
        sent, got = {}, {}
        places = [(strip(e.name), a) for e in calls for a in e.args] + [(k, a) for k, v in ran.items() for xs in v.values() for x, _ in xs for a in x.args] + [("returned", tx)]
        for where, a in places:
            for x in ends(a):
                ch, end = x.rsplit(".", 1)
                (sent if end in ("0", "tx") else got).setdefault(ch, set()).add(where)
        have = sorted((sorted(sent.get(ch, ())), sorted(got.get(ch, ()))) for ch in set(sent) | set(got))
        exp = sorted((sorted(s - (set() if mobile else {"Stats::flush_handle"})), sorted(r)) for s, r in ENDS.values())
        c.ob("ends", have == exp, q, f"channels go from and to {have}")
        # what all share
        for k in ("ConfigLoader::new", "AsyncLogBuffer::new", "Manager::new", "Api::new", "BufferUploadManager::new", "UninitializedLoggingContext::new", "LoggerUpdate::new", "Config::new", "DynamicStats::new"):
            c.ob("shared", len(made.get(k, ())) == 1, q, f"there are {len(made.get(k, ()))} of {k}")
        loader = res.get("ConfigLoader::new", "?")
        users = {"UninitializedLoggingContext::new", "AsyncLogBuffer::new", "Logger::new", "Manager::new", "BufferUploadManager::new", "LoggerUpdate::new", "Api::new", "RuntimeManager::new", "DynamicStats::new"} | ({"Stats::flush_handle"} if mobile else set())
        for k in users:
            for e in made.get(k, ()):
                c.ob("shared", any(show(a) == loader for a in e.args), q, f"{k} goes by another runtime configuration")
        stats = "self.stats_scope?Some.0" if scope else res.get("Collector::scope", "?")
        for k in ("UninitializedLoggingContext::new", "Logger::new", "Manager::new", "BufferUploadManager::new", "Config::new", "DynamicStats::new", "UnexpectedErrorHandler::register_stats"):
            c.ob("shared", any(show(a) == stats for e in made.get(k, ()) for a in e.args), q, f"{k} counts elsewhere than {stats}")
        if mobile:
            col = [show(a) for e in made.get("Stats::new", ()) for a in e.args]
            own = [show(e.args[0]) for e in made.get("Collector::scope", ())]
            c.ob("shared", len(own) == 1 and col == [own[0], res.get("DynamicStats::new")] and [show(e.args[0]) for e in made["Stats::flush_handle"]] == [res.get("Stats::new")], q, f"flushed are the statistics of {col}")
        c.ob("shared", any(show(a) == res.get("DynamicStats::new") for e in made.get("UninitializedLoggingContext::new", ()) for a in e.args), q, "dynamic statistics are counted elsewhere")
        seen = [[show(a) for e in made.get(k, ()) for a in e.args if re.match(r"(SimpleNetworkQualityProvider::)?[Dd]efault", show(a)) and "." not in show(a)] for k in ("Api::new", "AsyncLogBuffer::new")]
        c.ob("shared", len(seen[0]) == 1 and seen[0] == seen[1], q, f"the connection tells its quality to {seen[0]}, noted is that of {seen[1]}")
        own = q.truth(r"self\.component_shutdown_handle is Some")
        handle = "self.component_shutdown_handle?Some.0" if own else res.get("ComponentShutdownTrigger::make_handle", "?")
        downs = made.get("ComponentShutdownTriggerHandle::make_shutdown", [])
        c.ob("shared", all(show(e.args[0]) == handle for e in downs) and any(show(a) == handle for e in made.get("AsyncLogBuffer::new", ()) for a in e.args), q, "a part is shut down by another handle")
        for k in ("BufferUploadManager::new", "Api::new") + (("Stats::flush_handle",) if mobile else ()):
            c.ob("shared", any(show(a) in {show(e.res) for e in downs} for e in made.get(k, ()) for a in e.args), q, f"{k} is not told of the shutdown")
        trig = [show(a) for e in made.get("Logger::new", ()) for a in e.args[:1]]
        mk_h = made.get("ComponentShutdownTrigger::make_handle", ())
        c.ob("shared", trig == (["None"] if own else [f"Some({show(mk_h[0].args[0])})"] if mk_h else ["?"]), q, f"the logger shuts down by {trig}")
        for k in ("ConfigLoader::new", "UninitializedLoggingContext::new", "Logger::initialize_buffer_directory", "Config::new", "Api::new") + (("Stats::flush_handle",) if mobile else ()):
            c.ob("shared", any(show(a) == "self.params.sdk_directory" for e in made.get(k, ()) for a in e.args), q, f"{k} keeps its data elsewhere")
        c.ob("shared", any(show(a) == f"{res.get('Logger::initialize_buffer_directory')}?Ok.0" for e in made.get("Manager::new", ()) for a in e.args), q, "buffers are kept elsewhere")
        trg = [show(a) for e in made.get("UninitializedLoggingContext::new", ()) for a in e.args if a.op == "agg" and a.a[1] in ("Some", "None") or show(a) == "None"]
        c.ob("ends", trg == ([f"Some({res.get('Stats::flush_handle')}?Ok.0.flush_trigger)"] if mobile else ["None"]), q, f"statistics are flushed on demand by {trg}")
        ev = f"{res.get('Manager::new')}.1"
        c.ob("ends", any(show(a) == ev for e in made.get("BufferUploadManager::new", ()) for a in e.args), q, "what becomes of buffers is not told to those who upload them")
        c.ob("ends", any(show(a) == f"{res.get('Manager::new')}.0" for e in made.get("LoggerUpdate::new", ()) for a in e.args), q, "a new configuration goes to other buffers")
        ups = [show(a) for e in made.get("Api::new", ()) for a in e.args if "RuntimeManager::new" in show(a) or "Config::new" in show(a)]
        pipes = [x for x in ups if re.search(r"RuntimeManager::new\(" + re.escape(loader), x) and (res.get("Config::new", "?") + "?Ok.0") in x]
        c.ob("ends", len(pipes) == 1, q, f"configuration that arrives goes to {[x[:200] for x in ups]}")
        c.ob("ends", any((res.get("LoggerUpdate::new") or "?") in show(a) for e in made.get("Config::new", ()) for a in e.args), q, "logger configuration does not reach the logger")
        # what the caller gets
        ab = f"{res.get('AsyncLogBuffer::new')}.1"
        c.ob("returned", show(logger) == res.get("Logger::new") and any(show(a) == ab for e in made["Logger::new"] for a in e.args), q, "logs go to a buffer that does not run")
        c.ob("returned", {x.rsplit(".", 1)[0] for x in ends(tx)} == {x.rsplit(".", 1)[0] for e in made["Api::new"] for a in e.args for x in ends(a) if x.rsplit(".", 1)[1] in ("1", "rx")}, q, "uploads are sent where nobody serves them")
        if q.truth(r"self\.internal_logger"):
            n["internal"] += 1
            c.ob("returned", any(show(e.args[0]) == show(logger) for e in made.get("Logger::new_logger_handle", ())), q, "internal logs go elsewhere")
        n["mobile" if mobile else "plain"] += 1
        n["own"] += bool(own)
        n["scope"] += bool(scope)
    c.ob("returned", all(n.values()), f, f"cases {n}")
    f = fn(p, "bd_logger::builder::LoggerBuilder::build_dedicated_thread")
    kinds = set()
    for q in c.paths_of(p, f, Config(opaque=[r"bd_logger::builder::LoggerBuilder::build$", r"^bd_[a-km-z]\w+::"])):
        own = q.truth(r"self\.component_shutdown_handle is Some")
        b = q.ev(r"^LoggerBuilder::build\(self\)")
        kinds.add((own, q.kind, q.ret[:3]))
        if own:
            c.ob("returned", q.kind == "ret" and q.ret.startswith("Err(") and not b, q, "a logger with a thread of its own is shut down by somebody else")
        elif q.kind == "ret" and q.ret.startswith("Ok("):
            r = show(b[0].res) if b else "?"
            c.ob("returned", q.ret == f"Ok(({r}?Ok.0.0,{r}?Ok.0.1))", q, f"returned is {q.ret[:200]}")
            th = [x for lp in [q.e.loops[e.extra] for e in q.trace if e.kind == "loop" and re.search(r"Builder::spawn$|thread::spawn$", e.name)] for tr, _ in lp.iters
                  for x in tr if x.name.endswith("block_on") and f"{r}?Ok.0.2" in show(x.args[1])]
            c.ob("runs", len(th) == 1, q, "no thread runs the logger")
    c.ob("returned", {True, False} <= {k[0] for k in kinds} | ({False} if any(k[0] is False for k in kinds) else set()), f, f"cases {kinds}")


def engine(c):
    c.rule("engine", "the workflow engine sends to the tasks it started, reads from them, and hands out the receiver of the flushes it asks for")
    p = c.program("bd_workflows")
    f = fn(p, "bd_workflows::engine::WorkflowsEngine::new")
    ok = 0
    for q in c.paths_of(p, f, Config(opaque=[r"StateStore::new$", r"Stats::new$", r"::register$", r"^bd_[a-v]\w+::"])):
        if q.kind != "ret":
            continue
        ok += 1
        e, rx = fld(q.rett, "0"), fld(q.rett, "1")

        def of(t, end):
            g = re.fullmatch(r"(mpsc::channel\(\w+\)(?:#\d+)?)\.(\d)", show(t))
            return g[1] if g and g[2] == str(end) else None
        chans = {"asks": of(fld(e, "buffers_to_flush_tx"), 0), "negotiator": of(fld(e, "flush_buffers_negotiator_input_tx"), 0), "sankey": of(fld(e, "sankey_processor_input_tx"), 0), "answers": of(fld(e, "flush_buffers_negotiator_output_rx"), 1)}
        c.ob("engine", None not in chans.values() and len(set(chans.values())) == 4, q, f"the channels are {chans}")
        c.ob("engine", of(rx, 1) == chans["asks"], q, f"handed out is {show(rx)}")
        tasks = {}
        for s in [x for x in q.trace if re.search(r"^tokio::spawn|task::spawn$|::spawn$", x.name)]:
            t = q.e.resolve(q.state, fld(s.args[0], "self")) if s.args[0].op == "agg" else None
            if t is not None and t.op == "agg":
                tasks[t.a[0] if isinstance(t.a[0], str) else str(t.a[0])] = (t, show(s.res))
        tasks = {k.split("::")[-1]: v for k, v in tasks.items()}
        for k, fields, handle in (("Negotiator", {"input_rx": (chans["negotiator"], 1), "output_tx": (chans["answers"], 0)}, "flush_buffers_negotiator_join_handle"),
                                  ("Processor", {"input_rx": (chans["sankey"], 1)}, "sankey_processor_join_handle")):
            t = tasks.get(k)
            if not c.ob("engine", t is not None, q, f"{k} does not run"):
                continue
            got = {x: show(fld(t[0], x)) for x in fields}
            c.ob("engine", all(got[x] == f"{a}.{b}" for x, (a, b) in fields.items()), q, f"{k} runs with {got}, not {fields}")
            c.ob("engine", show(fld(t[0], "data_upload_tx")) == "$4", q, f"{k} uploads by {show(fld(t[0], 'data_upload_tx'))}")
            c.ob("engine", show(fld(e, handle)) == t[1], q, f"{k} is stopped by {show(fld(e, handle))}")
        start = {k: show(fld(e, k)) for k in ("current_traversals_count", "needs_state_persistence", "configs")}
        c.ob("engine", start == {"current_traversals_count": "0", "needs_state_persistence": "false", "configs": "[]"}, q, f"it starts with {start}")
        c.ob("engine", show(fld(fld(e, "metrics_collector"), "dynamic_stats")) == "$5", q, "metrics go elsewhere")
    c.ob("engine", ok > 0, f, "no engine is made")
    f = fn(p, "bd_workflows::<engine::WorkflowsEngine as std::ops::Drop>::drop")
    for q in c.paths_of(p, f, Config()):
        ab = sorted(show(e.args[0]) for e in q.trace if e.name.endswith("::abort"))
        c.ob("engine", q.kind == "ret" and ab == ["self.flush_buffers_negotiator_join_handle", "self.sankey_processor_join_handle"], q, f"with the engine end {ab}")


def flusher(c):
    c.rule("flusher", "statistics are flushed at the interval configured for flushing, uploaded at that for uploading, and on demand of whoever holds the trigger that came with the flusher")
    c.rule("tick", "a ticker ticks at the interval that is configured, from when it is, whether or not it can still change")
    c.rule("asked", "a demand to flush arrives as it was made, or the one who made it is told")
    p = c.program("bd_client_stats")
    f = fn(p, "bd_client_stats::Stats::flush_handle")
    ok = 0

    def setting(e, st, f, args, ctx):
        g = re.search(r"(\w+IntervalFlag)\b", " ".join(str(g) for g in f.get("ga") or []))
        return ret(mk("call", f"setting({g[1]})", (), 0), st) if g else None
    for q in c.paths_of(p, f, Config(model={"Watch::into_inner": setting}, opaque=[r"^bd_(runtime|time|client_stats_store|api|shutdown)::", r"FileManager::new$"])):
        if q.kind != "ret" or not q.ret.startswith("Ok("):
            c.ob("flusher", q.kind == "ret" and q.ret.startswith("Err("), q, "starting to flush may panic")
            continue
        ok += 1
        h = q.rett.a[3][0]
        fl = fld(h, "flusher")
        tr = q.e.resolve(q.state, fld(h, "flush_trigger"))
        for k, flag in (("flush_ticker", "DirectStatFlushIntervalFlag"), ("upload_ticker", "UploadStatFlushIntervalFlag")):
            got = re.findall(r"setting\((\w+)\)", show(fld(fl, k)))
            c.ob("flusher", got == [flag], q, f"the {k} goes by {got}")
        ends_ = (show(fld(tr, "flush_tx")), show(fld(fl, "flush_rx")))
        g = [re.fullmatch(r"(mpsc::channel\(\w+\)(?:#\d+)?)\.(\d)", x) for x in ends_]
        c.ob("flusher", all(g) and g[0][1] == g[1][1] and (g[0][2], g[1][2]) == ("0", "1"), q, f"demands go from {ends_[0]} to {ends_[1]}")
        c.ob("flusher", show(fld(fl, "stats")) == "self" and show(fld(fl, "shutdown")) == "$3" and show(fld(fl, "data_flush_tx")) == "$5", q, "other statistics are flushed, or uploaded elsewhere")
        c.ob("flusher", show(fld(fl, "file_manager")).startswith("FileManager") and "$4" in show(fld(fl, "file_manager")), q, f"they are kept in {show(fld(fl, 'file_manager'))[:200]}")
    c.ob("flusher", ok > 0, f, "nothing is flushed")
    f = fn(p, "bd_client_stats::FlushTrigger::flush")
    seen = set()
    for q in c.paths_of(p, f, Config()):
        s = q.ev(r"^Sender::send\(self\.flush_tx, \$2\)")
        w = q.truth(r"await\(Sender::send\(self\.flush_tx,\$2\)(#\d+)?\) is Ok")
        seen.add(w)
        c.ob("asked", q.kind == "ret" and len(s) == 1 and w is not None and (q.ret.startswith("Ok(") if w else q.ret.startswith("Err(")), q, f"a demand that arrives: {w}, gives {q.ret[:80]}")
    c.ob("asked", seen == {True, False}, f, f"cases {seen}")
    f = fn(p, "bd_client_stats::<stats::RuntimeWatchTicker as stats::Ticker>::tick")
    V = r"TimeDurationExt::jittered_interval_at\(Receiver::(borrow_and_update|borrow)\((phi:\*)?self\.receiver\)(#\d+)?\)(#\d+)?"
    starts, turns = set(), 0
    for q in c.paths_of(p, f, Config(), is_async=True):
        if q.kind != "ret":
            # the interval is set before the loop and whenever it is set again: no path gets here
            c.ob("tick", q.truth(r"phi:\*self\.interval is Some") is False, q, "a tick may panic")
            continue
        had = q.truth(r"self\.interval is Some")
        starts.add(had)
        first = [e for e in q.trace if re.match("^" + V + "$", show(e.res) if e.res is not None else "")]
        c.ob("tick", had is not None and len(first) == (0 if had else 1), q, f"an interval is there: {had}, made are {len(first)}")
        last = [e for e in q.trace if e.kind == "await"]
        c.ob("tick", len(last) == 1 and re.match(r"await:await\(Interval::tick\((phi:\*)?self\.interval\?Some\.0\)", repr(last[0])) is not None, q, f"a tick comes when {[repr(e)[:120] for e in last]}")
        for lp in [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]:
            for t, st in lp.iters:
                i = Iter(q, t, st)
                turns += 1
                okk = i.truth(r"await\(Receiver::changed\(.*\)(#\d+)?\) is Ok")
                now = i.heap("self").get("self", "")
                c.ob("tick", okk is True, i, "once the interval can no longer change, it begins anew over and over and there is no tick")
                c.ob("tick", re.search(r"interval:=Some\(" + V + r"\)", now) is not None, i, f"when the interval changes, {now[:200]}")
    c.ob("tick", starts == {True, False} and turns > 0, f, f"cases {starts}, {turns}")


def buffers(c):
    c.rule("log-buffer", "what is sent by the sender of a log buffer arrives at that buffer, and its parts are those it is given")
    c.rule("buffer-events", "what becomes of buffers is told by the manager that is made with the receiver")
    p = c.program("bd_logger")
    f = fn(p, "bd_logger::async_log_buffer::AsyncLogBuffer::<R>::new")
    ok = 0
    for q in c.paths_of(p, f, Config(opaque=[r"^bd_[a-km-z]\w+::"])):
        if q.kind != "ret":
            continue
        ok += 1
        b, tx = fld(q.rett, "0"), fld(q.rett, "1")
        g = re.fullmatch(r"(mpsc::channel\(.*\)(?:#\d+)?)\.0", show(fld(tx, "tx")))
        c.ob("log-buffer", g is not None and show(fld(fld(b, "communication_rx"), "rx")) == f"{g and g[1]}.1", q, f"logs are sent to {show(fld(tx, 'tx'))}, read from {show(fld(fld(b, 'communication_rx'), 'rx'))}")
        c.ob("log-buffer", g is not None and re.match(r"mpsc::channel\(\$1\.pre_config_log_buffer\.max_count\)", g[1]) is not None and show(fld(tx, "memory_capacity")) == "$1.pre_config_log_buffer.max_size", q, "the sender has other bounds than those the logger was made with")
        got = {k: show(fld(b, k)) for k in ("replayer", "session_strategy", "config_update_rx", "shutdown_trigger_handle", "logging_state")}
        c.ob("log-buffer", got == {"replayer": "$2", "session_strategy": "$3", "config_update_rx": "$8", "shutdown_trigger_handle": "$9", "logging_state": "Uninitialized($1)"}, q, f"it is made with {got}")
        c.ob("log-buffer", show(fld(fld(b, "metadata_collector"), "metadata_provider")) == "$4", q, "fields come from another provider")
        for k, pat in (("resource_utilization_reporter", r"Reporter::new\(\$5,\$10\)"), ("events_listener", r"Listener::new\(\$7,\$10\)"), ("session_replay_recorder", r"Recorder::new\(\$6,\$10,(\$1|G)\.stats\.scope\)\.0"), ("session_replay_capture_screenshot_handler", r"Recorder::new\(\$6,\$10,(\$1|G)\.stats\.scope\)\.1")):
            c.ob("log-buffer", re.fullmatch(pat, m(fld(b, k))) is not None, q, f"{k} is {m(fld(b, k))[:120]}")
        ic = show(fld(b, "interceptors"))
        for k in ("HTTPTrafficDataUsageTracker{", "NetworkQualityInterceptor{", "internal_logs_count", "Recorder::new("):
            c.ob("log-buffer", k in ic, q, f"no interceptor has {k}")
        c.ob("log-buffer", "phi" not in ic and ic.startswith("[") and len(re.findall(r"network_quality_provider:\$11", ic)) == 2, q, "what the interceptors note of the network is another's")
    c.ob("log-buffer", ok > 0, f, "no buffer is made")
    p = c.program("bd_buffer")
    f = fn(p, "bd_buffer::ring_buffer::Manager::new")
    ok = 0
    for q in c.paths_of(p, f, Config(opaque=[r"^bd_[ac-z]\w+::"])):
        if q.kind != "ret":
            continue
        ok += 1
        mg, rx = fld(q.rett, "0"), fld(q.rett, "1")
        g = re.fullmatch(r"(mpsc::channel\(.*\)(?:#\d+)?)\.0", show(fld(mg, "buffer_event_tx")))
        c.ob("buffer-events", g is not None and show(rx) == f"{g and g[1]}.1", q, f"told on {show(fld(mg, 'buffer_event_tx'))}, heard on {show(rx)}")
        c.ob("buffer-events", show(fld(mg, "buffer_directory")) == "$1" and "HashMap::new()" in show(fld(mg, "buffers")), q, "it starts elsewhere, or with buffers")
    c.ob("buffer-events", ok > 0, f, "no manager is made")


GROUPS = [builder, engine, flusher, buffers]
FLOORS = {"ends": 40, "runs": 100, "shared": 200, "returned": 17, "engine": 7, "flusher": 4, "tick": 5, "asked": 2, "log-buffer": 7, "buffer-events": 2}
