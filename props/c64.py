"""The logger's front door and how it is put together."""
from rules import *
from models import m_lock
from c61 import asked, fn

L = "bd_logger::"
H = L + "logger::LoggerHandle::"


def m(x):
    """names, without the numbers of calls"""
    return re.sub(r"#\d+", "", x if isinstance(x, str) else repr(x) if hasattr(x, "name") else show(x))


NOISE = r"Interest|Callsite|Level|__|log::|LocalKey|Metadata::"
OPQ = ["enqueue_log$", "warn_every", r"memory_bound::Sender::.*try_send$", r"bd_[a-km-z]\w+::"]
FREE = r"RefCell::try_borrow(_mut)?\(LocalKey::new\(const:bd_logger::logger::LOGGER_GUARD\S*\) is Ok"
KINDS = {"ok": None, "err_closed": "Closed", "err_full_count_overflow": "FullCountOverflow", "err_full_size_overflow": "FullSizeOverflow"}


def runs(c, rule, name, opaque=(), **kw):
    p = c.program("bd_logger")
    out = []
    for q in c.paths_of(p, fn(p, name), Config(opaque=OPQ + list(opaque), budget=60000, **kw)):
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{name} ends with {q.kind} {q.why}"):
            out.append(q)
    return out


def calls(q):
    return [m(e) for e in q.events() if e.kind == "call" and not re.match(NOISE, repr(e)) and not re.match("RefCell::try_borrow", repr(e))]


def sent(c, rule, q, call, counters, free):
    """a thing handed on once, its result counted once as what it was; nothing while the guard is held"""
    got = [x.replace(", ", ",") for x in calls(q)]
    ok = asked(q, FREE) if free else True
    if ok is not True:
        c.ob(rule, ok is False and got == [], q, f"allowed: {ok}, does {got}")
        return
    res = re.escape(call)
    fine = asked(q, res + " is Ok")
    want = "ok" if fine else next((k for k, v in KINDS.items() if v and asked(q, rf"{res}\?Err\.0 is {v}")), None)
    if want is None and fine is False:
        # the last of them is what is left
        no = [v for v in KINDS.values() if v and asked(q, rf"{res}\?Err\.0 is {v}") is False]
        left = [k for k, v in KINDS.items() if v and v not in no]
        want = left[0] if len(left) == 1 else next((g.split(".")[-1].rstrip(")") for g in got if g.startswith("Counter::inc")), "?") if not left else "?"
    c.ob(rule, fine is not None and got == [call, f"Counter::inc(self.stats.{counters}.{want})"], q, f"does {[g[:150] for g in got]}, went well: {fine}, {want}")


def field(name, value):
    return f"one(AnnotatedLogField{{field:LogField{{key:'{name}',value:{value}}},kind:Ootb}})"


def front(c):
    c.rule("guarded", "nothing is logged, no field changed and no session started from inside a field provider; the guard is held exactly while the provider is asked")
    c.rule("handed", "what is logged is handed on once, with its own level, kind, message and fields, and counted as what became of it")
    c.rule("asked", "the logger answers with the session, device and settings it was made with")
    c.rule("internal", "an internal log is made exactly while that is turned on")
    for q in runs(c, "guarded", H + "log"):
        sent(c, "guarded", q, "AsyncLogBuffer::enqueue_log(self.tx,$2,$3,$4,$5,$6,$7,$8)", "log_emission_counters", True)
    for q in runs(c, "guarded", H + "add_log_field"):
        sent(c, "guarded", q, "Sender::try_send(self.tx,AddLogField($2))", "field_addition_counters", True)
    for q in runs(c, "guarded", H + "remove_log_field"):
        sent(c, "guarded", q, "Sender::try_send(self.tx,RemoveLogField($2))", "field_removal_counters", True)
    for q in runs(c, "guarded", H + "start_new_session"):
        free = asked(q, FREE)
        c.ob("guarded", free is not None and calls(q) == (["Strategy::start_new_session(self.session_strategy)"] if free else []), q, f"allowed: {free}, does {calls(q)}")
    for q in runs(c, "guarded", L + "logger::with_thread_local_logger_guard", model={"RefCell::borrow_mut": m_lock}):
        es = [m(e) for e in q.trace]
        LK = r"lock:borrow_mut\(LocalKey::new\(const:bd_logger::logger::LOGGER_GUARD\S*\)"
        ok = len(es) == 3 and re.match(LK, es[0]) and es[1] == "call:$1()" and es[2].startswith("unlock:")
        c.ob("guarded", ok, q, f"the guard: {es}")
    p = c.program("bd_logger")
    asks = 0
    for q in c.paths_of(p, fn(p, L + "async_log_buffer::AsyncLogBuffer::<R>::process_log"), Config(opaque=OPQ + [r"write_log\w*$", "normalized_metadata_with_extra_fields$"], budget=60000, model={"RefCell::borrow_mut": m_lock}), is_async=True):
        es = [m(e) for e in q.events()]
        a = [i for i, x in enumerate(es) if x.startswith("MetadataCollector::normalized_metadata_with_extra_fields(")]
        lk = [i for i, x in enumerate(es) if "LOGGER_GUARD" in x and x.startswith("lock:")]
        un = [i for i, x in enumerate(es) if "LOGGER_GUARD" in x and x.startswith("unlock:")]
        c.ob("guarded", len(a) == len(lk) == len(un) == 1 and lk[0] < a[0] < un[0] and not any(x.startswith("await") for x in es[lk[0]:un[0]]), q, "the field providers are asked without the guard, or it is held for longer")
        asks += 1
    c.ob("guarded", asks > 0, None, "the field providers are not asked")
    for q in runs(c, "handed", H + "flush_state"):
        b = asked(q, r"\$2")
        msg = "FlushState(Some(Sender::new().0))" if b else "FlushState(None)"
        got = [x for x in calls(q) if re.match(r"Sender::try_send", x)]
        cnt = [x for x in calls(q) if x.startswith("Counter::inc")]
        c.ob("handed", b is not None and [g.replace(", ", ",") for g in got] == [f"Sender::try_send(self.tx,{msg})"] and len(cnt) == 1 and cnt[0].startswith("Counter::inc(self.stats.state_flushing_counters."), q, f"blocking {b}: {got} {cnt}")
        if got and cnt:
            fine = asked(q, re.escape(got[0].replace(", ", ",")) + " is Ok")
            c.ob("handed", fine is not None and (cnt[0].endswith(".ok)") == fine), q, f"sent: {fine}, counted {cnt}")
    p = c.program("bd_logger")
    lt = {"resource": (1, 3, "''", ""), "sdk_start": (2, 2, "'SDKConfigured'", ""), "screen": (2, 1, "'Screen captured'", ""), "screenshot": (2, 1, "'Screenshot captured'", "")}
    MS = "to_string(Mul(1000,Duration::as_seconds_f64($3)))"
    for name, k in (("log_resource_utilization", "resource"), ("log_sdk_start", "sdk_start"), ("log_session_replay_screen", "screen"), ("log_session_replay_screenshot", "screenshot")):
        for q in runs(c, "handed", H + name, opaque=[r"LoggerHandle::log$"]):
            level, kind, msg, _ = lt[k]
            f = field("_duration_ms", MS)
            f2 = field("_duration_ms", MS.replace("Mul(1000,Duration::as_seconds_f64($3))", "Mul(Duration::as_seconds_f64($3),1000)"))
            extra = " ++ " + field("_sdk_version", "self.sdk_version") if k == "sdk_start" else ""
            want = [f"LoggerHandle::log(self,{level},LogType({kind}),{msg},[$2 ++ {g}{extra}],[],None,false)" for g in (f, f2)]
            got = [x for x in calls(q)]
            rest = ["Histogram::observe(self.stats.session_replay_duration_histogram,Duration::as_seconds_f64($3))"] if k.startswith("screen") else []
            logs = [x.replace(", ", ",") for x in got if x.startswith("LoggerHandle::log")]
            others = [x.replace(", ", ",") for x in got if not x.startswith("LoggerHandle::log")]
            c.ob("handed", len(logs) == 1 and logs[0] in want and others == rest, q, f"{name} hands on {logs} and {others}")
    for q in runs(c, "internal", L + "<internal::InternalLogger as bd_internal_logging::Logger>::log", opaque=[r"LoggerHandle::log$"]):
        on = asked(q, r"Watch::read\(self\.logging_enabled\)")
        got = [x.replace(", ", ",") for x in calls(q) if not x.startswith("Watch::read")]
        want = ["LoggerHandle::log(self.logger_handle,$2,$3,$4,[each $5: { => one(AnnotatedLogField{field:item($5),kind:Ootb})}],[],None,false)"]
        alt = [want[0].replace("{ => one(", "{one(")]
        c.ob("internal", on is not None and got in ([want, alt] if on else [[]]), q, f"turned on: {on}, does {[g[:300] for g in got]}")
    for name, want in (("session_id", "Strategy::session_id(self.session_strategy)"), ("device_id", "Device::id(self.device)")):
        for q in runs(c, "asked", H + name):
            c.ob("asked", m(q.rett) == want and calls(q) == [want], q, f"{name} is {m(q.rett)[:120]}")
    for name, want in (("runtime_snapshot", "ConfigLoader::snapshot(self.runtime_loader)"), ("stats", r"(Clone::clone\()?self\.stats_scope\)?")):
        for q in runs(c, "asked", L + "logger::Logger::" + name):
            c.ob("asked", m(q.rett) == want or re.fullmatch(want, m(q.rett)), q, f"{name} is {m(q.rett)[:120]}")
    for q in runs(c, "asked", H + "should_log_app_update", opaque=["Repository::has_changed$"]):
        c.ob("asked", m(q.rett) == "Repository::has_changed(self.app_version_repo,AppVersion{app_version:$2,app_version_extra:$3})", q, f"an update is {m(q.rett)[:200]}")
    for q in runs(c, "asked", L + "logger::Logger::new_logger_handle", opaque=["Repository::new$"], pure=["std::clone::Clone::clone"]):
        r = re.sub(r"Clone::clone\(([\w.]+)\)", r"\1", m(q.rett))
        T = r"self\.async_log_buffer_tx"
        c.ob("asked", re.fullmatch(rf"LoggerHandle\{{app_version_repo:Repository::new\(self\.store\),device:self\.device,sdk_version:self\.sdk_version,session_strategy:self\.session_strategy,stats:self\.stats,tx:({T}|Sender\{{memory_capacity:{T}\.memory_capacity,memory_capacity_usage:{T}\.memory_capacity_usage,tx:{T}\.tx\}})\}}", r), q, f"a handle is {r[:500]}")
    for q in runs(c, "asked", L + "logger::Logger::new", opaque=[r"Stats::new$"]):
        r = m(q.rett)
        c.ob("asked", re.fullmatch(r"Logger\{async_log_buffer_tx:\$4,device:\$6,runtime_loader:\$2,sdk_version:\$7,session_strategy:\$5,shutdown_state:(Mutex::new\()?\$1\)?,stats:Stats::new\(\$3\),stats_scope:\$3,store:\$8\}", r), q, f"a logger is {r[:400]}")
    for q in runs(c, "asked", L + "logger::Stats::new", opaque=[r"SendCounters::new$"]):
        parts = dict(re.findall(r"(\w+):SendCounters::new\(Scope::scope\(Scope::scope\(\$1,'logger'\),'async_log_buffer'\),'(\w+)'\)", m(q.rett)))
        c.ob("asked", set(parts) == {"log_emission_counters", "field_addition_counters", "field_removal_counters", "state_flushing_counters"} and len(set(parts.values())) == 4, q, f"what became of things is counted as {parts}")
    for q in runs(c, "asked", L + "memory_bound::SendCounters::new"):
        got = {}
        for k in KINDS:
            t = q.e.resolve(q.state, fld(q.rett, k))
            g = re.search(r"BTreeMap::insert\(BTreeMap::new\(\),'result','(\w+)'\)", re.sub(r"#\d+", "", show(t)))
            got[k] = (show(t).split("(")[0], g.group(1) if g else None)
        c.ob("asked", all(v[0] == "Scope::counter_with_labels" and v[1] for v in got.values()) and len({v[1] for v in got.values()}) == 4, q, f"what becomes of a thing is counted as {got}")


def stop(c):
    c.rule("stopped", "a shutdown takes the trigger once, and waits for it, with nothing locked, when it is to block")
    for q in runs(c, "stopped", L + "logger::Logger::shutdown"):
        es = [m(e) for e in q.events() if not re.match(NOISE, repr(e))]
        there = asked(q, r"content\(lock\(self\.shutdown_state\)\) is Some")
        block = asked(q, r"\$2")
        w = [x for x in es if x.startswith("ComponentShutdownTrigger::")]
        after = {m(k): m(v) for k, v in dict(q.x.heap()).items()}
        c.ob("stopped", there is not None and after.get("lock(self.shutdown_state)") == "None", q, f"the trigger left is {after}")
        want = ["ComponentShutdownTrigger::shutdown_blocking(content(lock(self.shutdown_state))?Some.0)"] if there and block else []
        c.ob("stopped", w == want and (not there or block is not None), q, f"there {there}, blocking {block}, calls {w}")
        if w:
            un = [i for i, x in enumerate(es) if x.startswith("unlock:")]
            c.ob("stopped", un and un[0] < es.index(w[0]), q, "waits with the state locked")


def aliases(q):
    """the calls of a path, each result named after what was called"""
    al, out, cnt = [], [], {}

    def ab(s):
        for r, a in reversed(al):
            s = s.replace(r, a)
        return s
    for e in q.trace:
        if e.kind != "call" or e.res is None or re.match(r"Interest|Callsite|Level|__|log::|mpsc::.*::clone", repr(e)):
            continue
        s = ab(repr(e)).replace(", ", ",")
        nm = re.match(r"[\w:]*?(\w+)\(", repr(e).replace("::new(", "("))
        nm = nm.group(1) if nm else "x"
        cnt[nm] = cnt.get(nm, 0) + 1
        a = f"%{nm}{cnt[nm]}"
        al.append((show(e.res), a))
        out.append((a, s))
    return out, lambda t: re.sub(r"Clone::clone\((%?[\w.]+)\)", r"\1", ab(show(t)).replace(", ", ","))


def wiring(c):
    c.rule("wired", "the parts of a logger are joined to each other: each channel has its two ends, all use the one configuration, network state, shutdown and store")
    c.rule("interceptors", "logs pass the counts, the traffic, the network state and the screenshots")
    c.rule("running", "all parts are run together, the flusher if there is one, and the first error ends them")
    c.rule("refused", "what cannot work together is refused")
    p = c.program("bd_logger")
    cfg = Config(opaque=[r"bd_[a-km-z]\w+::", "::new$", r"::run$|process_flushes|::start$|initialize_buffer|periodic_flush"], pure=["std::clone::Clone::clone"], budget=60000)
    good = 0
    for q in c.paths_of(p, fn(p, L + "builder::LoggerBuilder::build"), cfg):
        if q.kind != "ret" or q.why:
            sure = asked(q, r"self\.mobile_features") is True and asked(q, r"self\.stats_scope is Some") is not False
            c.ob("refused", False, q, f"building ends with {q.kind}")
            continue
        mobile, own, handle, inner = (asked(q, x) for x in (r"self\.mobile_features", r"self\.stats_scope is Some", r"self\.component_shutdown_handle is Some", r"self\.internal_logger"))
        r = m(q.rett)
        if r.startswith("Err(anyhow("):
            c.ob("refused", mobile is True and own is True, q, "refused though it could work")
            continue
        es, ab = aliases(q)
        es = [(a, re.sub(r"Clone::clone\((%?[\w.]+)\)", r"\1", s)) for a, s in es]
        if r.startswith("Err("):
            g = re.fullmatch(r"Err\((%\w+)\?Err\.0\)", ab(q.rett))
            c.ob("refused", g is not None and asked(q, re.escape(m(next((e.res for e, _ in [(e, 0) for e in q.trace if e.kind == "call" and e.res is not None and ab(e.res) == (g.group(1) if g else "")]), q.rett))) + " is Ok") is False, q, f"fails with {ab(q.rett)[:150]}")
            continue
        good += 1
        c.ob("refused", not (mobile is True and own is not False), q, "a statistics scope of another's goes with flushing it")

        def one(what):
            got = [(a, s) for a, s in es if s.startswith(what + "(")]
            if not c.ob("wired", len(got) == 1, q, f"{len(got)} of {what}"):
                return "?", []
            t = got[0][1][len(what) + 1:-1]
            parts, d, cur = [], 0, ""
            for ch in t:
                d += ch in "([{<"
                d -= ch in ")]}>"
                if ch == "," and d == 0:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            return got[0][0], parts + [cur]
        rt, ra = one("ConfigLoader::new")
        ctx, ca = one("UninitializedLoggingContext::new")
        buf, ba = one("AsyncLogBuffer::new")
        lg, la = one("Logger::new")
        man, ma = one("Manager::new")
        up, ua = one("BufferUploadManager::new")
        lu, lua = one("LoggerUpdate::new")
        cf, cfa = one("Config::new")
        api, aa = one("Api::new")
        dyn, da = one("DynamicStats::new")
        rm, rma = one("RuntimeManager::new")
        dirs, dira = one("Logger::initialize_buffer_directory")
        if "?" in (rt, ctx, buf, lg, man, up, lu, cf, api, dyn, rm, dirs) or not (len(ca) == 10 and len(ba) == 11 and len(la) == 8 and len(ua) == 7 and len(lua) == 4 and len(cfa) == 3 and len(aa) == 13):
            c.ob("wired", False, q, f"parts are made of other things: {[len(x) for x in (ca, ba, la, ua, lua, cfa, aa)]}")
            continue
        arcs = {a: s for a, s in es if s.startswith(("Arc::new(", "Box::new("))}
        bare = lambda x: re.sub(r"^Clone::clone\((.*)\)$", r"\1", x)
        un = lambda x: (arcs[x][9:-1] if x in arcs else x)
        # the channels
        end = lambda x: re.fullmatch(r"(%channel\d+)\.(0|1|tx|rx)", x)
        ends = {"uploads asked for": ([ca[4], aa[5]], [ua[4]]), "data to upload": ([ca[5], ua[0]], [aa[4]]), "buffers to flush": ([ca[6]], None), "configuration": ([lua[1]], [ba[7]])}
        co = None
        g = re.fullmatch(r"Ok\(\((%\w+),(%channel\d+\.(?:0|tx)),(?:Box::(?:pin|new)\()?coroutine<build>\((.*)\)\)?\)\)", ab(q.rett))
        if not c.ob("wired", g is not None, q, f"what is built is {ab(q.rett)[:300]}"):
            continue
        env = dict(x.split("=", 1) for x in re.split(r",(?=\w+=)", g.group(3)))
        ends["data to upload"][0].append(g.group(2))
        ends["buffers to flush"] = (ends["buffers to flush"][0], [env.get("flush_buffers_rx", "?")] if "flush_buffers_rx" in env else [v for v in env.values() if end(v)])
        used = []
        for what, (tx, rx) in ends.items():
            e = [end(x) for x in tx + rx]
            ok = all(e) and len({x.group(1) for x in e}) == 1 and all(x.group(2) in ("0", "tx") for x in e[:len(tx)]) and all(x.group(2) in ("1", "rx") for x in e[len(tx):]) and len(rx) == 1
            c.ob("wired", ok, q, f"{what}: {tx} -> {rx}")
            used += [e[0].group(1)] if ok else []
        c.ob("wired", len(set(used)) == len(used), q, f"a channel is used for two things: {used}")
        # the one of each
        c.ob("wired", [x for x in (ca[1], ba[9], la[1], ua[1], lua[2], aa[7], ma[2], da[1], rma[0])] == [rt] * 9, q, f"the configuration differs: {[ca[1], ba[9], la[1], ua[1], lua[2], aa[7], ma[2], da[1], rma[0]]}")
        c.ob("wired", ba[10] == aa[10] and un(ba[10]).startswith("%default"), q, f"the network state is {ba[10]} and {aa[10]}")
        P = "self.params."
        c.ob("wired", [ra[0], ca[0], cfa[0], aa[0], dira[0]] == [P + "sdk_directory"] * 5 and ma[0] == dirs + "?Ok.0", q, f"the directory is {[ra[0], ca[0], cfa[0], aa[0], dira[0], ma[0]]}")
        c.ob("wired", ba[2] == la[4] == P + "session_strategy" and la[5] == P + "device" and la[7] == P + "store" and ba[3] == P + "metadata_provider" and ba[4:7] == [P + x for x in ("resource_utilization_target", "session_replay_target", "events_listener_target")], q, f"the parts given are not those used: {ba[2:7]} {la[4:8]}")
        c.ob("wired", aa[1] == P + "api_key" and aa[2] == P + "network" and aa[6] == P + "static_metadata" and any(a == la[6] and s == f"Metadata::sdk_version({P}static_metadata)" for a, s in es), q, f"the network part is given {[aa[1], aa[2], aa[6]]}")
        # shutdown
        handles = [s for a, s in es if a in (ua[2], aa[3])]
        h = {bare(re.fullmatch(r"ComponentShutdownTriggerHandle::make_shutdown\((.*)\)", s).group(1)) for s in handles if re.fullmatch(r"ComponentShutdownTriggerHandle::make_shutdown\((.*)\)", s)} | {bare(ba[8])}
        hs = dict(es)
        hh = list(h)[0] if len(h) == 1 else "?"
        if handle:
            ok = hh == "self.component_shutdown_handle?Some.0" and la[0] == "None"
        else:
            t = re.fullmatch(r"ComponentShutdownTrigger::make_handle\((%\w+)\)", hs.get(hh, ""))
            ok = handle is False and t is not None and la[0] == f"Some({t.group(1)})"
        c.ob("wired", ok and len(handles) == 2, q, f"shutdown is {h} with trigger {la[0]}")
        # statistics
        scope = da[0]
        sub = {a: s for a, s in es if s.startswith("Scope::scope(")}
        root = lambda x: bare(re.fullmatch(r"Scope::scope\((.+),'\w+'\)", sub[x]).group(1) if x in sub else x)
        c.ob("wired", {root(x) for x in (scope, ca[2], la[2], ma[1], ua[5], lua[3], cfa[2], aa[12])} == {scope} and un(ca[3]) == dyn, q, f"the statistics go to {[ca[2], la[2], ma[1], ua[5], lua[3], cfa[2], aa[12]]}")
        if own:
            c.ob("wired", scope == "self.stats_scope?Some.0", q, f"the statistics go to {scope}")
        # flushing statistics
        fh = [(a, s) for a, s in es if s.startswith("Stats::flush_handle(")]
        if mobile:
            st = [(a, s) for a, s in es if s.startswith("Stats::new(")]
            ok = len(fh) == 1 and len(st) == 1 and ca[7] == f"Some({fh[0][0]}?Ok.0.flush_trigger)" and any(v == f"Some({fh[0][0]}?Ok.0.flusher)" for v in env.values())
            g2 = re.fullmatch(rf"Stats::flush_handle\({re.escape(st[0][0])},{re.escape(rt)},(%\w+),self\.params\.sdk_directory,({re.escape(g.group(2))})\)", fh[0][1]) if ok else None
            c.ob("wired", g2 is not None and hs.get(g2.group(1), "") == f"ComponentShutdownTriggerHandle::make_shutdown({hh})", q, f"statistics are flushed by {fh} {ca[7]}")
            if g2 is not None:
                col = re.fullmatch(r"Stats::new\((%\w+),(.*)\)", st[0][1])
                c.ob("wired", col is not None and hs.get(scope, "") == f"Collector::scope({col.group(1)},'')" and un(col.group(2)) == dyn, q, f"the statistics flushed are {st[0][1][:150]}")
        else:
            c.ob("wired", mobile is False and not fh and ca[7] == "None" and not any("flush" in v and "Some(" in v for v in env.values()), q, f"statistics are flushed: {fh}")
        # internal logs
        il = un(aa[11]).replace("?Ok.0", "")
        c.ob("wired", aa[11] == ua[6] and inner is not None and (hs.get(il, "").startswith(f"InternalLogger::new(LoggerHandle{{") and lg + ".async_log_buffer_tx" in hs[il] if inner else il == "NoopLogger"), q, f"internal logs go to {il} {hs.get(il, '')[:80]}")
        # what configurations change
        boxed = {un(x) for x in aa[8].strip("[]").split(",")}
        c.ob("wired", boxed == {rm, cf + "?Ok.0"} and cfa[1] == lu and lua[0] == man + ".0" and ua[3] == man + ".1" and ba[0] == ctx and la[3] == buf + ".1" and g.group(1) == lg, q, f"configurations go to {boxed}, buffers {lua[0]} {ua[3]}")
        vals = set(env.values())
        c.ob("running", {api + "?Ok.0", up + "?Ok.0", buf + ".0", man + ".0"} <= vals, q, f"run are {sorted(vals)}")
        if good <= 2 or mobile != wiring.last:
            wiring.last = mobile
            together(c, q, ab)
    c.ob("wired", good >= 4, None, f"{good} ways to build")
    for q in c.paths_of(p, fn(p, L + "builder::LoggerBuilder::build_dedicated_thread"), Config(opaque=[r"LoggerBuilder::build$"], budget=60000)):
        r = m(q.rett)
        es = [m(e) for e in q.events()]
        h = asked(q, r"self\.component_shutdown_handle is Some")
        if r.startswith("Err(anyhow("):
            c.ob("refused", h is True, q, "refused though it could run")
        elif r.startswith("Ok("):
            sp = [x for x in es if x.startswith("Builder::spawn(")]
            c.ob("running", h is False and r == "Ok((LoggerBuilder::build(self)?Ok.0.0,LoggerBuilder::build(self)?Ok.0.1))" and len(sp) == 1 and "LoggerBuilder::build(self)?Ok.0.2" in sp[0], q, f"gives {r[:150]}, runs {sp}")
            t = [lp for lp in q.loops() if lp.name and "spawn" in str(lp.name)]
            bodies = [st_tr for lp in t for st_tr in lp.iters]
            blk = [m(e) for tr, st in bodies for e in tr if m(e).startswith("Runtime::block_on(")]
            c.ob("running", blk and all("LoggerBuilder::build(self)?Ok.0.2" in b for b in blk), q, f"the thread runs {blk}")
            for tr, st in bodies:
                for e in tr:
                    if m(e).startswith("Runtime::block_on("):
                        for s in spawned(q, e.args[1]):
                            aw = [m(x.args[0]) for x in s.trace if x.kind == "await"]
                            c.ob("running", any("LoggerBuilder::build(self)?Ok.0.2" in x for x in aw), s, f"the thread waits for {aw}")
        else:
            c.ob("refused", h is False and re.fullmatch(r"Err\(.*\?Err\.0\)", r), q, f"fails with {r[:150]}")
    for q in c.paths_of(p, fn(p, L + "async_log_buffer::AsyncLogBuffer::<R>::new"), Config(opaque=[r"bd_[a-km-z]\w+::", r"::new$", "channel$"], pure=["std::clone::Clone::clone"], budget=60000)):
        c.ob("interceptors", q.kind == "ret" and q.rett.op == "agg", q, f"ends with {q.kind}")
        es, ab = aliases(q)
        hs = {a: s for a, s in es}
        arcs = {a: s for a, s in es if s.startswith(("Arc::new(", "Box::new("))}
        ins = q.e.resolve(q.state, fld(q.e.resolve(q.state, fld(q.rett, "0")), "interceptors"))
        names = re.findall(r"%\w+(?:\.\d)?", ab(ins))
        names = [arcs[x][9:-1] if x in arcs else x for x in names]
        what = [hs.get(x.split(".")[0], x).split("::")[0] + ("" if "." not in x else "." + x.split(".")[1]) for x in names]
        c.ob("interceptors", what == ["Reporter", "HTTPTrafficDataUsageTracker", "NetworkQualityInterceptor", "Recorder.2"], q, f"logs pass {what}")
        args = [hs.get(x.split(".")[0], "") for x in names]
        c.ob("interceptors", len(args) == 4 and "$10" in args[0] and args[1].rstrip(")").endswith("$11") and args[2].rstrip(")").endswith("$11"), q, f"they are made of {[a[:120] for a in args]}")
        me = q.e.resolve(q.state, fld(q.rett, "0"))
        get = lambda k: ab(q.e.resolve(q.state, fld(me, k)))
        c.ob("interceptors", re.fullmatch(r"%channel\d+\.1", get("communication_rx")) and ab(q.e.resolve(q.state, fld(q.rett, "1"))) == get("communication_rx")[:-1] + "0", q, f"what is sent comes from {get('communication_rx')}")
        c.ob("interceptors", get("config_update_rx") == "$8" and get("shutdown_trigger_handle") == "$9" and get("session_strategy") == "$3" and get("replayer") == "$2", q, f"made of {[get(k) for k in ('config_update_rx', 'shutdown_trigger_handle', 'session_strategy', 'replayer')]}")
        rr, rec = get("resource_utilization_reporter"), get("events_listener")
        c.ob("interceptors", hs.get(rr, "").startswith("Reporter::new($5,$10") and hs.get(rec, "").startswith("Listener::new($7,$10") and any(s.startswith("Recorder::new($6,$10") for s in hs.values()) and hs.get(get("metadata_collector"), "").startswith("MetadataCollector::new($4)"), q, f"reporters {hs.get(rr)} {hs.get(rec)}")
        c.ob("interceptors", re.search(r"Uninitialized", get("logging_state")) and "$1" in get("logging_state"), q, f"starts as {get('logging_state')[:100]}")


wiring.last = None


def together(c, q, ab):
    """the tasks of the future a builder gives"""
    co = [t for t in subterms(q.rett) if t.op == "agg" and isinstance(t.a[0], tuple) and t.a[0][0] == "coroutine"]
    WANT = {"Api::start": 0, "BufferUploadManager::run": 0, "AsyncLogBuffer::run": 0, "Manager::process_flushes": 0}
    if asked(q, r"self\.mobile_features") is True:
        WANT["Flusher::periodic_flush"] = 0
    for s in spawned(q, co[0]):
        tasks = [e for e in s.trace if e.kind == "call" and repr(e).startswith("future::maybe_done(")]
        joined = [e for e in s.trace if e.kind == "await"]
        c.ob("running", len(joined) == 1 and len(tasks) >= len(WANT), s, f"{len(tasks)} tasks are joined")
        cl = m(joined[0].args[0]) if joined else ""
        done = dict(WANT)
        for e in tasks:
            body = e.args[0]
            for w in spawned(s, body):
                aw = [re.match(r"await:await\((\w+::\w+)\(", m(x)) for x in w.trace if x.kind == "await"]
                for a in aw:
                    if a and a.group(1) in done:
                        done[a.group(1)] += 1
                if not aw:
                    c.ob("running", asked(q, r"self\.mobile_features") is not True, w, "a task does nothing")
        c.ob("running", all(done.values()), s, f"not run: {[k for k, v in done.items() if not v]}")
        r = m(s.rett)
        c.ob("running", r == "Ok(())" or r.startswith("Err(await("), s, f"ends as {r[:100]}")


GROUPS = [front, stop, wiring]
FLOORS = {"guarded": 20, "handed": 16, "asked": 9, "internal": 2, "stopped": 5, "wired": 150, "interceptors": 7, "running": 20, "refused": 20}
