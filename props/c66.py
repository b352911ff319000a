"""Every runtime setting governs its own behaviour, and a setting's watch tells what it is now."""
from rules import *
from models import ret
from c46 import facts
from c61 import m, asked, fn

R = "bd_runtime::runtime::"
LOG, API = "bd_logger::", "bd_api::api::Api"
OTHERS = r"bd_[a-km-z]\w+::"
S = r"setting\(([\w.]+)\)"
# where a setting is used, and as what: every use of a setting there has one of the forms given for it
USES = [
    ("bd_logger", LOG + "consumer::BatchBuilder::limit_reached", [], {
        "log_uploader.batch_size": r"len\(self\.logs\)<=?@|@<=?len\(self\.logs\)|len\(self\.logs\)==@",
        "log_uploader.batch_size_bytes": r"self\.total_bytes<=?@|@<=?self\.total_bytes|self\.total_bytes==@"}),
    ("bd_logger", LOG + "consumer::CompleteBufferUpload::new", [], {
        "workflows.flush_buffer_lookback_ms": r"Duration::is_zero\(@\)|now_utc\(\),@\)|@==const:time::Duration::ZERO|const:time::Duration::ZERO==@"}),
    ("bd_logger", LOG + "service::RetryPolicy::should_retry", [], {"log_uploader.retry_count": r"self\.attempts<=?@|@<=?self\.attempts|self\.attempts==@"}),
    ("bd_logger", LOG + "service::RetryPolicy::remaining", [], {"log_uploader.retry_count": r"sub\(@,self\.attempts\)|\(?@-self\.attempts|self\.attempts<=?@|@<=?self\.attempts"}),
    ("bd_logger", LOG + "service::BackoffProvider::backoff", [], {
        "log_uploader.initial_retry_backoff_ms": r"with_initial_interval\([^@]*?,(Duration::unsigned_abs\()?@\)", "log_uploader.max_retry_backoff_ms": r"with_max_interval\(.*?,(Duration::unsigned_abs\()?@\)"}),
    ("bd_logger", LOG + "service::ratelimit::Rate::num", [], {"upload_ratelimit.bytes_count_per_period": r"^[^@]*@[^@]*$"}),
    ("bd_logger", LOG + "service::ratelimit::Rate::per", [], {"upload_ratelimit.period_ms": r"^[^@]*@[^@]*$"}),
    ("bd_logger", LOG + "<internal::InternalLogger as bd_internal_logging::Logger>::log", [OTHERS], {"internal_logging.enabled": r"^!?@$"}),
    ("bd_logger", LOG + "<internal_report::Reporter as bd_log_primitives::LogInterceptor>::process", [OTHERS], {"internal_logging.periodic_logs.enabled": r"^!?@$"}),
    ("bd_logger", LOG + "log_replay::ProcessingPipeline::new", [OTHERS], {
        "filter_chain.enabled": r"filter_chain_enabled:@", "workflows.enabled": r"^!?@$"}),
    ("bd_logger", LOG + "log_replay::ProcessingPipeline::update!", [OTHERS], {"workflows.enabled": r"^!?@$"}),
    ("bd_workflows", "bd_workflows::engine::StateStore::maybe_store!", [], {"workflows.persistence_write_interval_ms": r"last_persisted\?Some\.0\)<=?@|@<=?Instant::(duration_since|elapsed|saturating_duration_since)\("}),
    ("bd_workflows", "bd_workflows::engine::WorkflowsEngine::new", [r"Resolver", r"StateStore::.*new", r"Stats::new", r"Negotiator::.*new", r"Processor::.*new"], {
        "workflows.traversals_global_count_limit": r"traversals_count_limit:@|TryFrom::try_from\(@\)", "workflows.state_periodic_write_interval_ms": r"state_periodic_write_interval:@|interval(_at)?\([^@]*@"}),
    ("bd_client_stats", "bd_client_stats::Stats::flush_handle", [r"flush_handle_helper", r"FileManager::.*new"], {
        "stats.disk_flush_interval_ms": r"flush_handle_helper\(self,[^@%]*receiver:@\}", "stats.upload_flush_interval_ms": r"flush_handle_helper\(self,[^@]*%[^@]*receiver:@\}"}),
    ("bd_client_stats", "bd_client_stats::DynamicStats::new", [r"bd_client_stats_store"], {"stats.max_dynamic_stats": r"BoundedCollector::new\(Some\(@\)\)"}),
    ("bd_client_stats", "bd_client_stats::file_manager::FileManager::get_or_create_snapshot!", [], {
        "stats.max_aggregated_files": r"len\(.*<=?@|@<=?.*len\(|len\(.*==@", "stats.max_aggregation_window_per_file_ms": r"period_start\)[^@]*@"}),
    ("bd_client_stats", "bd_client_stats::file_manager::FileManager::get_or_create_pending_upload!", [], {"stats.max_aggregation_window_per_file_ms": r"period_start\)[^@]*@"}),
    ("bd_api", API + "::backoff_policy", [], {
        "api.initial_backoff_interval_ms": r"with_initial_interval\([^@]*?,(Duration::unsigned_abs\()?@\)", "api.max_backoff_interval_ms": r"with_max_interval\(.*?,(Duration::unsigned_abs\()?@\)"}),
    ("bd_api", API + "::maybe_kill_client!", [], {"client_kill.generic_kill_duration_ms": r"Duration::is_zero\(@\)|Add::add\([^@]*now[^@]*,@\)|@==const:time::Duration::ZERO|const:time::Duration::ZERO==@"}),
    ("bd_buffer", "bd_buffer::ring_buffer::Manager::resolve_stream_buffer_update!", [], {"buffers.stream_buffer_size_bytes": r"RingBuffer\w*\{|set_len\([^@]*@\)|RingBuffer\w*::new\(|resize\("}),
    ("bd_session_replay", "bd_session_replay::Recorder::new", [], {
        "session_replay.screens.enabled": r"is_periodic_reporting_enabled:@", "session_replay.screens.interval_ms": r"reporting_interval_rate:@|unsigned_abs\(@\)", "session_replay.screenshots.enabled": r"is_capture_screenshots_enabled:@"}),
    ("bd_resource_utilization", "bd_resource_utilization::Reporter::new", [], {
        "resource_utilization.enabled": r"is_enabled:@", "resource_utilization.reporting_interval_ms": r"reporting_interval_rate:(Duration::unsigned_abs\()?@|unsigned_abs\(@\)"}),
]
# what a part keeps a watch of, to follow it while it runs
KEPT = {
    "bd_logger::consumer::Flags": {"max_batch_size_logs": "log_uploader.batch_size", "max_match_size_bytes": "log_uploader.batch_size_bytes", "batch_deadline_watch": "log_uploader.batch_deadline_ms",
                                   "upload_lookback_window_feature_flag": "workflows.flush_buffer_lookback_ms"},
    "bd_logger::log_replay::ProcessingPipeline": {"workflows_enabled_flag": "workflows.enabled", "filter_chain_enabled_flag": "filter_chain.enabled"},
    "bd_logger::client_config::LoggerUpdate": {"workflows_enabled_flag": "workflows.enabled"},
    "bd_logger::internal::InternalLogger": {"logging_enabled": "internal_logging.enabled"},
    "bd_api::api::Api": {"max_backoff_interval": "api.max_backoff_interval_ms", "initial_backoff_interval": "api.initial_backoff_interval_ms", "compression_enabled": "api.requests_compression_enabled",
                         "generic_kill_duration": "client_kill.generic_kill_duration_ms", "unauthenticated_kill_duration": "client_kill.unauthenticated_kill_duration_ms"},
    "bd_session_replay::Recorder": {"is_periodic_reporting_enabled_flag": "session_replay.screens.enabled", "reporting_interval_rate_flag": "session_replay.screens.interval_ms",
                                    "is_capture_screenshots_enabled_flag": "session_replay.screenshots.enabled"},
    "bd_resource_utilization::Reporter": {"is_enabled_flag": "resource_utilization.enabled", "reporting_interval_flag": "resource_utilization.reporting_interval_ms"},
    "bd_events::Listener": {"is_enabled_flag": "platform_events.enabled"},
}
OFF = ["internal_logging.enabled", "internal_logging.periodic_logs.enabled", "resource_utilization.enabled", "session_replay.screens.enabled", "session_replay.screenshots.enabled",
       "workflows.enabled", "filter_chain.enabled", "platform_events.enabled"]
NEVER_ZERO = ["resource_utilization.reporting_interval_ms", "session_replay.screens.interval_ms", "stats.disk_flush_interval_ms", "stats.upload_flush_interval_ms", "upload_ratelimit.period_ms",
              "workflows.state_periodic_write_interval_ms", "stats.max_aggregation_window_per_file_ms", "log_uploader.batch_size", "log_uploader.batch_size_bytes", "log_uploader.batch_deadline_ms",
              "upload_ratelimit.bytes_count_per_period", "buffers.stream_buffer_size_bytes", "stats.max_aggregated_files", "stats.max_dynamic_stats", "workflows.traversals_global_count_limit"]
AT_MOST = [("api.initial_backoff_interval_ms", "api.max_backoff_interval_ms"), ("log_uploader.initial_retry_backoff_ms", "log_uploader.max_retry_backoff_ms")]
UNIT = {"days": 86400000, "hours": 3600000, "minutes": 60000, "seconds": 1000, "milliseconds": 1}
_names = {}


def settings(c):
    """every setting: (the name it is read under, its default)"""
    if not _names:
        p = c.program("bd_runtime")
        for i in p.impls:
            if i["trait"].endswith("runtime::FeatureFlag"):
                it = dict(i["items"])
                path = {q.ret for q in c.paths_of(p, it["path"])}
                default = {m(q.x.ret) for q in c.paths_of(p, it["default"])}
                t = i["self"].split("::")
                if len(path) != 1 or len(default) != 1:
                    raise Anchor(f"the setting {t[-1]} has no one name or default")
                _names["::".join(t[-2:])] = (path.pop().strip("'"), default.pop())
    return _names


def of_type(c, t):
    g = re.findall(r"\bbd_runtime::runtime::((?!Watch|ConfigLoader)\w+::\w+)", t)
    return settings(c).get(g[-1], (None, None))[0] if g else None


def view(t, s):
    return re.sub(S, "%", t.replace(f"setting({s})", "@"))


def value(d):
    if d in ("true", "false"):
        return d == "true"
    if re.fullmatch(r"\d+", d):
        return int(d)
    if "ZERO" in d:
        return 0
    g = re.fullmatch(r"(?:\w+)::(\w+?)\((\d+)\)", d)
    return int(g[2]) * UNIT[g[1]] if g and g[1] in UNIT else None


def uses(c):
    c.rule("own-behaviour", "each setting is used as what its name says: limits as limits, intervals as intervals, switches as switches; no setting stands in for another")

    def setting(e, st, f, args, ctx):
        t = " ".join(str(g) for g in f.get("ga") or [])
        name = of_type(c, t)
        return ret(mk("call", f"setting({name})", (), 0), st) if name else None
    model = {"Watch::" + x: setting for x in ("read", "read_mark_update", "into_inner")}
    for crate, name, opaque, forms in USES:
        p = c.program(crate)
        f = fn(p, name.rstrip("!"))
        seen = set()
        for q in c.paths_of(p, f, Config(model=model, opaque=opaque, budget=60000), is_async=name.endswith("!")):
            texts = [m(x) for x in q.events()] + [re.sub(r"#\d+", "", str(x)) for x in facts(q)] + ([m(show(q.x.ret))] if q.x.ret is not None else [])
            texts = [re.sub(r"(setting\([\w.]+\))\(\)", r"\1", t) for t in texts]
            bad = set()
            texts = [t.replace(", ", ",") for t in texts]
            for t in texts:
                for s in set(re.findall(S, t)):
                    # seen from this one (@), the others are just settings (%)
                    want = forms.get(s)
                    if want and re.search(want, view(t, s)):
                        seen.add(s)
                    elif not want or not any(re.search(want, view(u, s)) for u in texts):
                        bad.add((s, t[:160]))
            c.ob("own-behaviour", not bad, q, f"a setting is used as something else: {sorted(bad)[:2]}")
        c.ob("own-behaviour", seen == set(forms), f, f"not used here: {sorted(set(forms) - seen)}")


def kept(c):
    c.rule("followed", "a part that follows a setting while it runs holds the watch of that setting")
    for adt, want in KEPT.items():
        p = c.program(adt.split("::")[0])
        a = [x for x in p.adts.values() if x["id"] == adt]
        if not a:
            raise Anchor(adt)
        has = {f: of_type(c, str(t)) for v in a[0]["variants"] for f, t, *_ in v[1]}
        for field, name in want.items():
            c.ob("followed", has[field] == name if field in has else name in has.values(), None, f"{adt}.{field} follows {has.get(field)}, not {name}")


def defaults(c):
    c.rule("safe-default", "until the server says otherwise: optional parts are off, no client is stopped for nothing, no interval or limit is zero, and a first wait is not longer than the longest")
    d = {name: value(x) for name, x in settings(c).values()}
    for name in OFF:
        c.ob("safe-default", d.get(name) is False, None, f"{name} is {d.get(name)}")
    for name in NEVER_ZERO:
        c.ob("safe-default", d.get(name) is not None and d[name] > 0, None, f"{name} is {d.get(name)}")
    for a, b in AT_MOST:
        c.ob("safe-default", d.get(a) is not None and d.get(b) is not None and 0 < d[a] <= d[b], None, f"{a} is {d.get(a)}, {b} is {d.get(b)}")
    c.ob("safe-default", d.get("client_kill.generic_kill_duration_ms") == 0, None, "a client is stopped without being told to")


def watch(c):
    c.rule("now", "reading a setting gives what it is now; it has changed exactly if it did since it was last marked as seen; a source that is gone is no change, and waiting on it an error")
    c.rule("own-type", "a watch is given out only for the type of its setting")
    p = c.program("bd_runtime")
    W = R + "Watch::<T, P>::"

    def paths(name, **kw):
        return c.paths_of(p, fn(p, W + name), **kw)
    for name, call in (("read", "Receiver::borrow(self.watch)"), ("read_mark_update", "Receiver::borrow_and_update(self.watch)")):
        for q in paths(name):
            c.ob("now", m(q.ret) == call and [m(e) for e in q.events()] == [call], q, f"{name} is {m(q.ret)}")
    for q in paths("into_inner"):
        c.ob("now", m(q.ret) == "self.watch" and q.events() == [], q, f"into_inner is {m(q.ret)}")
    for q in paths("has_changed"):
        call = "Receiver::has_changed(self.watch)"
        ok = q.decide(mk("is", q.events()[0].res, "Ok")) if q.events() else None
        c.ob("now", [m(e) for e in q.events()] == [call] and m(q.ret) in ([f"{call}?Ok.0", str(asked(q, re.escape(call) + r"\?Ok\.0")).lower()] if ok else ["false"]) and ok is not None, q, f"there: {ok}, says {m(q.ret)}")
    for q in paths("changed", is_async=True):
        es = q.events()
        aw = [e for e in es if e.kind == "await"]
        ok = q.decide(mk("is", aw[0].res, "Ok")) if aw else None
        got = m(q.ret)
        c.ob("now", len(es) == 2 and m(es[0]) == "Receiver::changed(self.watch)" and ok is not None and got.startswith("Ok(" if ok else "Err("), q, f"gone: {not ok}, says {got}")
    kinds = {"u32": "Int", "bool": "Bool", "time::Duration": "Duration"}
    for t, k in kinds.items():
        seen = set()
        for q in c.paths_of(p, fn(p, f"bd_runtime::<runtime::InternalWatchKind as runtime::TypedWatch<{t}>>::typed_watch")):
            mine = asked(q, rf"self is {k}")
            if mine is None and any(asked(q, f"self is {x}") for x in kinds.values() if x != k):
                mine = False
            seen.add(mine)
            want = f"Ok(Sender::subscribe(self?{k}.0.watch))" if mine else "Err("
            c.ob("own-type", mine is not None and m(q.ret).startswith(want), q, f"a {t} watch: {mine}, gives {m(q.ret)}")
        c.ob("own-type", seen == {True, False}, None, f"{t}: {seen}")
        for q in c.paths_of(p, fn(p, f"bd_runtime::<runtime::InternalWatchKind as std::convert::From<({t}, tokio::sync::watch::Sender<{t}>)>>::from")):
            c.ob("own-type", m(q.ret) == f"{k}(InternalWatch{{default:$1.0,watch:$1.1}})", q, f"a {t} watch is entered as {m(q.ret)}")


GROUPS = [uses, kept, defaults, watch]
FLOORS = {"own-behaviour": 40, "followed": 19, "safe-default": 25, "now": 7, "own-type": 9}
