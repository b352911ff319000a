"""A configuration update is applied whole and remembered, or refused and told so."""
from rules import *

M = "bd_logger::client_config"
CU = "bd_logger::<client_config::Config<A> as bd_api::ConfigurationUpdate>"
LU = "bd_logger::<client_config::LoggerUpdate as client_config::ApplyConfig>::apply_configuration"


def err(q):
    return q.kind == "ret" and q.ret.startswith("Err(")


def own(c, p, name):
    return next(f for f in p.by_id.values() if re.fullmatch(rf"{M}::Config(::<A>|<A>)?::{name}", f.id))


def processed(c):
    c.rule("remembered", "an update is applied, then written to the file as received, then its version is remembered; one that could not be applied leaves file and version as they were")
    c.rule("whole-update", "what is applied is every part of the update, each for its own purpose")
    p = c.program("bd_logger")
    f = own(c, p, "process_configuration_update")
    U = "$2.update_type"
    S = re.escape(U) + r"\?Some\.0(\?StateOfTheWorld\.0)?"
    took = set()
    for q in c.paths_of(p, f, Config(opaque=[r"::apply_configuration$"])):
        ap = q.ev(r"^ApplyConfig::apply_configuration\(")
        wr = q.ev(r"^fs::(write|rename|copy)\(|^File::(create|open)|^OpenOptions")
        now = q.heap("self").get("self", "self")
        ver = re.search(r"configuration_version_id:=([^,}]*(\{[^}]*\})?[^,}]*)", now)
        only = set(re.findall(r"(\w+):=", now)) <= {"configuration_version_id", "apply_config", "config_cache_failure"}
        if not c.ob("remembered", q.kind == "ret" and only, q, f"handling an update panics, or changes {now[:100]}"):
            continue
        if q.truth(re.escape(U) + " is Some") is False:
            c.ob("remembered", err(q) and not ap and not wr and ver is None, q, "an update without content is taken")
            took.add("empty")
            continue
        if not c.ob("whole-update", len(ap) == 1, q, "an update is not applied exactly once"):
            continue
        m = re.fullmatch(r"Configuration\{(.*)\}", show(ap[0].args[1]))
        parts = {}
        for n, src in (("bdtail", "bdtail_configuration"), ("buffer", "buffer_config_list"), ("filters", "filters_configuration"), ("workflows", "workflows_configuration")):
            w = rf"MessageField::(as_ref|into_option)\({S}\.{src}\)(#\d+)?|{S}\.{src}\.0"
            there = q.truth(rf"({w}) is Some")
            if there is None:
                w = rf"MessageField::(unwrap_or_default|get_or_default)\({S}\.{src}\)|{S}\.{src}(\.0)?"
            else:
                w = rf"({w})\?Some\.0" if there else r"default\([^()]*\)|Default::default\(\)|\w+::(default|new)\(\)(#\d+)?|\w+\{.*\}"
            c.ob("whole-update", m is not None and re.search(rf"(^|,){n}:({w})(,|$)", m.group(1)) is not None, q, f"{n} is not the update's {src}: {show(ap[0].args[1])[:200]}")
        t = [v for k, v in q.state.facts.items() if re.fullmatch(r"await\(ApplyConfig::apply_configuration\(.*\)(#\d+)?\) is Ok", show(k))]
        if t == [False]:
            c.ob("remembered", err(q) and not wr and ver is None, q, "an update that could not be applied is remembered, or no error")
            took.add("refused")
            continue
        if not c.ob("remembered", t == [True], q, "whether the update could be applied is not asked"):
            continue
        b = r"(Message::write_to_bytes\(\$2\)(#\d+)?)"
        if q.truth(b + " is Ok") is False:
            c.ob("remembered", err(q) and not wr and ver is None, q, "an update that cannot be written is remembered")
            continue
        evs = [repr(e) for e in q.trace]
        c.ob("remembered", q.ret == "Ok(())" and len(wr) == 1 and re.match(rf"fs::write\(self\.configuration_file, {b}\?Ok\.0\)", repr(wr[0])) is not None, q, f"what is written is {[repr(e)[:100] for e in wr]}")
        c.ob("remembered", ver is not None and re.fullmatch(r"Some\(\$2\.version_nonce\)", ver.group(1)) is not None, q, f"the version remembered is {ver and ver.group(1)}")
        if wr:
            c.ob("remembered", q.before(r"^await:await\(ApplyConfig::apply_configuration", r"^fs::write\(") is not False and next(n for n, e in enumerate(q.trace) if e.name.startswith("await") or "apply_configuration" in repr(e)) < next(n for n, e in enumerate(q.trace) if repr(e).startswith("fs::write(")), q, "the update is written before it is applied")
        took.add("applied")
    c.ob("remembered", took == {"empty", "refused", "applied"}, f, f"the ways through are {sorted(took)}")
    c.rule("read-once", "the file is removed as soon as it was read and before what it holds is used, so that a file that breaks the start is not read again; what it holds is handled like an update")
    f = own(c, p, "try_load_persisted_config_helper")
    R = r"fs::read\(self\.configuration_file\)(#\d+)?"
    D = r"fs::remove_file\(self\.configuration_file\)(#\d+)?"
    P = rf"Message::parse_from_(bytes|tokio_bytes|reader)\({R}\?Ok\.0\)(#\d+)?"
    n = 0
    for q in c.paths_of(p, f, Config(opaque=[r"::process_configuration_update$"])):
        pr = q.ev(r"^Config::process_configuration_update\(")
        if q.kind == "panic":
            c.ob("read-once", bool(q.ev(r"^fs::remove_file\(self\.configuration_file\)")), q, "the start panics with the file still there")
            continue
        okr, okd, okp = q.truth(R + " is Ok"), q.truth(D + " is Ok"), q.truth(P + " is Ok")
        rm, pa = q.idx(r"^fs::remove_file\(self\.configuration_file\)"), q.idx(r"^Message::parse_from")
        c.ob("read-once", len(q.idx(r"^fs::read\(self\.configuration_file\)")) == 1, q, "the file is not read once")
        if okr is False:
            c.ob("read-once", not pr, q, "an update is handled without a file")
            continue
        c.ob("read-once", len(rm) == 1 and (not pa or rm[0] < pa[0]), q, "what the file holds is used before the file is removed")
        if okd is False or okp is False:
            c.ob("read-once", not pr, q, "an update is handled that cannot be read, or whose file could not be removed")
            continue
        c.ob("read-once", okd is True and okp is True and len(pr) == 1 and re.fullmatch(P + r"\?Ok\.0", show(pr[0].args[1])) is not None, q, "what the file holds is not handled")
        c.ob("read-once", bool(q.ev(r"^await:await\(Config::process_configuration_update")), q, "what the file holds is not handled to its end")
        n += 1
    c.ob("read-once", n > 0, f, "a file that was read is never handled")
    c.rule("told", "every update is answered: accepted without a complaint, refused with one that names its version and the reason; and a stream is opened with the version last applied")
    n = set()
    for q in c.paths_of(p, f"{CU}::try_apply_config", Config(opaque=[r"::process_configuration_update$"]), is_async=True):
        U2 = r"FromResponse::from_response\(\$2\)(#\d+)?"
        pr = q.ev(r"^Config::process_configuration_update\(")
        if q.truth(U2 + " is Some") is False:
            c.ob("told", q.ret == "None" and not pr, q, "something other than an update is answered")
            continue
        okk = q.truth(rf"await\(Config::process_configuration_update\(self,{U2}\?Some\.0\)(#\d+)?\) is Ok")
        e = rf"await\(Config::process_configuration_update\(self,{U2}\?Some\.0\)(#\d+)?\)\?Err\.0"
        nack = "None" if okk else rf"Some\(Nack\{{error_details:(to_string\({e}\)|cat\([^{{}}]*{e}[^{{}}]*\)),.*version_nonce:{U2}\?Some\.0\.version_nonce\}}\)"
        c.ob("told", len(pr) == 1 and okk is not None and re.search(rf"ConfigurationUpdateAck\{{.*nack:{nack}[,}}]", q.ret) is not None and q.ret.startswith("Some("), q, f"an update that was {'applied' if okk else 'refused'} is answered with {q.ret[:300]}")
        if okk:
            c.ob("told", re.search(rf"last_applied_version_nonce:{U2}\?Some\.0\.version_nonce[,}}]", q.ret) is not None, q, "the version said to be applied is not the update's")
        n.add(okk)
    c.ob("told", n == {True, False}, f"{CU}::try_apply_config", "updates are not told apart")
    for q in c.paths_of(p, f"{CU}::partial_handshake"):
        some_ = q.truth(r"self\.configuration_version_id is Some")
        v = re.search(r"configuration_version_nonce:([^,]*),", q.ret)
        c.ob("told", some_ is not None and v is not None and (v.group(1) == "self.configuration_version_id?Some.0" if some_ else v.group(1) == "''" or v.group(1).startswith("default(") or v.group(1) in ("new()", "String::new()")), q, f"a stream is opened with the version {v and v.group(1)}")
    for q in c.paths_of(p, f"{CU}::try_load_persisted_config", Config(opaque=[r"helper$"]), is_async=True):
        c.ob("told", bool(q.ev(r"^await:await\(Config::try_load_persisted_config_helper\(self\)")) and q.kind == "ret", q, "the file is not read")


def applied(c):
    c.rule("whole", "a configuration with a part that cannot be used is refused before anything was changed; otherwise the buffers are updated, and then the logger is given everything at once")
    p = c.program("bd_logger")
    qs = c.paths_of(p, LU, Config(opaque=[r"Manager::update_from_config$", r"WorkflowsConfiguration::new$", r"FilterChain::new$", r"BufferProducers::new$", r"BufferSelector::new$", r"TailConfigurations::new$"]), is_async=True)
    UP = r"Manager::update_from_config\(self\.buffer_manager,\$2\.buffer,!\(?0==len\(\$2\.bdtail\.active_streams\)\)?\)(#\d+)?"
    SEL = r"BufferSelector::new\(\$2\.buffer\)(#\d+)?"
    PRO = r"BufferProducers::new\(self\.buffer_manager\)(#\d+)?"
    TAIL = r"TailConfigurations::new\(\$2\.bdtail,.*\)(#\d+)?"
    n = {"ok": 0, "err": 0}
    for q in qs:
        if q.kind == "panic":
            c.ob("whole", "debug_assert" in q.why if q.why else False, q, "applying a configuration panics")
            continue
        up = [e for e in q.ev(r"^Manager::update_from_config\(", deep=False)]
        aw = [x for x, e in enumerate(q.trace) if re.match(r"await:await\(Manager::update_from_config\(", repr(e))]
        send = q.ev(r"^Sender::send\(self\.config_update_tx", deep=False)
        done = [v for k, v in q.state.facts.items() if re.fullmatch(rf"await\({UP}\) is Ok", show(k))]
        if err(q):
            n["err"] += 1
            c.ob("whole", not send, q, "the logger is given a configuration that is refused")
            if done == [True]:
                c.ob("whole", re.fullmatch(rf"Err\(({PRO}|{TAIL})\?Err\.0\)", q.ret) is not None, q, "a configuration is refused after the buffers were updated to it")
            continue
        n["ok"] += 1
        if not c.ob("whole", q.ret == "Ok(())" and done == [True] and len(send) == 1 and len(aw) == 1, q, "a configuration is accepted without being applied"):
            continue
        cu = show(send[0].args[1])
        en = q.truth(r"Watch::read\(self\.workflows_enabled_flag\)(#\d+)?")
        wf = r"WorkflowsConfiguration::new\(\$2\.workflows\)(#\d+)?" if en else r"(default\(.*\)|WorkflowsConfiguration\{.*\}|Default::default\(.*\)|WorkflowsConfiguration::default\(\)(#\d+)?)"
        for name, pat in (("buffer_producers", PRO + r"\?Ok\.0"), ("buffer_selector", SEL + r"\?Ok\.0"), ("filter_chain", r"FilterChain::new\(\$2\.filters\)(#\d+)?\.0"), ("tail_configs", TAIL + r"\?Ok\.0"), ("workflows_configuration", wf)):
            c.ob("whole", re.search(rf"[{{,]{name}:{pat}[,}}]", cu) is not None, q, f"the logger's {name} are not the configuration's: {cu[:300]}")
        c.ob("whole", en is not None, q, "whether workflows are enabled is not asked")
        pi = [x for x, e in enumerate(q.trace) if repr(e).startswith("BufferProducers::new(")]
        c.ob("whole", len(pi) == 1 and pi[0] > aw[0], q, "the logger is given the buffers of before the update")
        c.ob("whole", bool(q.ev(r"^await:await\(Sender::send\(self\.config_update_tx", deep=False)), q, "the logger is not given the configuration")
        c.ob("whole", bool(q.ev(r"^Counter::inc_by\(self\.filter_config_parse_failure, FilterChain::new\(\$2\.filters\)(#\d+)?\.1\)", deep=False)), q, "filters that could not be built are not counted")
    c.ob("whole", n["ok"] > 0 and n["err"] > 1, LU, "configurations are never accepted, or never refused")
    c.rule("producers", "the logger has a producer for each buffer, and knows continuous and trigger buffers apart")
    f = next(f for f in p.by_id.values() if re.search(r"logging_state::BufferProducers::new$", f.id))
    for q in c.paths_of(p, f, Config(opaque=[r"Manager::buffers$"])):
        if err(q):
            continue
        r = q.ret
        B = r"(Manager::buffers\(\$1\)(#\d+)?)"
        c.ob("producers", q.kind == "ret" and re.search(rf"[{{,]buffers:(collect:Result\()?\[each {B}: ", r) is not None and "new_thread_local_producer" in r, q, f"the producers are {r[:200]}")
        for ty, nm in (("CONTINUOUS", "continuous_buffer_ids"), ("TRIGGER", "trigger_buffer_ids")):
            m = re.search(rf"[{{,]{nm}:(phi:\w+|[^{{]*\[each {B}: \{{[^{{}}]*(is {ty}) => one)", r)
            okk = False
            if m and m.group(1).startswith("phi:"):
                for lp in q.loops():
                    v = carried(q, lp, re.escape(m.group(1)))
                    if v is None:
                        continue
                    okk = True
                    for k, (tr, st) in enumerate(lp.iters):
                        i = Iter(q, tr, st)
                        is_ty = i.truth(rf"item\({B}\)\.1\.0 is {ty}")
                        other = i.truth(rf"item\({B}\)\.1\.0 is {'TRIGGER' if ty == 'CONTINUOUS' else 'CONTINUOUS'}")
                        mine = is_ty is True or is_ty is None and other is False
                        grown = v[1].get(k) is not None and show(v[1][k]) != m.group(1)
                        c.ob("producers", grown == mine and (not grown or re.search(rf"item\({B}\)\.0", show(v[1][k])) is not None), i, f"a buffer is {'put among' if grown else 'left out of'} the {nm}")
            c.ob("producers", okk or m is not None and not m.group(1).startswith("phi:"), q, f"{nm} are {r[:100]}")


def tails(c):
    c.rule("streams", "a stream whose condition cannot be used is left out and counted, the others stay; without streams nothing is streamed")
    p = c.program("bd_logger")
    f = f"{M}::TailConfigurations::new"
    A = r"\$1\.active_streams"
    MT = rf"(MessageField::into_option\(item\({A}\)\.matcher\)|item\({A}\)\.matcher(\.0)?)"
    TN = rf"Tree::new\({MT}\?Some\.0\)(#\d+)?"
    n = 0
    for q in c.paths_of(p, f, Config(opaque=[r"::Tree::new$"])):
        if not c.ob("streams", q.kind == "ret" and q.ret.startswith("Ok("), q, "a stream makes the whole configuration unusable"):
            continue
        if q.truth(rf"0==len\({A}\)"):
            c.ob("streams", re.fullmatch(r"Ok\(TailConfigurations\{inner:None\}\)", q.ret) is not None, q, "logs are streamed without a stream")
            continue
        n += 1
        x, y = rf"!{MT} is Some => one\(\(item\({A}\)\.stream_id,None\)\)", rf"({MT} is Some & {TN} is Ok|{TN} is Ok & {MT} is Some) => one\(\(item\({A}\)\.stream_id,Some\({TN}\?Ok\.0\)\)\)"
        c.ob("streams", re.search(rf"active_streams:\[each {A}: \{{({x}; {y}|{y}; {x})\}}\]", q.ret) is not None, q, f"the streams are {q.ret[:300]}")
        c.ob("streams", re.search(r"stream_producer:call:\$2\(\)(#\d+)?", q.ret) is not None, q, "the streams' producer is not the one given")
        for lp in q.loops():
            for i in [Iter(q, tr, st) for tr, st in lp.iters]:
                bad = i.truth(TN + " is Ok") is False
                c.ob("streams", len(i.ev(r"^call:\$3\(", deep=False)) == (1 if bad else 0), i, "a stream left out is not counted, or one kept is")
    c.ob("streams", n > 0, f, "streams are never kept")
    c.rule("streamed", "a log is streamed to exactly the streams without a condition or whose condition it meets, in one record, and to none otherwise")
    S = r"self\.inner\?Some\.0\.active_streams"
    IT = rf"item\({S}\)"
    DM = rf"Tree::do_match\({IT}\.1\?Some\.0,\$3\.log_level,\$3\.log_type,\$3\.message,\$3\.fields\)(#\d+)?"
    ONE = rf"one\((Chars::as_str\({IT}\.0\)(#\d+)?|{IT}\.0)\)"
    x, y = rf"({DM} & {IT}\.1 is Some|{IT}\.1 is Some & {DM}) => {ONE}", rf"!{IT}\.1 is Some => {ONE}"
    LIST = rf"\[each {S}: \{{({x}; {y}|{y}; {x})\}}\]"
    f = f"{M}::TailConfigurations::maybe_stream_log"
    n = 0
    for q in c.paths_of(p, f, Config(opaque=[r"::Tree::do_match$", r"write_to_stream_buffer$"])):
        w = q.ev(r"^Inner::write_to_stream_buffer\(", deep=False)
        if not w:
            none = q.truth(r"self\.inner is Some") is False or q.truth(rf"0==len\({LIST}\)") is True
            c.ob("streamed", none and q.ret == "Ok(false)", q, "a log with a stream is not streamed")
            continue
        n += 1
        c.ob("streamed", len(w) == 1 and re.fullmatch(rf"(iter\()?{LIST}\)?", show(w[0].args[2])) is not None and show(w[0].args[3]) == "$3" and show(w[0].args[0]) == "self.inner?Some.0.stream_producer", q, f"what is streamed is {show(w[0].args[2])[:200]}")
        c.ob("streamed", q.truth(rf"0==len\({LIST}\)") is False, q, "a log is streamed to no stream")
        okk = q.truth(r"Inner::write_to_stream_buffer\(.*\)(#\d+)? is Ok")
        c.ob("streamed", q.ret == "Ok(true)" if okk else err(q), q, "whether the log was streamed is not told")
    c.ob("streamed", n > 0, f, "nothing is ever streamed")
    f = f"{M}::Inner::write_to_stream_buffer"
    for q in c.paths_of(p, f, Config(opaque=[r"::make_log$"])):
        e = q.ev(r"^fb::make_log\(", deep=False)
        if not c.ob("streamed", len(e) == 1 and q.kind == "ret", q, "a record is not made once"):
            continue
        a = [show(x) for x in e[0].args]
        c.ob("streamed", a[1:9] == ["$4.log_level", "$4.log_type", "$4.message", "$4.fields.captured_fields", "$4.session_id", "$4.occurred_at", "iter::empty()", "$3"] or a[1:7] == ["$4.log_level", "$4.log_type", "$4.message", "$4.fields.captured_fields", "$4.session_id", "$4.occurred_at"] and a[8] == "$3", q, f"the record is made of {a[1:9]}")
        for lp in q.loops():
            for i in [Iter(q, tr, st) for tr, st in lp.iters]:
                w = i.ev(r"^(RingBufferProducer::write|Producer::write)\(", deep=False)
                c.ob("streamed", len(w) == 1 and show(w[0].args[1]).startswith("carg(fb::make_log"), i, "a record is not written once")


GROUPS = [processed, applied, tails]
FLOORS = {"remembered": 12, "whole-update": 8, "read-once": 8, "told": 6, "whole": 12, "producers": 5, "streams": 8, "streamed": 10}
