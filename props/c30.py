"""Logs wait for the first configuration and are then handled first, in order; one message at a time, each completely."""
from rules import *

CR = ("bd_logger", "bd_session", "bd_log_primitives", "bd_completion")
AB = "bd_logger::async_log_buffer::AsyncLogBuffer::<R>"
LS = "self.logging_state"


def before_config(c):
    p = c.program(*CR)
    c.rule("kept", "a log arriving before the first configuration is put into the waiting buffer, and an error reported when it is refused")
    c.rule("replayed", "a log arriving later is handed to processing, once, and the outcome reported")
    c.rule("released", "a caller waiting for a kept log is released once it is kept")
    for q in c.paths_of(p, f"{AB}::write_log", Config(opaque=[r"::PreConfigBuffer::.*push$", r"LogReplay::replay_log$"])):
        un = q.truth(re.escape(LS) + " is Uninitialized")
        if un is None:
            un = q.truth(re.escape(LS) + " is Initialized") is False
        push, rep, snd = q.ev(r"^PreConfigBuffer::push\("), q.ev(r"^LogReplay::replay_log\(self\.replayer, \$2, \$3, "), q.ev(r"^Sender::send\(\$3")
        if not un:
            aw = q.ev(r"^await:await\(LogReplay::replay_log")
            c.ob("replayed", q.kind == "ret" and len(rep) == 1 and not push and not snd and len(aw) == 1 and (known_variant(q.rett) == "Ok") == q.decide(mk("is", aw[0].res, "Ok")), q, "not handed on once, or the outcome hidden")
            continue
        if not c.ob("kept", q.kind == "ret" and len(push) == 1 and not q.ev(r"^LogReplay::") and show(push[0].args[1]) == "$2" and show(push[0].args[0]) == LS + "?Uninitialized.0.pre_config_log_buffer", q, "not put into the waiting buffer"):
            continue
        kept = q.decide(mk("is", push[0].res, "Ok"))
        c.ob("kept", kept is not None and (kept or known_variant(q.rett) == "Err"), q, "a refused log is no error")
        wait = q.truth(r"\$3 is Some")
        c.ob("released", len(snd) == (1 if kept and wait else 0) and (kept is False or wait is not None) and q.before(r"^PreConfigBuffer::push", r"^Sender::send\(\$3"), q, "a waiting caller is not released, or too early")
        if kept and not wait:
            c.ob("released", known_variant(q.rett) == "Ok", q, "an error for a kept log")


def configured(c):
    p = c.program(*CR)
    c.rule("handed-out", "the first configuration hands out the waiting buffer as it is; later ones only update the pipeline")
    c.rule("in-order", "every waiting log is handed to processing, in order, and a failing one does not stop the next")
    for q in c.paths_of(p, f"{AB}::update", Config(opaque=[r"ProcessingPipeline::(new|update)$", r"InitializedLoggingContextStats::new$"])):
        r = [show(fld(q.rett, str(i))) for i in (0, 1)]
        un = q.truth(re.escape(LS) + " is Uninitialized")
        new, upd = q.ev(r"^ProcessingPipeline::new\("), q.ev(r"^ProcessingPipeline::update\(")
        if un:
            c.ob("handed-out", r[1] == f"Some({LS}?Uninitialized.0.pre_config_log_buffer)" and len(new) == 1 and not upd and "logging_state:Initialized" in r[0].replace(":=", ":")
                 and show(new[0].res) in r[0], q, "the waiting logs are lost, or the pipeline not put in place")
        else:
            c.ob("handed-out", r[1] == "None" and len(upd) == 1 and not new and show(upd[0].args[0]) == f"{LS}?Initialized.0.processing_pipeline" and show(upd[0].args[1]) == "$2", q, "the pipeline is not updated in place")
    for q in c.paths_of(p, f"{AB}::maybe_replay_pre_config_buffer_logs", Config(opaque=[r"LogReplay::replay_log$"])):
        un = q.truth(re.escape(LS) + " is Uninitialized")
        if un:
            continue
        lp = [i for i in iterations(q)]
        c.ob("in-order", q.kind == "ret" and bool(lp) and q.whole(), q, "not all waiting logs are gone through")
        for i in lp:
            r = i.ev(r"^LogReplay::replay_log\(")
            c.ob("in-order", i.kind not in ("break", "ret") and len(r) == 1 and show(r[0].args[1]) in ("item($2.items)",) and show(r[0].args[2]) == "None" and len(i.ev(r"^await:await\(LogReplay::replay_log")) == 1
                 and "processing_pipeline" in show(r[0].args[3]), i, "a waiting log is skipped, or the rest after a failing one")


def loop(c):
    p = c.program(*CR)
    c.rule("config-first", "a new configuration is applied, and the logs waiting for it handled, before anything else is taken up")
    c.rule("one-message", "a message is taken up one at a time, and handled to its end before the next")
    c.rule("emit", "a log passes every interceptor, in order, and is then processed")
    c.rule("fields", "adding and removing a field do so with the field, or name, that was given")
    c.rule("flush-order", "flushing state asks for stats and all buffers and waits for each, then records the session and the workflow state, and answers its caller last")
    opq = [r"ProcessingPipeline::run$", r"AsyncLogBuffer::<R>::process_log$", r"AsyncLogBuffer::<R>::update$", r"maybe_replay_pre_config", r"MetadataCollector::", r"WorkflowsEngine::", r"^bd_session::"]
    for q in c.paths_of(p, f"{AB}::run_with_shutdown", Config(opaque=opq)):
        for i in iterations(q):
            if not i.has(r"^Receiver::recv\(phi:self\.config_update_rx"):
                t = i.ev(r"^LogInterceptor::process\(")
                c.ob("emit", i.kind == "iter" and len(t) == 1 and show(t[0].args[0]) == "item(phi:self.interceptors)" and len(i.events()) == 1, i, "an interceptor is passed over")
                continue
            up = i.ev(r"^AsyncLogBuffer::update\(")
            rcv = [e for e in i.ev(r"^await:await\(Receiver::recv\(phi:self\.communication_rx\.rx")]
            work = i.ev(r"^(AsyncLogBuffer::(process_log|maybe_replay)|MetadataCollector::|Strategy::|WorkflowsEngine::|BuffersWithAck::|FlushTrigger::|LogInterceptor::)")
            if up:
                rep = i.ev(r"^AsyncLogBuffer::maybe_replay_pre_config_buffer_logs\(")
                aw = i.ev(r"^await:await\(AsyncLogBuffer::update\(")
                if not c.ob("config-first", len(up) == 1 and len(aw) == 1 and not rcv and "config_update_rx" in show(up[0].args[1]), i, "a configuration is not applied as received"):
                    continue
                got = i.decide(mk("is", fld(aw[0].res, "1"), "Some"))
                c.ob("config-first", got is not None and len(rep) == (1 if got else 0) and all(show(e.args[1]) == show(fld(aw[0].res, "1")) + "?Some.0" for e in rep)
                     and len(i.ev(r"^await:await\(AsyncLogBuffer::maybe_replay")) == len(rep), i, "waiting logs are not handled at once")
                continue
            if not rcv:
                c.ob("one-message", not [e for e in work if not repr(e).startswith("ProcessingPipeline::run")], i, "works without a message")
                continue
            m = show(rcv[0].res) + "?Some.0"
            c.ob("one-message", len(rcv) == 1, i, "more than one message at a time")
            kinds = [k for k in ("EmitLog", "AddLogField", "RemoveLogField", "FlushState") if i.truth(re.escape(m) + " is " + k)]
            if i.truth(re.escape(show(rcv[0].res)) + " is Some") is False:
                c.ob("one-message", not work, i, "works without a message")
                continue
            neg = [k for k in ("EmitLog", "AddLogField", "RemoveLogField", "FlushState") if i.truth(re.escape(m) + " is " + k) is False]
            kind = kinds[0] if kinds else ({"EmitLog", "AddLogField", "RemoveLogField", "FlushState"} - set(neg)).pop() if len(neg) == 3 else None
            if not c.ob("one-message", kind is not None, i, "the kind of a message is not looked at"):
                continue
            pl = i.ev(r"^AsyncLogBuffer::process_log\(")
            add, rem = i.ev(r"^MetadataCollector::add_field\("), i.ev(r"^MetadataCollector::remove_field\(")
            c.ob("one-message", (len(pl), len(add), len(rem)) == (kind == "EmitLog", kind == "AddLogField", kind == "RemoveLogField"), i, "not handled as what it is")
            if kind == "EmitLog" and pl:
                lo = [e for e in i.events() if e.kind == "loop" and "interceptors" in show(i.e.loops[e.extra].src)]
                c.ob("emit", len(i.ev(r"^await:await\(AsyncLogBuffer::process_log")) == 1 and len(lo) == 1 and i.events().index(lo[0]) < i.events().index(pl[0]), i, "an interceptor is passed over, or the processing not waited for")
            for e in add + rem:
                c.ob("fields", show(e.args[1]) == f"{m}?{kind}.0", i, "another field")
            if kind == "FlushState":
                flush(c, i, m)


def flush(c, i, m):
    st = i.ev(r"^FlushTrigger::flush\(")
    bf = i.ev(r"^BuffersWithAck::new_all_buffers\(")
    sd = [e for e in i.ev(r"^Sender::send\(") if bf and e.args[1] is bf[0].res]
    se = i.ev(r"^Strategy::flush\(phi:self\.session_strategy\)")
    wf = i.ev(r"^WorkflowsEngine::maybe_persist\(")
    done = i.ev(r"^Sender::send\(" + re.escape(m) + r"\?FlushState\.0\?Some\.0\.tx, ")
    on = any(i.truth(rf"phi:self\.logging_state\?{x}\.0\.(processing_pipeline\.)?flush_stats_trigger is Some") for x in ("Initialized", "Uninitialized"))
    we = i.truth(r"phi:self\.logging_state\?Initialized\.0\.processing_pipeline\.workflows_engine is Some")
    wait = i.truth(re.escape(m) + r"\?FlushState\.0 is Some")
    if not c.ob("flush-order", len(st) == bool(on) and len(bf) == 1 and len(sd) == 1 and len(se) == 1 and len(wf) == bool(we) and len(done) == bool(wait) and wait is not None
                and all(e.args[1] is TRUE for e in wf), i, "something is not flushed, or the caller not answered"):
        return
    evs = i.events()

    def awaited(e, ch):
        a = [x for x in i.ev(r"^await:") if has_sub(x.args[0], e.res)]
        b = [x for x in i.ev(r"^await:") if has_sub(x.args[0], fld(ch.res, "1"))]
        return [evs.index(x) for x in a[:1] + b[:1]] if a and b else []
    chans = i.ev(r"^oneshot::channel\(")
    pos = []
    for e, holder in [(x, x.args[1]) for x in st] + [(sd[0], bf[0].args[0])]:
        ch = [x for x in chans if has_sub(holder, fld(x.res, "0"))]
        w = awaited(e, ch[0]) if len(ch) == 1 else []
        if not c.ob("flush-order", len(w) == 2, i, "a flush is not waited for"):
            return
        pos.append(w)
    last = max(x for w in pos for x in w)
    aw = [evs.index(x) for x in i.ev(r"^await:await\(WorkflowsEngine::maybe_persist")]
    c.ob("flush-order", len(aw) == len(wf) and all(evs.index(d) > max([last, evs.index(se[0])] + aw) for d in done), i, "the caller is answered too early")


GROUPS = [before_config, configured, loop]
FLOORS = {"kept": 4, "replayed": 2, "released": 4, "handed-out": 2, "in-order": 2, "config-first": 4, "one-message": 20, "emit": 2, "fields": 2, "flush-order": 20}
