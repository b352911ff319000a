"""Where a log goes: every buffer it is destined for, a locked or full one notwithstanding; streaming never disturbs it."""
from rules import *
from c25 import CR

PP = "bd_logger::log_replay::ProcessingPipeline"
OPQ = [r"fb::make_log$", r"ProcessingPipeline::write_to_buffers$", r"process_flush_buffers_actions$", r"maybe_stream_log$", r"FilterChain::process$",
       r"BufferSelector::buffers$", r"WorkflowsEngine::", r"finish_blocking_log_processing$", r"LogLevelCounters::"]


def pipeline(c):
    p = c.program(*CR, "bd_log_filter", "bd_matcher", "bd_workflows")
    c.rule("destinations", "a log is written once, to the buffers selected for it as the workflows left them")
    c.rule("action-ids", "it is written with the ids of exactly the flush actions it triggered, and none without workflows")
    c.rule("streaming-apart", "a streaming failure does not keep the log from its buffers")
    c.rule("workflows-once", "active workflows see every log once, with the selected buffers")
    failed = 0
    for q in c.paths_of(p, f"{PP}::process_log", Config(opaque=OPQ)):
        if q.kind != "ret":
            continue
        w = q.ev(r"^ProcessingPipeline::write_to_buffers\(")
        sel = q.ev(r"^BufferSelector::buffers\(")
        st = q.ev(r"^TailConfigurations::maybe_stream_log\(")
        if not c.ob("destinations", len(w) == 1 and len(sel) == 1, q, "the log is not written exactly once"):
            continue
        if not c.ob("streaming-apart", len(st) == 1 and (not q.has(r"^FilterChain::process") or q.before(r"^FilterChain::process", r"^TailConfigurations::")), q, "not streamed once, after filtering"):
            continue
        failed += q.decide(mk("is", st[0].res, "Ok")) is False
        wf = q.ev(r"^WorkflowsEngine::process_log\(")
        on = q.truth(r"self\.workflows_engine is Some")
        if not c.ob("workflows-once", len(wf) == (1 if on else 0), q, "the workflows do not see the log once"):
            continue
        if on:
            c.ob("workflows-once", show(wf[0].args[0]) == "self.workflows_engine?Some.0" and wf[0].args[2] is sel[0].res, q, "the workflows are told other buffers")
            r = show(wf[0].res)
            c.ob("destinations", show(w[0].args[1]) == f"{r}.log_destination_buffer_ids", q, "not written where the workflows directed it")
            c.ob("action-ids", show(w[0].args[3]) in (f"iter({r}.triggered_flush_buffers_action_ids)", f"{r}.triggered_flush_buffers_action_ids")
                 or re.fullmatch(rf"(\w+::)*(copied|cloned|iter)?\(?.*{re.escape(r)}\.triggered_flush_buffers_action_ids\)*", show(w[0].args[3])) is not None, q,
                 "not the ids of the triggered actions")
        else:
            c.ob("destinations", w[0].args[1] is sel[0].res, q, "not written to the selected buffers")
            c.ob("action-ids", re.fullmatch(r"iter::empty\(\)(#\d+)?|\[\]|iter\(\[\]\)", show(w[0].args[3])) is not None, q, "ids of actions nobody triggered")
    c.ob("streaming-apart", failed > 0, PP, "streaming failures are not handled apart")


def write(c):
    p = c.program(*CR)
    c.rule("every-buffer", "the encoded log is offered to every destination buffer; a locked or full one is passed over")
    c.rule("reported", "any other failure is an error for the caller")
    c.rule("nowhere", "a log without a destination is not encoded")
    mkf = c.fn(p, "bd_client_common::fb::make_log")
    f = c.fn(p, f"{PP}::write_to_buffers")
    for q in c.paths_of(p, f, Config(opaque=[r"fb::make_log$"])):
        e = q.ev(r"^fb::make_log\(")
        none = q.truth(r"0==len\(\$2\)")
        if none:
            c.ob("nowhere", q.kind == "ret" and not e and known_variant(q.rett) == "Ok", q, "encoded for nobody")
            continue
        c.ob("every-buffer", len(e) == 1 and "=$2" in show(e[0].args[9]) and show(e[0].args[0]).startswith("$1."), q, "not encoded for the destinations")
        good = q.decide(mk("is", e[0].res, "Ok"))
        c.ob("reported", q.kind == "ret" and (known_variant(q.rett) == "Ok") == (good is True), q, "a failure is hidden")
    outs = [g for g in p.by_id.values() if re.fullmatch(re.escape(f.id) + r"::\{closure#\d+\}", g.id)]
    c.ob("every-buffer", len(outs) == 1, f, "no single writer of the encoded log")
    for g in outs:
        for q in c.paths_of(p, g):
            lps = q.loops()
            if not c.ob("every-buffer", q.kind == "ret" and len(lps) == 1 and re.fullmatch(r"(\$1\.)?(\w+=)?(matching_buffers|\$2|\$1\.\w+)", show(lps[0].src) if lps[0].src else "") is not None, q, "not every destination is looked at"):
                continue
            for i in iterations(q):
                w = i.ev(r"^(RingBufferProducer|.*Producer)::write\(")
                okk = len(w) == 1 and show(w[0].args[1]) == "$2" and re.search(r"item\(", show(w[0].args[0])) is not None
                if okk and i.decide(mk("is", w[0].res, "Ok")) is not True:
                    err = fld(downcast(w[0].res, "Err"), "0")
                    code = fld(downcast(err, "AbslStatus"), "0")
                    okk = any(i.decide(mk("is", code, v)) is True for v in ("FailedPrecondition", "ResourceExhausted"))
                c.ob("every-buffer", okk, q, "a destination is skipped, or a real failure ignored", i.describe())
            if known_variant(q.rett) == "Ok":
                c.ob("every-buffer", q.whole(), q, "stops before the last destination")
            else:
                bad = [e for e in q.ev(r"Producer::write\(") if q.decide(mk("is", e.res, "Ok")) is False]
                missing = q.facts(r"HashMap::get_mut\(.*\) is Some|BTreeMap::get_mut\(.*\) is Some")
                for e in bad:
                    code = fld(downcast(fld(downcast(e.res, "Err"), "0"), "AbslStatus"), "0")
                    c.ob("every-buffer", not any(q.decide(mk("is", code, v)) is True for v in ("FailedPrecondition", "ResourceExhausted")), q,
                         "a locked or full buffer keeps the log from the others")
                c.ob("reported", bool(bad) or any(v is False for _, v in missing), q, "an error without a cause")


GROUPS = [pipeline, write]
FLOORS = {"destinations": 20, "action-ids": 10, "streaming-apart": 10, "workflows-once": 10, "every-buffer": 8, "reported": 3, "nowhere": 1}
