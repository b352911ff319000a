"""Blocking calls return only once the log, or the state, was handled and flushed, and never wait for nothing."""
from rules import *
from c25 import CR
from c26 import OPQ, PP

AB = "bd_logger::async_log_buffer::AsyncLogBuffer::<R>"


def callers(c):
    p = c.program("bd_logger", "bd_completion")
    c.rule("handed-over", "a log is handed over once, with all that was given and a completion exactly when the caller blocks")
    c.rule("waits", "the caller waits exactly when it blocks and its message was accepted")
    c.rule("refused", "a refused message is an error for the caller, who does not wait")
    cfg = Config(opaque=[r"memory_bound::Sender::<T>::try_send$", r"memory_bound::.*::try_send$"])
    for name, blk in (("enqueue_log", "$8"), ("flush_state", "$2")):
        for q in c.paths_of(p, f"{AB}::{name}", cfg):
            s = q.ev(r"^Sender::try_send\(\$1, ")
            if not c.ob("handed-over", q.kind == "ret" and len(s) == 1, q, "not handed over exactly once"):
                continue
            m = show(q.e.view(q.state, s[0].args[1]))
            ch = q.ev(r"^oneshot::channel\(")
            blocking = q.truth(re.escape(blk))
            tx = f"{show(ch[0].res)}.0" if ch else "?"
            done = f"Some({tx})" if name == "enqueue_log" else f"Some(Sender{{tx:{tx}}})"
            done = done if blocking else "None"
            if name == "enqueue_log":
                want = {"attributes_overrides": "$7", "fields": "$5", "log_level": "$2", "log_processing_completed_tx": done, "log_type": "$3", "matching_fields": "$6", "message": "$4"}
                m2 = "EmitLog(LogLine{" + ",".join(f"{k}:{v}" for k, v in sorted(want.items())) + "})"
            else:
                m2 = f"FlushState({done})"
            c.ob("handed-over", m == m2 and blocking is not None, q, "not all that was given is handed over")
            w = q.ev(r"blocking_recv\(")
            sent = q.decide(mk("is", s[0].res, "Ok"))
            c.ob("waits", len(w) == (1 if blocking and sent else 0) and all(has_sub(x.args[0], fld(ch[0].res, "1")) for x in w)
                 and q.before(r"^Sender::try_send", r"blocking_recv"), q, "waits although nobody answers, or returns early")
            c.ob("refused", (known_variant(q.rett) == "Ok") == (sent is True) and (sent is not False or known_variant(q.rett) == "Err"), q, "the outcome of handing over is not the result")


def processing(c):
    p = c.program(*CR, "bd_log_filter", "bd_matcher", "bd_workflows", "bd_completion")
    c.rule("answered-last", "a blocking log is answered only after it was stored, the workflow state was saved and the flush was over")
    c.rule("answered", "its waiting caller is answered whether or not the flush succeeded")
    c.rule("flushed-set", "the flush names every buffer the log was stored in")
    c.rule("not-blocking", "other logs neither flush nor answer")
    c.rule("state-saved", "with workflows, their state is saved, forcibly for a blocking log")
    for q in c.paths_of(p, f"{PP}::process_log", Config(opaque=OPQ)):
        if q.kind != "ret":
            continue
        w = q.ev(r"^ProcessingPipeline::write_to_buffers\(")
        stored = len(w) == 1 and q.decide(mk("is", w[0].res, "Ok"))
        if stored is False:
            c.ob("answered", known_variant(q.rett) == "Err" and not q.has(r"^Sender::send"), q, "a log that was not stored is answered")
            continue
        blocking = q.truth(r"\$3 is Some")
        fin, snd = q.ev(r"^ProcessingPipeline::finish_blocking_log_processing\("), q.ev(r"^Sender::send\(\$3")
        pers = q.ev(r"^WorkflowsEngine::maybe_persist\(")
        on = q.truth(r"self\.workflows_engine is Some")
        c.ob("state-saved", len(pers) == (1 if on else 0) and all(q.e.resolve(q.state, e.args[1]) is boolean(bool(blocking)) or show(e.args[1]) == "$3 is Some" for e in pers)
             and (not pers or q.has(r"^await:await\(WorkflowsEngine::maybe_persist")), q, "the workflow state is not saved as it should be")
        if not blocking:
            c.ob("not-blocking", not fin and not snd, q, "flushes or answers although nobody waits")
            continue
        if not c.ob("answered", len(fin) == 1 and len(snd) == 1, q, "a blocking log is not flushed and answered once"):
            continue
        order = [q.idx(x) for x in (r"^ProcessingPipeline::write_to_buffers\(", r"^await:await\(ProcessingPipeline::finish_blocking", r"^Sender::send\(\$3")]
        c.ob("answered-last", all(order) and max(order[0]) < min(order[1]) and max(order[1]) < min(order[2])
             and (not pers or max(q.idx(r"^await:await\(WorkflowsEngine::maybe_persist")) < min(order[2])), q, "answered too early")
        c.ob("flushed-set", covers(q, fin[0].args[2], w[0].args[1]), q, "a buffer the log was stored in is not flushed")
        aw = q.ev(r"^await:await\(ProcessingPipeline::finish_blocking")
        c.ob("answered", q.rett is aw[0].res or known_variant(q.rett) == "Err", q, "a failed flush is hidden")


def covers(q, have, want):
    """Whether the set `have` contains every element of the set `want` (built from it, or the same)."""
    w = show(want)
    h = show(q.e.resolve(q.state, have))
    part = rf"\[each {re.escape(w)}[^{{]*: {{ => one\("
    for lp in q.loops():
        src = show(lp.src) if lp.src is not None else ""
        if (src == w or re.match(part, src)) and q.whole(lp) and lp.iters and all(any(re.match(r"BTreeSet::insert\(", repr(e)) and "item(" in show(e.args[1]) for e in tr) for tr, _ in lp.iters):
            return True
    return (h == w or re.search(rf"\[each {re.escape(w)}[^{{]*: {{ => one\(", h) is not None
            or re.search(rf"(extend|append|union|insert_all)\([^\[]*,{re.escape(w)}\)", h) is not None or f"spread({w})" in h)



def finish(c):
    p = c.program(*CR, "bd_completion")
    c.rule("flush-asked", "finishing asks for a flush of all the log's buffers, unless it has none, and of the stats when there are any")
    c.rule("flush-awaited", "it succeeds only after every flush it asked for has been acknowledged")
    for q in c.paths_of(p, f"{PP}::finish_blocking_log_processing"):
        okk = known_variant(q.rett) == "Ok"
        empty = q.truth(r"0==len\(\$3\)")
        stats = q.truth(r"\$2 is Some")
        b = q.ev(r"^Sender::send\(\$1, ")
        s = q.ev(r"^FlushTrigger::flush\(\$2")
        c.ob("flush-asked", q.kind == "ret" and empty is not None and len(b) == (0 if empty else 1)
             and all("[each $3: { => one(to_string(item($3)))}]" in show(e.args[1]) or "$3" == show(fld(e.args[1], "buffers")) for e in b), q, "not all buffers are flushed")
        if okk:
            c.ob("flush-asked", len(s) == (1 if stats else 0), q, "the stats are not flushed")
        n = 0
        for e in b + s:
            aw = [x for x in q.ev(r"^await:") if x.args[0] is e.res]
            ch = [x for x in q.ev(r"^(Sender::new|oneshot::channel)\(") if has_sub(e.args[1], x.res)]
            if okk:
                rc = [x for x in q.ev(r"^(Receiver::recv|await:)") if len(ch) == 1 and has_sub(x.args[0], fld(ch[0].res, "1"))]
                done = [x for x in q.ev(r"^await:") if any(has_sub(x.args[0], y.res) or x is y for y in rc)]
                c.ob("flush-awaited", len(aw) == 1 and q.decide(mk("is", aw[0].res, "Ok")) is True and bool(done)
                     and any(q.decide(mk("is", x.res, "Ok")) is True for x in done), q, "a flush is not waited for, or its failure ignored")


GROUPS = [callers, processing, finish]
FLOORS = {"handed-over": 10, "waits": 5, "refused": 5, "answered-last": 4, "answered": 8, "flushed-set": 4, "not-blocking": 4, "state-saved": 8, "flush-asked": 5, "flush-awaited": 4}
