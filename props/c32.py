"""A log that triggers a flush is uploaded with it; which flushes a log triggers."""
from rules import *

LR = "bd_logger::log_replay::ProcessingPipeline"
AF = "bd_workflows::actions_flush_buffers"
RES = f"{AF}::Resolver"


def disjoint(q, a, b):
    """Whether two sets are known to be disjoint on this path (None: not tested)."""
    r = re.escape
    v = q.truth(rf"BTreeSet::is_disjoint\({r(a)},{r(b)}\)|BTreeSet::is_disjoint\({r(b)},{r(a)}\)")
    if v is None:
        v = q.truth(rf"0==len\((collect:\w+\()?BTreeSet::intersection\({r(a)},{r(b)}\)\)?\)|0==len\((collect:\w+\()?BTreeSet::intersection\({r(b)},{r(a)}\)\)?\)")
    return v


def empty(q, a):
    return q.truth(rf"0==len\({re.escape(a)}\)")


def copy(c):
    p = c.program("bd_logger", "bd_workflows")
    c.rule("copied", "a log that triggers flushes and is stored neither in a continuous buffer nor in one being flushed is copied to one being flushed, and only then")
    c.rule("same-log", "the copy carries the log's message, captured fields, session and time, and the ids of the flush actions")
    for q in c.paths_of(p, f"{LR}::process_flush_buffers_actions", Config(opaque=[r"fb::make_log$"])):
        if q.kind == "panic":
            c.ob("copied", "unwrap" in (q.why or "") and empty(q, "$3") is False, q, "may panic")
            continue
        mk_ = q.ev(r"^fb::make_log\(")
        none, cont, fl, no = empty(q, "$1"), disjoint(q, "$4", "$2.continuous_buffer_ids"), disjoint(q, "$4", "$3"), empty(q, "$3")
        if not mk_:
            c.ob("copied", q.ret == "None" and (none is True or cont is False or fl is False or no is True), q, "a log that will not be uploaded is not copied")
            continue
        ok = c.ob("copied", len(mk_) == 1 and none is False and cont is True and fl is True and no is False, q, "a log is copied without need, or more than once")
        a = mk_[0].args
        c.ob("same-log", ok and [show(x) for x in a[3:7]] == ["$5.message", "$5.fields.captured_fields", "$5.session_id", "$5.occurred_at"] and show(a[7]) == "iter($1)", q, "the copy is another log")
        done = q.decide(mk("is", mk_[0].res, "Ok"))
        c.ob("copied", done is not None and (q.ret == "None" if not done else re.fullmatch(r"Some\((to_string\()?item\(\$3\)(#\d+)?\)?\)", q.ret) is not None), q, "the buffer it went to is not returned")
        w = [i for i in iterations(q) if i.ev(r"^RingBufferProducer::write\(")]
        c.ob("copied", bool(w), q, "the copy is not written")
        for i in iterations(q):
            there = i.truth(r"HashMap::get_mut\(\$2\.buffers,(to_string\()?item\(\$3\)(#\d+)?\)?\) is Some")
            wr = i.ev(r"^RingBufferProducer::write\(")
            c.ob("copied", there is not None and len(wr) == (1 if there else 0) and all("HashMap::get_mut($2.buffers," in show(x.args[0]) and "carg(fb::make_log" in show(x.args[1]) for x in wr), i,
                 "the copy is written elsewhere or not at all")


def offered(c):
    p = c.program("bd_logger", "bd_workflows", "bd_completion")
    c.rule("offered", "after a log was stored, what it triggered is looked at once, against the buffers it was stored in")
    cfg = Config(opaque=[r"WorkflowsEngine::(process_log|maybe_persist)$", r"::process_flush_buffers_actions$", r"::write_to_buffers$", r"::maybe_stream_log$", r"BufferSelector::buffers$", r"::finish_blocking_log_processing$"])
    for q in c.paths_of(p, f"{LR}::process_log", cfg):
        en = q.ev(r"^WorkflowsEngine::process_log\(")
        wr = q.ev(r"^ProcessingPipeline::write_to_buffers\(")
        fb = q.ev(r"^ProcessingPipeline::process_flush_buffers_actions\(")
        if not en:
            c.ob("offered", not fb, q, "flushes without a workflow")
            continue
        stored = len(wr) == 1 and q.decide(mk("is", wr[0].res, "Ok"))
        if stored is not True:
            c.ob("offered", not fb and q.kind == "ret" and known_variant(q.rett) == "Err", q, "a log that was not stored is not an error")
            continue
        r = show(en[0].res)
        c.ob("offered", len(fb) == 1 and q.before(r"^ProcessingPipeline::write_to_buffers", r"^ProcessingPipeline::process_flush")
             and [show(fb[0].args[i]) for i in (0, 2, 3)] == [f"{r}.triggered_flush_buffers_action_ids", f"{r}.triggered_flushes_buffer_ids", f"{r}.log_destination_buffer_ids"]
             and show(fb[0].args[4]) == show(en[0].args[1]) == show(wr[0].args[2]), q, "not looked at once, or against other buffers")


def triggered(c):
    p = c.program("bd_workflows")
    c.rule("all-named", "every triggered action is named, and every existing buffer it flushes, whether or not it is in progress already")
    c.rule("once", "an action starts exactly if it has buffers to flush and is neither being negotiated nor streaming")
    for q in c.paths_of(p, f"{RES}::process_flush_buffer_actions", Config(opaque=[r"PendingFlushBuffersAction::new$"])):
        f = {n: show(fld(q.rett, n)) for n in ("new_pending_actions_to_add", "triggered_flush_buffers_action_ids", "triggered_flushes_buffer_ids")}
        lps = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == "$2"]
        if not c.ob("all-named", q.kind == "ret" and len(lps) == 1 and q.whole(lps[0]) and len(set(f.values())) == 3, q, "not every triggered action is gone through"):
            continue
        for i in [Iter(q, tr, st) for tr, st in lps[0].iters]:
            new = i.ev(r"^PendingFlushBuffersAction::new\(")
            if not c.ob("once", len(new) == 1 and [show(x) for x in new[0].args] == ["item($2)", "$3", "self.trigger_buffer_ids", "self.continuous_buffer_ids"], i, "an action is set up from something else"):
                continue
            r = show(new[0].res) + "?Some.0"
            some_ = i.decide(mk("is", new[0].res, "Some"))
            ins = {n: [show(e.args[1]) for e in i.events() if re.match(r"(BTreeSet::insert|Extend::extend|BTreeSet::append)\(", repr(e)) and show(e.args[0]) == v] for n, v in f.items()}
            c.ob("all-named", ins["triggered_flush_buffers_action_ids"] == ["item($2).id"] and (ins["triggered_flushes_buffer_ids"] in ([f"iter({r}.trigger_buffer_ids)"], [f"{r}.trigger_buffer_ids"]) if some_ else ins["triggered_flushes_buffer_ids"] == []), i, "an action or its buffers are not named")
            busy = {s: i.truth(rf"({re.escape(r)}|item\(\$2\))\.id==item\({re.escape(s)}\)\.id|item\({re.escape(s)}\)\.id==({re.escape(r)}|item\(\$2\))\.id") for s in ("$4", "$5")}
            src = [show(i.e.loops[e.extra].src) for e in i.events() if e.kind == "loop" and i.e.loops[e.extra].src is not None]
            clear = all(busy[s] is not True and s in src for s in busy)
            start = some_ is True and clear
            c.ob("once", ins["new_pending_actions_to_add"] == ([r] if start else []) and (start or some_ is False or True in busy.values()), i, "an action is started twice, or not started")


def set_up(c):
    p = c.program("bd_workflows")
    c.rule("existing-only", "an action flushes the existing trigger buffers it names, all if it names none, and is nothing without any")
    c.rule("streams-to", "it streams to the existing continuous buffers it names, the first if it names none, up to its number of logs, and only if there is one")
    for q in c.paths_of(p, f"{AF}::PendingFlushBuffersAction::new", Config()):
        if q.kind != "ret":
            c.ob("existing-only", False, q, "may panic")
            continue
        if q.truth(r"BTreeSet::first\(\$4\) is Some") is False and empty(q, "$4") is False:
            continue  # not possible: a set that is not empty has a first element
        names = empty(q, "$1.buffer_ids")
        ids = "$3" if names else None
        got = show(fld(downcast(q.rett, "Some"), "0")) if known_variant(q.rett) == "Some" else None
        flt = r"collect:BTreeSet\(\[each \$1\.buffer_ids: \{BTreeSet::contains\(\$3,item\(\$1\.buffer_ids\)\) => one\(item\(\$1\.buffer_ids\)\)\}\]\)"
        if known_variant(q.rett) == "None":
            c.ob("existing-only", names is not None and (empty(q, "$3") is True if names else q.truth(rf"0==len\({flt}\)") is True), q, "an action with buffers to flush is dropped")
            continue
        f = {n: show(fld(fld(downcast(q.rett, "Some"), "0"), n)) for n in ("id", "session_id", "streaming", "trigger_buffer_ids")}
        c.ob("existing-only", f["id"] == "$1.id" and f["session_id"] == "$2" and names is not None
             and (f["trigger_buffer_ids"] == "$3" and empty(q, "$3") is False if names else re.fullmatch(flt, f["trigger_buffer_ids"]) is not None and q.truth(rf"0==len\({flt}\)") is False), q,
             "an action flushes other buffers than the existing ones it names")
        st, cont = q.truth(r"\$1\.streaming is Some"), empty(q, "$4")
        dn = empty(q, "$1.streaming?Some.0.destination_continuous_buffer_ids")
        each = r"collect:BTreeSet\(\[each \$4: \{BTreeSet::contains\(\$1\.streaming\?Some\.0\.destination_continuous_buffer_ids,item\(\$4\)\) => one\(item\(\$4\)\)\}\]\)"
        want_none = st is False or cont is True or dn is False and q.truth(rf"0==len\({each}\)") is True
        if f["streaming"] == "None":
            c.ob("streams-to", want_none, q, "an action with streaming does not stream")
        else:
            dst = r"\[BTreeSet::first\(\$4\)\?Some\.0\]" if dn else each
            c.ob("streams-to", st is True and dn is not None and not want_none and re.fullmatch(rf"Some\(Streaming\{{destination_continuous_buffer_ids:{dst},max_logs_count:\$1\.streaming\?Some\.0\.max_logs_count\}}\)", f["streaming"]) is not None,
                 q, "an action streams to other buffers, or another number of logs")


GROUPS = [copy, offered, triggered, set_up]
FLOORS = {"copied": 10, "same-log": 2, "offered": 4, "all-named": 5, "once": 8, "existing-only": 8, "streams-to": 4}
