"""Flush actions are negotiated once, and their buffers flushed once at a time."""
from rules import *
from c32 import AF, RES, empty
from c60 import rounds

EN = "bd_workflows::engine::WorkflowsEngine"
NEG = f"{AF}::Negotiator"
SELF = "self.flush_buffers_actions_resolver"


def answer(c):
    p = c.program("bd_workflows")
    c.rule("one-answer", "every action to be negotiated is answered once: approved if an upload was granted, otherwise rejected")
    c.rule("remembered", "an action whose upload was dropped is not negotiated again, and only such")
    c.rule("retried", "a request that got no response is sent again, as the same one")
    c.rule("every-action", "every action handed to negotiation is negotiated, one after the other, each to its end")
    c.rule("asks", "what is asked for is an upload for this action")
    for q in c.paths_of(p, f"{NEG}::process_pending_action", Config()):
        if q.kind == "panic":
            c.ob("one-answer", False, q, "may panic")
            continue
        known = q.truth(r"BTreeSet::contains\(self\.rejected_intent_action_ids,\$2\.id\)")
        out = q.ev(r"^Sender::send\(self\.output_tx, ")
        ans = [re.match(r"(UploadApproved|UploadRejected)\(\$2\)$", show(e.args[1])) for e in out]
        req = q.ev(r"^Sender::send\(self\.data_upload_tx, ")
        ins = q.ev(r"^BTreeSet::insert\(self\.rejected_intent_action_ids, ")
        rej = [k for k, v in q.state.facts.items() if v and show(k).endswith(".decision is Drop")]
        dec = [v for k, v in q.state.facts.items() if re.search(r"\.decision is (Drop|UploadImmediately)$", show(k))]
        if not c.ob("one-answer", known is not None and len(out) == 1 and ans[0] is not None and len(q.ev(r"^await:await\(Sender::send\(self\.output_tx")) == 1, q, "not answered once"):
            continue
        if known:
            c.ob("remembered", ans[0].group(1) == "UploadRejected" and not req and not ins, q, "an action known to be rejected is negotiated again")
            continue
        drop = q.truth(r".*\.decision is Drop")
        if drop is None:
            drop = {True: False, False: True}.get(q.truth(r".*\.decision is UploadImmediately"))
        c.ob("one-answer", ans[0].group(1) == ("UploadApproved" if drop is False else "UploadRejected") and bool(req), q, "the answer is not the decision")
        c.ob("remembered", [show(e.args[1]) for e in ins] == (["$2.id"] if drop else []), q, "a rejected action is not remembered, or another is")
        tr = q.ev(r"^Tracked(LogUploadIntent)?::new\(")
        uu = q.ev(r"^Tracked(LogUploadIntent)?::upload_uuid\(")
        c.ob("asks", len(uu) == 1 and bool(tr) and all(show(t.args[0]) == show(uu[0].res) and f"intent_uuid:{show(uu[0].res)}" in show(t.args[1]) and "WorkflowActionUpload" in show(t.args[1]) for t in tr)
             and all(any(show(e.args[1]) == f"LogsUploadIntentRequest({show(t.res)}.0)" for t in tr) for e in req), q, "another request is sent")
        acts = {re.sub(r".*workflow_action_ids:(\[[^\]]*\]|[^,}]*).*", r"\1", show(t.args[1])) for t in tr}
        c.ob("asks", all("$2.id" in a or "Box::" in a or "box_assume" in a or "into_vec" in a for a in acts) and (any("$2.id" in a for a in acts) or any("[$2.id]" in v for v in q.heap(".*").values())), q, f"another action is named {acts}")
        for t in tr:
            ask = "|".join([r"BTreeSet::first\(\$2\.trigger_buffer_ids\)\?Some\.0", "'?\"?no_buffer\"?'?"])
            body = show(t.args[1])
            c.ob("asks", re.search(rf"buffer_id:(?:{ask})[,}}]", body) is not None and "byte_count:0," in body and "log_count:0," in body, q, f"another buffer or amount is named: {body[:200]}")
    rounds(c, "every-action", f"{NEG}::run", "Negotiator::process_pending_action")
    for q in c.paths_of(p, f"{NEG}::perform_intent_negotiation", Config()):
        if q.kind != "ret":
            continue
        for i in [Iter(q, tr, st) for lp in q.loops() for tr, st in lp.iters]:
            aw = [e for e in i.events() if e.res is not None and re.match(r"await:", repr(e)) and i.decide(mk("is", e.res, "Ok")) is False]
            c.ob("retried", len(i.ev(r"^Sender::send\(self\.data_upload_tx")) == 1 and len(aw) == 1 and "$2.intent_uuid" in show(i.ev(r"^Tracked")[0].args[0]), i, "another request is made, although this one was not lost")


def results(c):
    p = c.program("bd_workflows")
    c.rule("no-longer-pending", "an answered action stops being pending, whatever a configuration update made of it meanwhile, and this is to be saved")
    c.rule("one-flush", "an approved action flushes its buffers unless a flush of its own is still going on, which is then kept track of")
    c.rule("then-streams", "an approved action streams if it is to and a destination exists, starting from no logs")
    gone = 0
    for q in c.paths_of(p, f"{EN}::run_once", Config(opaque=[r"StateStore::maybe_store$"])):
        if q.kind != "ret":
            c.ob("one-flush", q.why and "select" in q.why, q, "may panic")
            continue
        out = [e for e in q.events() if e.res is not None and q.decide(mk("is", e.res, "Some")) is True and "flush_buffers_negotiator_output_rx" in repr(e)]
        if not out:
            c.ob("no-longer-pending", not q.ev(r"^Vec::push|^HashMap::|^BTreeSet::|^Sender::try_send"), q, "something changes without an answer")
            continue
        a = show(out[-1].res) + "?Some.0"
        ap = q.truth(re.escape(a) + " is UploadApproved")
        if ap is None:
            ap = {True: False, False: True}.get(q.truth(re.escape(a) + " is UploadRejected"))
        if not c.ob("no-longer-pending", ap is not None, q, "the answer is not looked at"):
            continue
        act = a + ("?UploadApproved.0" if ap else "?UploadRejected.0")
        rt = q.ev(r"^BTreeSet::retain\(self\.state\.pending_actions, ")
        f = closure_fn(q, rt[0].args[1]) if len(rt) == 1 else None
        by_id = f is not None and re.search(rf"={re.escape(act)}(\.id)?\)$", show(rt[0].args[1])) is not None
        eq = r"(\$2\.id==\$1\.\w+(\.id)?|\$1\.\w+(\.id)?==\$2\.id)"
        for x in c.paths_of(p, f) if by_id else ():
            v = x.truth(eq)
            c.ob("no-longer-pending", x.kind == "ret" and (re.fullmatch(rf"!\(?{eq}\)?", x.ret) is not None if v is None else x.ret == ("false" if v else "true")), x, "another action stops being pending")
        c.ob("no-longer-pending", len(rt) == 1 and by_id and not q.ev(r"^BTreeSet::insert\(self\.state\.pending_actions"), q, "an answered action can stay pending")
        gone += 1
        me = q.heap("self").get("self", "")
        c.ob("no-longer-pending", "needs_state_persistence:=true" in me, q, "the change is not to be saved")
        snd, push, ins = q.ev(r"^Sender::try_send\(self\.buffers_to_flush_tx, "), q.ev(r"^Vec::push\(self\.state\.streaming_actions, "), q.ev(r"^HashMap::insert\(self\.pending_buffer_flushes, ")
        if not ap:
            c.ob("one-flush", not snd and not push and not ins, q, "a rejected action is flushed")
            continue
        fl = rf"HashMap::get_mut\(self\.pending_buffer_flushes,{re.escape(act)}\.id\)"
        going = q.truth(fl + " is Some")
        tr = q.ev(r"^Receiver::try_recv\(HashMap::get_mut\(self\.pending_buffer_flushes,")
        busy = going is True and len(tr) == 1 and q.decide(mk("is", tr[0].res, "Ok")) is False and q.truth(re.escape(show(tr[0].res)) + r"\?Err\.0 is Empty") is True
        c.ob("one-flush", going is not None and len(snd) == (0 if busy else 1) and all(show(e.args[1]).startswith(f"BuffersToFlush{{buffer_ids:{act}.trigger_buffer_ids,response_tx:") for e in snd), q,
             "buffers are flushed twice at a time, or not at all")
        ok = [q.decide(mk("is", e.res, "Ok")) for e in snd]
        chan = q.ev(r"^oneshot::channel\(")
        c.ob("one-flush", all(x is not None for x in ok) and [(show(e.args[1]), show(e.args[2])) for e in ins] == ([(f"{act}.id", show(chan[0].res) + ".1")] if ok == [True] else [])
             and all(show(e.args[1]).endswith(f"response_tx:{show(chan[0].res)}.0}}") for e in snd), q, "the flush going on is not kept track of")
        st = q.truth(re.escape(act) + r"\.streaming is Some")
        dis = q.truth(rf"BTreeSet::is_disjoint\({re.escape(act)}\.streaming\?Some\.0\.destination_continuous_buffer_ids,{re.escape(SELF)}\.continuous_buffer_ids\)")
        new = f"StreamingBuffersAction{{destination_continuous_buffer_ids:{act}.streaming?Some.0.destination_continuous_buffer_ids,id:{act}.id,logs_count:0,max_logs_count:{act}.streaming?Some.0.max_logs_count,session_id:{act}.session_id,source_trigger_buffer_ids:{act}.trigger_buffer_ids}}"
        c.ob("then-streams", (st is False or dis is not None) and [show(e.args[1]) for e in push] == ([new] if st and dis is False else []), q, "the action does not stream, or something else")


def started(c):
    p = c.program("bd_workflows")
    c.rule("negotiated", "a new action becomes pending and is handed to negotiation, and so is every one pending from before at startup")
    for q in c.paths_of(p, f"{EN}::start", Config(opaque=[r"StateStore::load$", r"Workflow::\w+$", r"Resolver::standardize_\w+$"])):
        lps = [lp for lp in q.loops() if any(re.match(r"Sender::try_send", repr(e)) for tr, st in lp.iters for e in tr)]
        c.ob("negotiated", q.kind == "ret" and len(lps) == 1 and q.whole(lps[0]) and lps[0].src is not None, q, "not every pending action is negotiated")
        ld, sp, ss = q.ev(r"^StateStore::load\("), q.ev(r"^Resolver::standardize_pending_actions\("), q.ev(r"^Resolver::standardize_streaming_buffers\(")
        has = q.decide(mk("is", ld[0].res, "Some")) if len(ld) == 1 else None
        c.ob("negotiated", has is not None and len(sp) == len(ss) == (1 if has else 0) and q.before(r"^StateStore::load", r"^Resolver::standardize") and
             all(show(lp.src) == (show(sp[0].res) if has else "self.state.pending_actions") for lp in lps), q, "what was pending is forgotten or kept unchecked")
        if has:
            r = show(ld[0].res) + "?Some.0"
            me = q.heap("self").get("self", "")
            c.ob("negotiated", show(sp[0].args[1]) == f"{r}.pending_actions" and show(ss[0].args[1]) == f"{r}.streaming_actions" and f"pending_actions:={show(sp[0].res)}" in me and f"streaming_actions:={show(ss[0].res)}" in me, q, "other actions are taken over")
        for i in [Iter(q, tr, st) for lp in lps for tr, st in lp.iters]:
            s = i.ev(r"^Sender::try_send\(self\.flush_buffers_negotiator_input_tx, ")
            c.ob("negotiated", len(s) == 1 and show(s[0].args[1]).startswith("item("), i, "a pending action is not negotiated")
    cfg = Config(opaque=[r"Workflow::process_log$", r"Resolver::process_\w+$", r"MetricsCollector::emit_\w+$", r"WorkflowsEngine::prepare_actions$", r"Workflow::(is_in_initial_state|remove_all_runs)$", r"Workflow::is_in_initial_state$"])
    for q in c.paths_of(p, f"{EN}::process_log", cfg):
        if q.kind != "ret":
            continue
        fl = q.ev(r"^Resolver::process_flush_buffer_actions\(")
        if not fl:
            c.ob("negotiated", q.truth(r"0==len\(.*\.state\.workflows\)") is True, q, "what a log triggers is not looked at")
            r = show(q.rett)
            c.ob("negotiated", "capture_screenshot:false" in r and r.count(":BTreeSet::new()") == 2 and re.search(r"log_destination_buffer_ids:Borrowed\(&?\$3\)", r) is not None, q, f"without workflows: {r[:300]}")
            continue
        r = show(fl[0].res)
        lps = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == f"{r}.new_pending_actions_to_add"]
        c.ob("negotiated", len(fl) == 1 and len(lps) == 1 and q.whole(lps[0]), q, "not every new action is negotiated")
        for i in [Iter(q, tr, st) for lp in lps for tr, st in lp.iters]:
            s, n = i.ev(r"^Sender::try_send\(self\.flush_buffers_negotiator_input_tx, "), i.ev(r"^BTreeSet::insert\(")
            it = f"item({r}.new_pending_actions_to_add)"
            c.ob("negotiated", len(s) == len(n) == 1 and show(s[0].args[1]) == it == show(n[0].args[1]) and show(n[0].args[0]).endswith("state.pending_actions"), i, "a new action does not become pending, or is not negotiated")


GROUPS = [answer, results, started]
FLOORS = {"one-answer": 6, "remembered": 4, "retried": 1, "asks": 6, "every-action": 2, "no-longer-pending": 8, "one-flush": 8, "then-streams": 4, "negotiated": 8}
