"""While an action streams, logs for its buffers go to its destinations."""
from rules import *
from c32 import AF, RES, empty

EN = "bd_workflows::engine::WorkflowsEngine"


def ended(c):
    p = c.program("bd_workflows")
    c.rule("ends", "streaming ends when its flush has completed and it streamed its number of logs or the session changed, and only then")
    c.rule("ends-first", "what has ended is removed before the log is routed")
    for q in c.paths_of(p, f"{RES}::process_streaming_actions", Config()):
        rm = q.ev(r"^Vec::(retain_mut|retain|extract_if)\(\$2, ")
        f = closure_fn(q, rm[0].args[1]) if len(rm) == 1 else None
        if not c.ob("ends-first", q.kind == "ret" and f is not None and f"=$4" in show(rm[0].args[1]) and q.before(r"^Vec::retain", r"^(LOOP\[for\]|BTreeSet::|Extend::)"), q, "ended streaming is not removed first"):
            continue
        for x in c.paths_of(p, f):
            mx, lt = x.truth(r"\$2\.0\.max_logs_count is Some"), x.truth(r"\$2\.0\.logs_count<\$2\.0\.max_logs_count\?Some\.0")
            same = x.truth(r"\$1\.\w+==\$2\.0\.session_id|\$2\.0\.session_id==\$1\.\w+")
            comp = x.truth(r"\$2\.1")
            full = True if mx and lt is False else False if mx is False or lt else None
            over = True if full or same is False else False if full is False and same else None
            end = True if over and comp else False if over is False or comp is False else None
            h = x.heap(r"\$1\..*")
            c.ob("ends", x.kind == "ret" and end is not None and x.ret == ("false" if end else "true") and (not end or "true" in h.values()), x, "streaming ends too early or too late, or unnoticed")


def routed(c):
    p = c.program("bd_workflows")
    c.rule("rerouted", "a log destined for a buffer being streamed goes to the streaming's destinations instead, and counts for that streaming; one that is not is left alone")
    c.rule("rest-kept", "the existing buffers the log was destined for and nothing streams stay its destinations")
    c.rule("told", "whether anything about the streaming changed is told")
    for q in c.paths_of(p, f"{RES}::process_streaming_actions", Config()):
        rm = q.ev(r"^Vec::retain_mut\(\$2, ")
        if q.kind != "ret" or len(rm) != 1:
            continue
        acts = f"upd_by({show(rm[0].res)},0)"
        lps = [lp for lp in q.loops() if lp.name == "for" and any(f"item({acts})" in str(Iter(q, tr, st).state.facts) or any(f"item({acts})" in show(k) for k in st.facts) for tr, st in lp.iters)]
        if not c.ob("rerouted", len(lps) == 1 and q.whole(lps[0]), q, "not every streaming action is gone through"):
            continue
        kept = r"collect:BTreeSet\(\[each \$3: \{(BTreeSet::contains\(self\.continuous_buffer_ids,item\(\$3\)\) & !BTreeSet::contains\(self\.trigger_buffer_ids,item\(\$3\)\) => one\(item\(\$3\)\); BTreeSet::contains\(self\.trigger_buffer_ids,item\(\$3\)\) => one\(item\(\$3\)\)|BTreeSet::contains\(self\.trigger_buffer_ids,item\(\$3\)\) => one\(item\(\$3\)\); !BTreeSet::contains\(self\.trigger_buffer_ids,item\(\$3\)\) & BTreeSet::contains\(self\.continuous_buffer_ids,item\(\$3\)\) => one\(item\(\$3\)\)|BTreeSet::contains\(self\.continuous_buffer_ids,item\(\$3\)\) => one\(item\(\$3\)\); !BTreeSet::contains\(self\.continuous_buffer_ids,item\(\$3\)\) & BTreeSet::contains\(self\.trigger_buffer_ids,item\(\$3\)\) => one\(item\(\$3\)\))\}\]\)"
        any_ = False
        for i in [Iter(q, tr, st) for tr, st in lps[0].iters]:
            it = f"item({acts})"
            inter = [k for k in i.state.facts if re.fullmatch(rf"0==len\(collect:\w+\(BTreeSet::intersection\({re.escape(it)}\.0\.source_trigger_buffer_ids,\$3\)\)\)", show(k))] + [
                     k for k in i.state.facts if re.fullmatch(rf"BTreeSet::is_disjoint\(({re.escape(it)}\.0\.source_trigger_buffer_ids,\$3|\$3,{re.escape(it)}\.0\.source_trigger_buffer_ids)\)", show(k))]
            if not c.ob("rerouted", len(inter) == 1, i, "whether the log is for a streamed buffer is not decided"):
                continue
            no = i.state.facts[inter[0]]
            ext = [e for e in i.events() if re.match(r"(Extend::extend|BTreeSet::(extend|append|insert))\(", repr(e))]
            rt = i.ev(r"^BTreeSet::retain\(")
            cnt = i.heap(re.escape(it)).get(it, "")
            if no:
                c.ob("rerouted", not ext and not rt and "logs_count:=Add" not in cnt, i, "a log is rerouted by streaming that is not for it")
                continue
            any_ = True
            c.ob("rerouted", len(ext) == 1 and f"{it}.0.destination_continuous_buffer_ids" in show(ext[0].args[1]) and re.search(r"logs_count:=Add\((phi:\*)?" + re.escape(it) + r"\.0\.logs_count,1\)", cnt) is not None, i,
                 "a rerouted log does not reach the destinations, or is not counted")
            ok = len(rt) == 1 and (re.fullmatch(kept, show(rt[0].args[0])) or show(rt[0].args[0]).startswith("phi:"))
            f = closure_fn(i, rt[0].args[1]) if ok else None
            if c.ob("rest-kept", f is not None, i, "the streamed buffers stay destinations"):
                c.ob("rest-kept", "source_trigger_buffer_ids" in show(rt[0].args[1]), i, "other buffers are taken away")
                for x in c.paths_of(p, f):
                    v = x.truth(r"BTreeSet::contains\(\$1\.\w+(\.\w+)*,\$2\)")
                    c.ob("rest-kept", x.kind == "ret" and (re.fullmatch(r"!\(?BTreeSet::contains\(\$1\.\w+(\.\w+)*,\$2\)\)?", x.ret) is not None if v is None else x.ret == ("false" if v else "true")), x, "the wrong buffers are kept")
        c.ob("rerouted", any_, q, "no log is ever rerouted")
        ap = [e for e in q.trace if re.match(r"(BTreeSet::append|Extend::extend)\(", repr(e))]
        dst, upd, ch = (show(fld(q.rett, n)) for n in ("log_destination_buffer_ids", "updated_streaming_actions", "has_changed_streaming_actions"))
        c.ob("rest-kept", len(ap) == 1 and dst == f"upd_by({show(ap[0].res)},0)" and (re.fullmatch(kept, show(ap[0].args[1])) is not None or show(ap[0].args[1]).startswith("phi:")), q, "the destinations left are lost")
        c.ob("told", upd.startswith(f"[each {acts}: ") and f"one(item({acts}).0)" in upd and ch in ("true", f"upd_by({show(rm[0].res)},1.has_changed_streaming_actions)") or ch.startswith("phi:"), q, "the streaming left is lost, or a change not told")


def config(c):
    p = c.program("bd_workflows")
    c.rule("only-existing", "after a configuration change, actions name existing buffers only, and those without any are dropped")
    tr, co = "self.trigger_buffer_ids", "self.continuous_buffer_ids"

    def inter(f, s):
        return rf"collect:BTreeSet\(BTreeSet::intersection\((item\(\$2\)\.{f},{re.escape(s)}|{re.escape(s)},item\(\$2\)\.{f})\)\)"

    for fn, parts in (("standardize_pending_actions", [("trigger_buffer_ids", tr)]), ("standardize_streaming_buffers", [("destination_continuous_buffer_ids", co), ("source_trigger_buffer_ids", tr)])):
        for q in c.paths_of(p, f"{RES}::{fn}", Config()):
            cond = [rf"!0==len\({inter(f, s)}\)|!BTreeSet::is_disjoint\((item\(\$2\)\.{f},{re.escape(s)}|{re.escape(s)},item\(\$2\)\.{f})\)" for f, s in parts]
            m = re.fullmatch(r"(?:collect:BTreeSet\()?\[each \$2: \{(.*) => one\(item\(\$2\)\{(.*)\}\)\}\]\)?", q.ret)
            cs = m.group(1).split(" & ") if m else []
            fs = [rf"{f}:={inter(f, s)}" for f, s in parts]
            c.ob("only-existing", q.kind == "ret" and m is not None and len(cs) == len(cond) and all(any(re.fullmatch(x, y) for y in cs) for x in cond) and re.fullmatch(",".join(fs), m.group(2)) is not None, q,
                 "an action keeps a buffer that does not exist, or is dropped without need")
    for q in c.paths_of(p, f"{EN}::update", Config(opaque=[r"WorkflowsEngine::(add|remove)_workflow$", r"Resolver::standardize_\w+$", r"Workflow::\w+$", r"Config::id$"])):
        if q.kind != "ret":
            continue
        sp, ss = q.ev(r"^Resolver::standardize_pending_actions\("), q.ev(r"^Resolver::standardize_streaming_buffers\(")
        now = " ".join(q.heap(".*").values())
        c.ob("only-existing", all(f"{f}:=$2.{f}" in now for f in ("trigger_buffer_ids", "continuous_buffer_ids")), q, "the buffers that exist are not taken from the new configuration")
        c.ob("only-existing", len(sp) == len(ss) == 1, q, "actions are not checked against the new configuration")
        for e, f in zip(sp + ss, ("pending_actions", "streaming_actions")):
            c.ob("only-existing", show(e.args[1]).endswith(f"state.{f}") and "$2.trigger_buffer_ids" in show(q.e.view(q.state, e.args[0])) + str(q.heap(".*")) and any(f"{f}:={show(e.res)}" in v for v in q.heap(".*").values()), q, "other actions are checked")


def wired(c):
    p = c.program("bd_workflows")
    c.rule("each-log", "every log is routed by all that streams, which is told whether its flush completed; what is left is what streams on")
    c.rule("result", "the destinations decided on are the log's")
    cfg = Config(opaque=[r"Workflow::process_log$", r"Resolver::process_\w+$", r"MetricsCollector::emit_\w+$", r"WorkflowsEngine::prepare_actions$", r"Workflow::(is_in_initial_state|remove_all_runs)$"])
    for q in c.paths_of(p, f"{EN}::process_log", cfg):
        if q.kind != "ret":
            continue
        s = q.ev(r"^Resolver::process_streaming_actions\(")
        if q.truth(r"0==len\(self\.state\.workflows\)"):
            c.ob("result", not s and "log_destination_buffer_ids:Borrowed($3)" in q.ret, q, "without workflows a log goes elsewhere")
            continue
        if not c.ob("each-log", len(s) == 1 and show(s[0].args[2]) == "$3" and show(s[0].args[3]) in ("$2.session_id", "self.state.session_id"), q, "a log is not routed once"):
            continue
        a = show(s[0].args[1])
        it = "item(self.state.streaming_actions)"
        rx_ = f"HashMap::get_mut(self.pending_buffer_flushes,{it}.id)"
        cases = re.sub(r"#\d+", "", a)
        want = [("!" + rx_ + " is Some", "true"), (rx_ + " is Some & !Receiver::try_recv(" + rx_ + "?Some.0) is Ok & Receiver::try_recv(" + rx_ + "?Some.0)?Err.0 is Empty", "false")]
        m = re.fullmatch(r"\[each self\.state\.streaming_actions: \{(.*)\}\]", cases)
        parts = dict(x.split(" => ") for x in m.group(1).split("; ")) if m else {}
        c.ob("each-log", all(parts.get(k) == f"one(({it},{v}))" for k, v in want) and [k for k, v in parts.items() if v.endswith(",false))")] == [want[1][0]], q, "streaming ends before its flush completed, or never")
        r = show(s[0].res)
        c.ob("each-log", f"streaming_actions:={r}.updated_streaming_actions" in q.heap("self").get("self", ""), q, "what is left is not what streams on")
        c.ob("result", show(fld(q.rett, "log_destination_buffer_ids")) == f"Owned({r}.log_destination_buffer_ids)", q, "the log goes elsewhere")


GROUPS = [ended, routed, config, wired]
FLOORS = {"ends": 8, "ends-first": 1, "rerouted": 4, "rest-kept": 3, "told": 1, "only-existing": 4, "each-log": 4, "result": 3}
