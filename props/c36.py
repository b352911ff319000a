"""Workflow runs advance exactly on the logs they wait for, and all traversals are accounted for."""
from rules import *

WF = "bd_workflows::workflow"
EN = "bd_workflows::engine::WorkflowsEngine"


def traversal(c):
    p = c.program("bd_workflows")
    c.rule("counts", "every transition of the state a traversal is in is tried on every log, and counts exactly those it matches")
    c.rule("follows", "a transition is followed exactly when the log is the last of those it waits for: its actions are triggered and its target is the next state, unless final")
    c.rule("fresh", "a traversal starts with nothing counted, and there is none for a state without transitions")
    cfg = Config(opaque=[r"Tree::do_match", r"Traversal::(new|sankey_states|triggered_actions)$"])
    for q in c.paths_of(p, f"{WF}::Traversal::process_log", cfg):
        lps = [lp for lp in q.loops() if lp.src is not None and re.search(r"\.states,self\.state_index\)\.transitions$", show(lp.src))]
        if not c.ob("counts", q.kind == "ret" and len(lps) == 1 and q.whole(lps[0]), q, "not every transition is tried"):
            continue
        lp, s = lps[0], show(lps[0].src)
        t = f"item({s})"
        cnt = rf"Index::index(self.matched_logs_counts,index({t}))"
        done = f"Add(phi:*{cnt},1)=={t}.rule?LogMatch.1"
        trig = f"Traversal::triggered_actions({t}.actions,"
        acts, outs = fld(q.rett, "triggered_actions"), fld(q.rett, "output_traversals")
        fc, mc = (carried(q, lp, re.escape(show(fld(q.rett, n)))) for n in ("followed_transitions_count", "matched_logs_count"))
        if not c.ob("follows", fc is not None and mc is not None and {show(x) for x in fc[0] + mc[0]} == {"0"}, q, "what was followed is not counted from 0"):
            continue
        cases = {}
        for name, v in (("a", acts), ("o", outs)):
            m = re.fullmatch(r"\[each " + re.escape(s) + r": \{(.*)\}\]", show(v))
            for x in (m.group(1).split("; ") if m else ["?"]):
                g, _, r = x.partition(" => ")
                cases.setdefault(name, []).append((set(g.split(" & ")), r))
        for n, (tr, st) in enumerate(lp.iters):
            i = Iter(q, tr, st)
            dm = i.ev(r"^Tree::do_match\(")
            lm = i.truth(re.escape(t) + r"\.rule is LogMatch")
            if lm is False:
                hit = False
            else:
                if not c.ob("counts", len(dm) == 1 and [show(a) for a in dm[0].args] == [f"{t}.rule?LogMatch.0", "$3.log_level", "$3.log_type", "$3.message", "$3.fields"], i, "a transition is not tried on the log"):
                    continue
                hit = i.truth(re.escape(show(dm[0].res)))
            now = i.heap(re.escape(cnt)).get(cnt, cnt)
            mv, fv = show(mc[1].get(n)) if n in mc[1] else "", show(fc[1].get(n)) if n in fc[1] else ""
            mphi, fphi = show(fld(q.rett, "matched_logs_count")), show(fld(q.rett, "followed_transitions_count"))
            c.ob("counts", now == (f"Add(phi:*{cnt},1)" if hit else f"phi:*{cnt}") and mv == (f"Add({mphi},1)" if hit else mphi), i, "a log is counted wrongly")
            full = i.truth(re.escape(done)) if hit else False
            new, ta = i.ev(r"^Traversal::new\("), i.ev(r"^Traversal::triggered_actions\(")
            if not c.ob("follows", full is not None and fv == (f"Add({fphi},1)" if full else fphi) and len(new) == len(ta) == (1 if full else 0), i, "a transition is followed too early, too late or unnoticed"):
                continue
            if full:
                sk = i.ev(r"^Traversal::sankey_states\(")
                c.ob("follows", show(ta[0].args[0]) == f"{t}.actions" and show(new[0].args[0]) == "$2" and show(new[0].args[1]) == f"{t}.target_state_index" and len(sk) == 1
                     and show(new[0].args[2]) == f"upd_by({show(ta[0].res)},1)" and show(sk[0].args[2]) == f"index({t})", i, "another transition's actions or state are taken")
        # what is collected: the actions whenever followed, the next traversal whenever there is one
        base = {done, f"{t}.rule is LogMatch"}
        for name, what in (("a", trig), ("o", "one(Traversal::new($2,")):
            known = re.compile(r"!?Traversal::new\(.* is Some|Tree::do_match\(.*\)(#\d+)?|" + "|".join(map(re.escape, base)))
            c.ob("follows", all(r.startswith(what) and base <= g and all(known.fullmatch(x) for x in g) for g, r in cases[name]), q, "actions or next states are lost or made up")
        so = [next((x for x in g if x.endswith(" is Some")), "") for g, _ in cases["a"]]
        c.ob("follows", not any(so) or {x.startswith("!") for x in so} == {True, False}, q, "actions are triggered only for some next states")
    for q in c.paths_of(p, f"{WF}::Traversal::new", Config()):
        e = [v for k, v in q.state.facts.items() if re.fullmatch(r"0==len\((Index::index\(\$1\.states,\$2\)|\$1\.states\[\$2\])\.transitions\)", show(k))]
        if q.kind == "ret" and c.ob("fresh", len(e) == 1 and (q.ret == "None") == e[0], q, "a final state is not recognised"):
            c.ob("fresh", e[0] or re.fullmatch(r"Some\(Traversal\{matched_logs_counts:(vec::)?from_elem\(0,len\((Index::index\(\$1\.states,\$2\)|\$1\.states\[\$2\])\.transitions\)\)(#1)?,sankey_states:\$3,state_index:\$2\}\)", q.ret) is not None, q, "a traversal starts differently")
    for q in c.paths_of(p, f"{WF}::Run::new", Config(opaque=[r"Traversal::new$"])):
        if q.kind == "ret":
            tn = q.ev(r"^Traversal::new\(\$1, 0, None\)")
            s = q.truth(re.escape(show(tn[0].res)) + " is Some") if tn else None
            tv = show(fld(q.rett, "traversals"))
            c.ob("fresh", len(tn) == 1 and show(fld(q.rett, "matched_logs_count")) == "0" and show(fld(q.rett, "first_progress_occurred_at")) == "None"
                 and tv in ("[]" if s is False else f"[{show(tn[0].res)}?Some.0]",), q, "a run starts differently")


def stop_facts(q, tp, occurred):
    """(over the matched-log limit, over the time limit), None where not decided."""
    lim = q.truth(r"\$2\.matched_logs_count_limit is Some")
    over = False if lim is False else q.truth(r"\$2\.matched_logs_count_limit\?Some\.0<Add\(" + tp + r"\.matched_logs_count,phi:\*self\.matched_logs_count\)")
    dur, first = q.truth(r"\$2\.duration_limit is Some"), q.truth(r"phi:\*self\.first_progress_occurred_at is Some")
    since = r"SystemTime::duration_since\(\$3\.occurred_at,phi:\*self\.first_progress_occurred_at\?Some\.0\)(#\d+)?"
    late = False if dur is False or first is False else None
    if late is None:
        okk = q.truth(since + " is Ok")
        late = False if okk is False else q.truth(r"\$2\.duration_limit\?Some\.0<" + since + r"\?Ok\.0")
    return over, late


def run(c):
    p = c.program("bd_workflows")
    c.rule("each-traversal", "every traversal of a run sees the log, once")
    c.rule("replaced", "a traversal that followed a transition is replaced by its successors, any other stays")
    c.rule("stopped", "a run stops exactly if it matched more logs than allowed or lasts too long since its first progress, and then triggers nothing")
    c.rule("reports", "what a run reports is what changed about its traversals")
    c.rule("completed", "a run is complete exactly when it has no traversals left")
    for q in c.paths_of(p, f"{WF}::Run::process_log", Config(opaque=[r"Traversal::\w+$"])):
        if q.kind != "ret":
            c.ob("each-traversal", False, q, "may panic")
            continue
        lps = [lp for lp in q.loops() if any(re.match(r"Traversal::process_log\(", repr(e)) for tr, st in lp.iters for e in Iter(q, tr, st).events())]
        if not c.ob("each-traversal", len(lps) == 1 and lps[0].src is not None and show(lps[0].src) == "rev(Range{end:len(self.traversals),start:0})", q, "not every traversal is gone through, last first"):
            continue
        lp = lps[0]
        v = {n: next((x for k, x in lp.vars.items() if show(k) == f"phi:*self.{n}"), None) for n in ("traversals", "matched_logs_count", "first_progress_occurred_at")}
        stopped = fld(q.rett, "state").a[1] == "Stopped" if fld(q.rett, "state").op == "agg" else None
        names = ("created_traversals_count", "completed_traversals_count", "advanced_traversals_count", "matched_logs_count")
        res = {n: linear(fld(q.rett, n)) for n in names}
        if stopped:
            over, late = stop_facts(q, TP, None)
            c.ob("stopped", bool(over) or bool(late), q, "a run stops without need")
            c.ob("stopped", show(fld(q.rett, "triggered_actions")) == "[]", q, "a stopped run triggers actions")
        else:
            c.ob("stopped", q.whole(lp), q, "a run stops without being marked as such")
            e = q.truth(r"0==len\(phi:\*self\.traversals\)")
            c.ob("completed", show(fld(q.rett, "state")) == ("Completed" if e else "Running") and e is not None, q, "completion is not recognised")
            tv = show(fld(q.rett, "triggered_actions"))
            m = re.fullmatch(r"\[each rev\(Range\{end:len\(self\.traversals\),start:0\}\): \{(.*)\}\]", tv)
            c.ob("reports", m is not None and all(re.search(r" => (Traversal::process_log\(.*\)#1\.triggered_actions)$", x) for x in m.group(1).split("; ")) and "sometimes" not in tv, q, "triggered actions are lost")
        # the counters reported, as loop variables whatever their names
        phis = {n: next((k for k in lp.vars if show(k) in res[n]), None) for n in names}
        for n in ("created_traversals_count", "completed_traversals_count"):
            if phis[n] is None:
                c.ob("reports", False, q, f"traversals {n[:7]} before the run stopped are not reported" if stopped else f"{n} is not counted")
        if any(phis[n] is None for n in names[:2]):
            continue
        c.ob("reports", all(res[n] == {show(phis[n]): 1} and {show(x) for x in lp.vars[phis[n]][0]} == {"0"} for n in names[:2]), q, "traversals are not counted from 0")
        mk, ak = (phis[x] for x in ("matched_logs_count", "advanced_traversals_count"))
        c.ob("reports", mk is not None and ak is not None and all({show(x) for x in lp.vars[k][0]} == {"0"} for k in (mk, ak)), q, "matched logs and advanced traversals are not counted from 0")
        if mk is not None:
            d = diff(res["matched_logs_count"], {show(mk): 1})
            c.ob("reports", not d if not stopped else list(d.values()) == [1] and re.fullmatch(TP + r"\.matched_logs_count", next(iter(d))) is not None, q, f"of the logs matched, reported is {res['matched_logs_count']}")
        if ak is not None:
            c.ob("reports", not diff(res["advanced_traversals_count"], {show(ak): 1}), q, "the traversals advanced are not reported")
        for n, (tr, st) in enumerate(lp.iters):
            i = Iter(q, tr, st)
            pl = i.ev(r"^Traversal::process_log\(")
            if not c.ob("each-traversal", len(pl) == 1 and re.fullmatch(r"Index::index\(phi:\*self\.traversals,item\(rev\(Range\{end:len\(self\.traversals\),start:0\}\)\)\)", show(pl[0].args[0])) is not None
                        and [show(a) for a in pl[0].args[1:]] == ["$2", "$3"], i, "a traversal does not see the log once"):
                continue
            P = show(pl[0].res)
            over, late = stop_facts(i, re.escape(P), None)
            c.ob("stopped", over is False and late is False, i, "a run over its limits goes on")
            c.ob("stopped", show(v["matched_logs_count"][1][n]) in (f"Add({P}.matched_logs_count,phi:*self.matched_logs_count)", f"Add(phi:*self.matched_logs_count,{P}.matched_logs_count)"), i, "matched logs are not counted")
            first = i.truth(r"phi:\*self\.first_progress_occurred_at is Some")
            prog = i.truth("0==" + re.escape(P) + r"\.matched_logs_count")
            z = i.truth("0==" + re.escape(P) + r"\.matched_logs_count")
            made = (not prog) if prog is not None else (not z) if z is not None else None
            want = "phi:*self.first_progress_occurred_at" if first or made is False else "Some($3.occurred_at)" if first is False and made else None
            if want is None and first is False and i.truth("0==" + re.escape(P) + r"\.followed_transitions_count") is False:
                want = "Some($3.occurred_at)"  # a followed transition implies a matched log
            c.ob("stopped", v["first_progress_occurred_at"] is not None and show(v["first_progress_occurred_at"][1][n]) == want, i, "the time of the first progress is not kept")
            fol = i.truth("0==" + re.escape(P) + r"\.followed_transitions_count|" + re.escape(P) + r"\.followed_transitions_count<1")
            spl = [e for e in i.events() if re.match(r"Vec::\w+\((phi:\*)?self\.traversals[,)]", repr(e))]
            idx = "item(rev(Range{end:len(self.traversals),start:0}))"
            if not c.ob("replaced", fol is not None and len(spl) == (0 if fol else 1), i, "a traversal is replaced without, or kept despite, a transition followed"):
                continue
            if not fol:
                c.ob("replaced", [show(a) for a in spl[0].args[1:]] == [f"RangeInclusive{{end:{idx},exhausted:false,start:{idx}}}", f"{P}.output_traversals"], i, "a traversal is not replaced by its successors")
            none = i.truth("0==" + re.escape(f"len({P}.output_traversals)"))
            o = f"len({P}.output_traversals)"
            zero = (o,) if none else ()
            d = diff(diff(linear(lp.vars[phis[names[0]]][1][n], zero), {show(phis[names[0]]): 1}), diff(linear(lp.vars[phis[names[1]]][1][n]), {show(phis[names[1]]): 1}))
            if mk is not None and ak is not None:
                c.ob("reports", diff(linear(lp.vars[mk][1][n]), {show(mk): 1}) == {f"{P}.matched_logs_count": 1}, i, "the logs a traversal matched are not added up")
                c.ob("reports", diff(linear(lp.vars[ak][1][n]), {show(ak): 1}) == ({} if fol else {"": 1}), i, "a traversal that advanced is not counted, or one that did not is")
            c.ob("reports", d == ({} if fol else {"": -1} if none else {o: 1, "": -1}), i, "the change in the number of traversals is not what is reported")


STATES = ("Stopped", "Completed", "Running")
TP = r"Traversal::process_log\(.*\)#1"


def grew(lp, field, n):
    """By how much iteration n makes a field of the result grow: the terms it may be, as linear forms."""
    out = []
    for k, (before, after) in lp.vars.items():
        if show(k).endswith(field) and n in after:
            for x in [k, *before]:
                d = dict(linear(after[n]))
                for t, v in linear(x).items():
                    d[t] = d.get(t, 0) - v
                    if not d[t]:
                        del d[t]
                if x is k or set(d) <= {""}:
                    out.append(d)
    return out


def stats(c, q, lp, its):
    """What a workflow's run results come to."""
    for i, n in its:
        pl = [e for e in i.events() if re.match(r"Run::process_log\(Index::index\(", repr(e))]
        if len(pl) != 1:
            continue
        P, RUN = show(pl[0].res), show(pl[0].args[0])
        acts = [(show(k), show(after[n])) for k, (_, after) in lp.vars.items() if show(k).endswith(".triggered_actions") and n in after]
        c.ob("handed-on", len(acts) == 1 and acts[0][1] == f"[{acts[0][0]} ++ {P}.triggered_actions]", i, f"the actions a run triggers are not handed on: {[a[1][-120:] for a in acts]}")
        for x in ("created", "advanced", "completed"):
            g = grew(lp, f".{x}_traversals_count", n)
            c.ob("added-up", {f"{P}.{x}_traversals_count": 1} in g, i, f"the {x} traversals of a run are not added up")
        c.ob("added-up", {f"{P}.matched_logs_count": 1} in grew(lp, ".matched_logs_count", n), i, "the matched logs of a run are not added up")
        f = {show(k): v for k, v in i.state.facts.items()}
        st = next((s for s in STATES if f.get(f"{P}.state is {s}")), None)
        if st is None and all(f.get(f"{P}.state is {s}") is False for s in STATES[:2]):
            st = "Running"
        over = next((v for k, v in f.items() if k.startswith("$5<")), None)
        rem = [e for e in i.events() if re.match(r"Vec::remove\((phi:\*)?self\.runs, ", repr(e))]
        act = [e for e in rem if show(e.args[1]).startswith("Add(")]
        ends = st == "Stopped" or over
        k = bool(ends) + len(act)
        c.ob("added-up", ({"": k} if k else {}) in grew(lp, ".stopped_runs_count", n), i, "a run that is stopped is not counted, or one is that is not")
        c.ob("added-up", ({"": 1} if over else {}) in grew(lp, ".traversals_count_limit_hit_count", n) or not over and not grew(lp, ".traversals_count_limit_hit_count", n), i, "hitting the limit is not counted")
        done = not ends and st == "Completed"
        c.ob("added-up", ({"": 1} if done else {}) in grew(lp, ".completed_runs_count", n) or not done and not grew(lp, ".completed_runs_count", n), i, "a run that completes is not counted, or one is that does not")
        z = f.get(f"0=={P}.advanced_traversals_count")
        adv = True if done or not ends and z is False else False if ends or z else None
        c.ob("added-up", adv is not None and ({"": 1} if adv else {}) in grew(lp, ".advanced_runs_count", n), i, "a run that advances is not counted, or one is that does not")
        gone = grew(lp, ".stopped_traversals_count", n)
        own = {f"Run::traversals_count({x})#1" for x in [RUN, *[show(e.res) for e in rem if e not in act]]} if ends else {None}
        other = {f"Run::traversals_count({x})#1" for e in act for x in (show(e.res), f"Index::index(phi:*self.runs,{show(e.args[1])})")} or {None}
        c.ob("added-up", any({k: 1 for k in (a, b) if k} in gone for a in own for b in other), i, f"the traversals that end with a stopped run are not added up: {gone[:1]}")
    flags = [k for k, v in lp.entry.store.items() if k[0] == "L" and v.op == "bool" and len({show(st.store[k]) for tr, st in lp.iters if k in st.store}) == 2]
    prog = []
    for i, _ in its:
        f = {show(k): v for k, v in i.state.facts.items()}
        P = next((show(e.res) for e in i.events() if re.match(r"Run::process_log\(Index::index\(", repr(e))), "?")
        if f.get(f"0=={P}.matched_logs_count") is not True and not any(k.startswith("$5<") and v for k, v in f.items()) and (f.get(f"{P}.state is Running") or all(f.get(f"{P}.state is {s}") is False for s in STATES[:2])):
            prog.append(i)
    c.ob("reset", not flags or any(all(show(i.state.store[k]) != show(lp.entry.store[k]) for i in prog if k in i.state.store) for k in flags), q, "progress is assumed before a run made any, or forgotten")


def workflow(c):
    p = c.program("bd_workflows")
    c.rule("handed-on", "all actions that runs trigger are handed on, in order")
    c.rule("added-up", "what a workflow reports is the sum of what its runs report, and each run that advances, completes, stops or hits the limit is counted as that")
    c.rule("each-run", "every run of a workflow sees the log, except the waiting one of an exclusive workflow whose active run made progress")
    c.rule("ended", "a run is removed exactly if it stopped, completed or exceeds the allowed number of traversals")
    c.rule("reset", "in an exclusive workflow the active run is given up exactly if the waiting one made progress")
    c.rule("accounted", "the count of traversals changes by what runs report and what is removed")
    c.rule("one-waits", "a new run is added exactly if none is waiting in the first state and it fits in the allowed number of traversals")
    I = "item(rev(Range{end:len(self.runs),start:0}))"
    seen = False
    for q in c.paths_of(p, f"{WF}::Workflow::process_log", Config(opaque=[r"Run::\w+$", r"Workflow::(needs_new_run|maybe_add_run)$"])):
        nn = q.ev(r"^Workflow::needs_new_run\(self\)")
        need = q.truth(re.escape(show(nn[0].res))) if len(nn) == 1 else None
        add = q.ev(r"^Workflow::maybe_add_run\(self, ")
        if not c.ob("one-waits", need is not None and len(add) == (1 if need else 0) and (not add or [show(a) for a in add[0].args[1:5]] == ["$2", "Run::new($2)#1", "$4", "$5"]), q, "a run is added although one waits, or not though none does"):
            continue
        if need:
            continue  # the same from there on, with the run added
        lps = [lp for lp in q.loops() if any(re.match(r"Run::process_log\(Index", repr(e)) for tr, st in lp.iters for e in tr if hasattr(e, "args"))]
        if not c.ob("each-run", q.kind == "ret" and len(lps) == 1, q, "runs are not gone through, last first"):
            continue
        lp = lps[0]
        cv, rv = carried(q, lp, r"phi:\*\$4"), carried(q, lp, r"phi:\*self\.runs")
        its = [(Iter(q, tr, st), n) for n, (tr, st) in enumerate(lp.iters)]
        for i, n in its:
            pl = [e for e in i.events() if re.match(r"Run::process_log\(Index::index\((phi:\*)?self\.runs,", repr(e))]
            if not c.ob("each-run", len(pl) == 1 and show(pl[0].args[0]) == f"Index::index(phi:*self.runs,{I})" and [show(a) for a in pl[0].args[1:]] == ["$2", "$3"], i, "a run does not see the log once"):
                continue
            seen = True
            P, RUN = show(pl[0].res), show(pl[0].args[0])
            stopped, compl = (True if i.truth(re.escape(P) + rf"\.state is {s}") else False if i.truth(re.escape(P) + rf"\.state is {s}") is False
                              or any(i.truth(re.escape(P) + rf"\.state is {o}") for o in STATES if o != s) else None for s in STATES[:2])
            now = linear(cv[1][n])
            over = [v for k, v in i.state.facts.items() if show(k).startswith("$5<")]
            over = over[0] if over else None
            rem = [e for e in i.events() if re.match(r"Vec::(remove|swap_remove)\((phi:\*)?self\.runs, ", repr(e))]
            own = [e for e in rem if show(e.args[1]) == I]
            act = [e for e in rem if show(e.args[1]) == f"Add({I},1)"]
            ends = True if stopped or over or compl else False if stopped is False and over is False and compl is False else None
            c.ob("ended", ends is not None and len(own) == (1 if ends else 0) and len(rem) == len(own) + len(act) and all("swap" not in repr(e) for e in rem), i, "a run is removed without need, or kept")
            want = {"phi:*$4": 1, f"{P}.created_traversals_count": 1, f"{P}.completed_traversals_count": -1}
            alt = dict(want)
            if own:
                t = {f"Run::traversals_count({RUN})#1": -1}
                t2 = {f"Run::traversals_count({show(own[0].res)})#1": -1}
                alts = [dict(want, **t), dict(want, **t2)] + ([want] if compl and not over and not stopped else [])
            else:
                alts = [want]
            if act:
                x = {f"Run::traversals_count({show(act[0].res)})#1": -1, f"Run::traversals_count(Index::index(phi:*self.runs,Add({I},1)))#1": -1}
                alts = [dict(a, **{k: -1}) for a in alts for k in x]
            c.ob("accounted", now in alts, i, "traversals are lost count of")
            f = {show(k): v for k, v in i.state.facts.items()}
            zero = f.get(f"0=={I}")
            few = [v for k, v in f.items() if re.fullmatch(r"len\(.*self\.runs.*\)<2", k)]
            ex = next((v for k, v in f.items() if re.fullmatch(r"\$2\.execution is Exclusive", k)), None)
            if ex is None:
                pa = next((v for k, v in f.items() if re.fullmatch(r"\$2\.execution is Parallel", k)), None)
                ex = None if pa is None else not pa
            if act:
                c.ob("reset", ex and zero and few == [False] and len(act) == 1, i, "an active run is given up without need")
            prog = [v for k, v in f.items() if k == f"0=={P}.matched_logs_count"]
            if stopped is False and compl is False and over is False and prog == [False] and ex and few == [False]:
                c.ob("reset", zero is not None and (len(act) == 1 if zero else False), i, "the active run is kept, or the waiting one sees a log the active one took")
        stats(c, q, lp, its)
        out = show(fld(q.rett, "triggered_actions"))
        c.ob("handed-on", re.fullmatch(r"(\[)?phi:[\w.*]*triggered_actions( \+\+ Run::process_log\(Index::index\(.*\)#1\.triggered_actions\])?", out) is not None, q, f"what is handed on is {out[-200:]}")
        c.ob("reset", any("Add(" in repr(e) for i, _ in its for e in i.events() if repr(e).startswith("Vec::remove")), q, "an exclusive workflow is never reset")
    c.ob("each-run", seen, None, "no run sees the log")
    for q in c.paths_of(p, f"{WF}::Workflow::needs_new_run", Config(opaque=[r"Run::is_in_initial_state$"])):
        if q.kind == "ret":
            e = q.truth(r"0==len\(self\.runs\)")
            w = q.truth(r"Run::is_in_initial_state\(item\(self\.runs\)\)(#\d+)?")
            lps = q.loops()
            c.ob("one-waits", q.ret == ("false" if w else "true") and (w or e or len(lps) == 1 and q.whole(lps[0])), q, "whether a run waits is not looked at")
    for q in c.paths_of(p, f"{WF}::Workflow::maybe_add_run", Config(pure=[r"Run::traversals_count$"])):
        if q.kind != "ret":
            continue
        t = "Run::traversals_count($3)"
        over = q.truth(r"\$5<Add\((" + re.escape(t) + r",\$4|\$4," + re.escape(t) + r")\)")
        ins = [e for e in q.events() if re.match(r"Vec::\w+\(self\.runs[,)]", repr(e))]
        cnt = q.heap(r"\$4").get("$4", "$4")
        runs = q.heap("self").get("self", "")
        kept = "$3" in runs
        ex = q.truth(r"\$2\.execution is Exclusive")
        pa = q.truth(r"\$2\.execution is Parallel")
        if not c.ob("one-waits", over is not None and kept == (not over) and q.ret == ("false" if over else "true"), q, "a run is added beyond the limit, or refused within"):
            continue
        c.ob("accounted", cnt in (("$4", ) if over else (f"Add({t},$4)", f"Add($4,{t})")), q, "a new run's traversals are not counted")
        res = q.x.heap().get(next((k for k in q.x.heap() if show(k) == "$6"), None))
        def more(field):
            v = fld(fld(res, "stats"), field) if res is not None else None
            return None if v is None else diff(linear(v), {f"$6.stats.{field}": 1})
        one = {"": 1}
        c.ob("added-up", (more("traversals_count_limit_hit_count"), more("created_runs_count"), more("created_traversals_count")) == ((one, {}, {}) if over else ({}, one, {t: 1})), q, "that a run is added, or the limit hit, is not counted")
        if kept:
            e = ex if ex is not None else not pa
            c.ob("one-waits", re.search(r"runs:=(upd_by\(Vec::insert\(self\.runs,0,\$3\)(#1)?,0\)|\[one\(\$3\) \+\+ self\.runs\])" if e else r"runs:=\[self\.runs \+\+ one\(\$3\)\]", runs) is not None, q, f"a new run is put in the wrong place: {runs[-200:]}")


def total(v, runs, one):
    """v is the sum of what `one` gives for each of `runs`."""
    return re.fullmatch(r"sum\(\[each " + re.escape(runs) + r": \{ => one\(" + one.replace("ITEM", re.escape(f"item({runs})")) + r"(#\d+)?\)\}\]\)", v) is not None


def engine(c):
    p = c.program("bd_workflows")
    c.rule("each-workflow", "every workflow sees every log, with its own configuration and the count shared by all")
    c.rule("removed-accounted", "what a removed workflow or a new session ends is taken off the count")
    c.rule("trimmed", "a workflow is added without its latest runs that do not fit, and the rest is counted")
    c.rule("saved-active", "what is saved of a workflow is its runs that left the first state")
    c.rule("counted", "what counts as traversals of a workflow is all those of all its runs")
    seen = False
    for q in c.paths_of(p, f"{EN}::process_log", Config(opaque=[r"Workflow::(process_log|is_in_initial_state|remove_all_runs)$", r"Resolver::\w+$", r"MetricsCollector::\w+$", r"WorkflowsEngine::prepare_actions$"])):
        for lp in q.loops():
            for tr, st in lp.iters:
                i = Iter(q, tr, st)
                pl = i.ev(r"^Workflow::process_log\(")
                if not pl:
                    continue
                seen = True
                a = [show(x) for x in pl[0].args]
                src = show(lp.src) if lp.src is not None else ""
                c.ob("each-workflow", len(pl) == 1 and q.whole(lp) and re.search(r"\.workflows$", src) is not None and a[0] in (f"item({src})", f"item({src})#0"), i, "not every workflow sees the log, once")
                c.ob("each-workflow", re.fullmatch(r"(Index::index\()?self\.configs(,|\[)index\(" + re.escape(f"item({src})") + r"(#0)?\)[\])]", a[1]) is not None and a[2] == "$2", i, f"a workflow sees the log with another's configuration: {a[1]}")
                c.ob("each-workflow", re.fullmatch(r"(phi:\*)?self\.current_traversals_count", a[3]) is not None and a[4] == "self.traversals_count_limit", i, "the count is not shared")
    c.ob("each-workflow", seen, None, "no workflow sees the log")
    for q in c.paths_of(p, f"{EN}::remove_workflow", Config(pure=[r"Workflow::(traversals_count|is_in_initial_state)$"], opaque=[r"Workflow::(traversals_count|is_in_initial_state)$"])):
        if q.kind == "ret":
            now, w = show(fld(self_now(q), "current_traversals_count")), r"Vec::(swap_)?remove\(self\.state\.workflows,\$2\)(#\d+)?"
            c.ob("removed-accounted", re.fullmatch(r"num::saturating_sub\(self\.current_traversals_count,Workflow::traversals_count\(" + w + r"\)(#\d+)?\)", now) is not None, q, f"what a removed workflow had is not taken off: {now}")
            rm = [re.match(r"Vec::(\w+)\(self\.(configs|state\.workflows), \$2\)", repr(e)) for e in q.events() if re.match(r"Vec::", repr(e))]
            c.ob("removed-accounted", len(rm) == 2 and all(rm) and {m.group(2) for m in rm} == {"configs", "state.workflows"} and len({m.group(1) for m in rm}) == 1, q, "a workflow and its configuration are not removed together")
    for q in c.paths_of(p, f"{EN}::clean_state", Config()):
        if q.kind == "ret":
            h = q.heap("self").get("self", "")
            c.ob("removed-accounted", "current_traversals_count:=0" in h, q, "the count survives what it counted")
            cl = [lp for lp in q.loops() if any(show(lp.src or NONE).endswith("workflows") and q.whole(lp) for _ in "1")]
            gone = [i for i in iterations(q) if "[]" in [str(x) for x in i.heap(r".*\.runs").values()] or i.ev(r"^Vec::clear\(item\(self\.state\.workflows\)\.runs\)")]
            c.ob("removed-accounted", len(cl) == 1 and len(gone) >= 1, q, "runs of the ended session go on")
    for q in c.paths_of(p, f"{EN}::add_workflow", Config(opaque=[r"Run::traversals_count$"])):
        if q.kind != "ret":
            continue
        h = self_now(q)
        over = [v for k, v in q.state.facts.items() if re.fullmatch(r"self\.traversals_count_limit<Add\((self\.current_traversals_count,sum\(\[each \$2\.runs: .*\]\)|sum\(\[each \$2\.runs: .*\]\),self\.current_traversals_count)\)", show(k))]
        ws, cf, n = fld(fld(h, "state"), "workflows"), show(fld(h, "configs")), show(fld(h, "current_traversals_count"))
        m = re.fullmatch(r"\[self\.state\.workflows \+\+ one\(\$2(\{runs:=(.*)\})?\)\]", show(ws))
        if not c.ob("trimmed", len(over) == 1 and m is not None and cf == "[self.configs ++ one($3)]", q, "a workflow is added without its configuration, or without looking at the limit"):
            continue
        runs = m.group(2) or "$2.runs"
        tot = re.fullmatch(r"Add\((?:self\.current_traversals_count,(.*)|(.*),self\.current_traversals_count)\)", n)
        c.ob("trimmed", tot is not None and total(tot.group(1) or tot.group(2), runs, r"Run::traversals_count\(ITEM\)"), q, "what is kept of a workflow is not what is counted")
        rm = [e for e in q.events() if re.match(r"Vec::\w+\(\S*runs", repr(e))]
        if not over[0]:
            c.ob("trimmed", runs == "$2.runs" and not rm, q, "a workflow that fits loses runs")
            continue
        lps = [lp for lp in q.loops() if any(re.match(r"Vec::\w+\(", repr(e)) for tr, st in lp.iters for e in Iter(q, tr, st).events())]
        if not c.ob("trimmed", len(lps) == 1 and lps[0].src is not None and show(lps[0].src) == "rev(Range{end:len($2.runs),start:0})", q, "runs are not removed from the last on"):
            continue
        lp = lps[0]
        rv, kv = (next((x for k, x in lp.vars.items() if re.fullmatch(pat, show(k))), None) for pat in (r"phi:(workflow|\*?\$2)\.runs", r"phi:(?!.*runs$).*"))
        it = re.escape(show(lp.src))
        if c.ob("trimmed", rv is not None and kv is not None and [show(x) for x in rv[0]] == ["$2.runs"] and total(show(kv[0][0]), "$2.runs", r"Run::traversals_count\(ITEM\)"), q, "what is left of a workflow is not counted"):
            c.ob("trimmed", all(re.fullmatch(r"upd_by\(Vec::remove\(phi:[\w$*.]+runs,item\(" + it + r"\)\)(#\d+)?,0\)", show(x)) for x in rv[1].values()), q, "another run is removed")
            c.ob("trimmed", all(re.fullmatch(r"Sub\(phi:\w+,Run::traversals_count\(phi:[\w$*.]+runs\[item\(" + it + r"\)\]\)(#\d+)?\)", show(x)) for x in kv[1].values()), q, "a removed run's traversals are still counted")
        fits = [v for k, v in q.state.facts.items() if re.fullmatch(r"self\.traversals_count_limit<Add\((Sub\(phi:.*|self\.current_traversals_count,Sub\(phi:.*)\)", show(k))]
        c.ob("trimmed", q.whole(lp) or fits[-1:] == [False], q, "runs are kept that do not fit")
        for tr, st in lp.iters:
            f = [v for k, v in st.facts.items() if re.fullmatch(r"self\.traversals_count_limit<Add\((Sub\(phi:.*|self\.current_traversals_count,Sub\(phi:.*)\)", show(k))]
            c.ob("trimmed", f[-1:] == [True], Iter(q, tr, st), "more runs are removed than needed")
    cfg = Config(opaque=[r"Run::(is_in_initial_state|traversals_count)$", r"Workflow::optimized$"])
    for q in c.paths_of(p, f"{WF}::Workflow::optimized", cfg):
        if q.kind == "ret":
            c.ob("saved-active", re.fullmatch(r"Workflow\{id:self\.id,runs:\[each self\.runs: \{!Run::is_in_initial_state\(item\(self\.runs\)\)(#\d+)? => one\(item\(self\.runs\)\)\}\]\}", q.ret) is not None, q, "an active run is not saved")
    for q in c.paths_of(p, "bd_workflows::engine::WorkflowsState::optimized", cfg):
        if q.kind == "ret":
            o = r"Workflow::optimized\(item\(self\.workflows\)\)(#\d+)?"
            w = show(fld(q.rett, "workflows"))
            c.ob("saved-active", re.fullmatch(r"\[each self\.workflows: \{(!0==len\(" + o + r"\.runs\) )?=> one\(" + o + r"\)\}\]", w.replace("{ =>", "{=>")) is not None, q, "a workflow with active runs is not saved")
            c.ob("saved-active", all(show(fld(q.rett, n)) == f"self.{n}" for n in ("session_id", "pending_actions", "streaming_actions")), q, "the session or actions are not saved")
    for q in c.paths_of(p, f"{WF}::Workflow::traversals_count", cfg):
        if q.kind == "ret":
            c.ob("counted", total(q.ret, "self.runs", r"Run::traversals_count\(ITEM\)"), q, "a run's traversals are not counted")
    for q in c.paths_of(p, f"{WF}::Run::traversals_count", Config()):
        if q.kind == "ret":
            c.ob("counted", re.search(r"^[\w:]*\(?len\(self\.traversals\)( as u32\))?", q.ret) is not None, q, "not what it counts")
    for fn, items, one in (("Traversal", "matched_logs_counts", r"0==item\(self\.matched_logs_counts\)"), ("Run", "traversals", r"Traversal::is_in_initial_state\(item\(self\.traversals\)\)(#\d+)?"), ("Workflow", "runs", r"Run::is_in_initial_state\(item\(self\.runs\)\)(#\d+)?")):
        for q in c.paths_of(p, f"{WF}::{fn}::is_in_initial_state", Config(opaque=[r"(Traversal|Run)::is_in_initial_state$"])):
            if q.kind != "ret" or q.ret == "true" and fn == "Traversal" and not c.ob("saved-active", q.truth(r"0==self\.state_index") is True, q, "a traversal that left the first state passes for initial"):
                continue
            if q.ret == "true":
                tried = [(lp, tr, st) for lp in q.loops() if lp.src is not None and show(lp.src) == f"self.{items}" and q.whole(lp) for tr, st in lp.iters]
                yes = [t for t in tried if any(v for k, v in t[2].facts.items() if re.fullmatch(one, show(k)))]
                c.ob("saved-active", len({id(t[0]) for t in yes}) >= 1, q, f"what left its first state passes for initial: {fn}")
            else:
                no = [k for k, v in q.state.facts.items() if not v and re.fullmatch(one, show(k))]
                c.ob("saved-active", q.ret == "false" and (no or fn == "Traversal" and q.truth(r"0==self\.state_index") is False), q, f"what is initial is not recognised: {fn}")


def self_now(q):
    return q.e.resolve(q.state, next((v for k, v in q.x.heap().items() if show(k) == "self"), mk("sym", "self")))


GROUPS = [traversal, run, workflow, engine]
FLOORS = {"handed-on": 30, "added-up": 200, "counts": 5, "follows": 6, "fresh": 4, "each-traversal": 10, "replaced": 10, "stopped": 20, "reports": 8, "completed": 2, "each-run": 30, "ended": 30, "reset": 20, "accounted": 30, "one-waits": 8, "each-workflow": 3, "removed-accounted": 4, "trimmed": 6, "saved-active": 6, "counted": 2}
