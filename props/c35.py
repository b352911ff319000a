"""Workflow state follows the session, and survives restarts and configuration updates."""
from rules import *

EN = "bd_workflows::engine::WorkflowsEngine"
ST = "bd_workflows::engine::StateStore"
RE = "Resolver::"


def now(q, name="self"):
    return q.e.resolve(q.state, next((v for k, v in q.x.heap().items() if show(k) == name), mk("sym", name)))


def pos(q, e):
    return next(n for n, x in enumerate(q.events()) if x is e)


def sess(c):
    p = c.program("bd_workflows")
    c.rule("new-session", "a log of another session ends everything under way before any workflow sees it")
    c.rule("same-session", "logs of the same session end nothing")
    c.rule("marked", "progress of a workflow is marked to be saved")
    cfg = Config(opaque=[r"Workflow::(process_log|remove_all_runs|is_in_initial_state)$", r"Resolver::\w+$", r"MetricsCollector::\w+$", r"WorkflowsEngine::prepare_actions$"],
                 pure=[r"WorkflowResultStats::did_make_progress$"])
    progress = 0
    for q in c.paths_of(p, f"{EN}::process_log", cfg):
        none = q.truth(r"0==len\(self\.state\.session_id\)")
        same = q.truth(r"\$2\.session_id==self\.state\.session_id|self\.state\.session_id==\$2\.session_id")
        pl = [lp for lp in q.loops() if any(Iter(q, tr, st).ev(r"^Workflow::process_log\(") for tr, st in lp.iters)]
        cl = [lp for lp in q.loops() if any(Iter(q, tr, st).ev(r"^Workflow::remove_all_runs\(") for tr, st in lp.iters)]
        if q.kind == "ret":
            s = show(fld(fld(now(q), "state"), "session_id"))
            if same:
                c.ob("same-session", s in ("self.state.session_id", "$2.session_id") and not cl, q, "a log of the same session changes the session")
            elif c.ob("new-session", none is True or same is False, q, "the log's session is not compared"):
                c.ob("new-session", s == "$2.session_id", q, "the log's session does not become the current one")
        if none is False and same is False:
            src = [show(lp.src) if lp.src is not None else "self.state.workflows" for lp in cl]
            c.ob("new-session", len(cl) == 1 and q.whole(cl[0]) and src == ["self.state.workflows"], q, "a new session does not end the runs of all workflows")
            order = [e.extra for e in q.trace if e.kind == "loop"]
            ids = [q.e.loops[x] for x in order]
            c.ob("new-session", not pl or cl and ids.index(cl[0]) < ids.index(pl[0]), q, "a workflow sees the log before what was under way is ended")
            if q.kind == "ret":
                c.ob("new-session", any("needs_state_persistence:=true" in v for v in q.heap("self").values()) or show(fld(now(q), "needs_state_persistence")) in ("true", "TRUE"), q, "that everything ended is not saved")
        for lp in pl:
            for tr, st in lp.iters:
                i = Iter(q, tr, st)
                f = {show(k): v for k, v in st.facts.items()}
                pr = [v for k, v in f.items() if "did_make_progress" in k]
                runs = [v for k, v in f.items() if re.search(r"is_in_initial_state", k)]
                if pr and pr[-1]:
                    progress += 1
                    mark = any("needs_state_persistence:=true" in v for v in i.heap("self").values())
                    c.ob("marked", mark or len(runs) == 2 and all(runs), i, "progress is not saved")
                c.ob("marked", bool(pr), i, "progress is not looked at")
    c.ob("marked", progress > 0, None, "progress is never looked at")
    for q in c.paths_of(p, "bd_workflows::workflow::WorkflowResultStats::did_make_progress", Config()):
        zero = {m.group(1) or m.group(2) for k, v in q.state.facts.items() if v for m in [re.fullmatch(r"0==self\.(\w+)|self\.(\w+)<1", show(k))] if m}
        c.ob("marked", q.kind == "ret" and (q.ret == "true" or q.ret == "false" and "matched_logs_count" in zero), q, "a matched log is no progress")
        some = [k for k, v in q.state.facts.items() if not v and re.fullmatch(r"0==self\.\w+|self\.\w+<1", show(k))] + [k for k, v in q.state.facts.items() if v and re.fullmatch(r"0<self\.\w+", show(k))]
        c.ob("marked", q.ret != "true" or bool(some), q, "a workflow in which nothing happened counts as one with progress, and all of it is saved with every log")


MARKED = "needs_state_persistence"


def marks(c):
    """Whatever changes the state marks it to be saved."""
    p = c.program("bd_workflows")
    c.rule("dirty", "whatever changes the state marks it to be saved: actions that are added, decided or end, and workflows under way that are removed")
    c.rule("periodic", "state that is marked is saved from time to time while the engine runs, and decisions are taken in as they come")

    def mark(q):
        return show(fld(now(q), MARKED))
    kinds = set()
    for q in c.paths_of(p, f"{EN}::remove_workflow", Config(opaque=[r"Workflow::\w+$"])):
        if q.kind == "ret":
            first = q.truth(r"Workflow::is_in_initial_state\(Vec::remove\(self\.state\.workflows,\$2\)(#\d+)?\)(#\d+)?")
            kinds.add(first)
            c.ob("dirty", mark(q) == "true" or first is True, q, "a workflow under way is removed but stays in what was saved")
    for q in c.paths_of(p, f"{EN}::on_log_upload_approved", Config(opaque=[r"Resolver::\w+$"])):
        c.ob("dirty", q.kind == "ret" and mark(q) == "true", q, "an upload that is approved is not saved")
    ran = {"rejected": 0, "approved": 0, "timer": 0}
    for q in c.paths_of(p, f"{EN}::run_once", Config(opaque=[r"WorkflowsEngine::(maybe_persist|on_log_upload_approved|remove_pending_action)$"])):
        if not c.ob("periodic", q.kind == "ret", q, "the engine may panic"):
            continue
        m, a, r = (q.ev(rf"^WorkflowsEngine::{n}\(self") for n in ("maybe_persist", "on_log_upload_approved", "remove_pending_action"))
        out = next((k for k in q.state.facts if re.fullmatch(r"await\(Receiver::recv\(self\.flush_buffers_negotiator_output_rx\)(#\d+)?\)(#\d+)?\?Some\.0 is Upload\w+", show(k))), None)
        if m:
            ran["timer"] += 1
            c.ob("periodic", len(m) == 1 and show(m[0].args[1]) == "false" and not a and not r and q.truth(r"\$2") is True and any(re.match(r"await:await\(TimeDurationExt::sleep\(self\.state_periodic_write_interval\)", repr(e)) for e in q.trace)
                 and any(e.kind == "await" and show(m[0].res) in repr(e) for e in q.trace), q, "state is saved at other times, or not waited for")
        elif r:
            ran["rejected"] += 1
            c.ob("dirty", mark(q) == "true" and len(r) == 1, q, "an upload that is rejected is not saved as decided")
        elif a:
            ran["approved"] += 1
            c.ob("periodic", len(a) == 1 and any(e.kind == "await" and show(a[0].res) in repr(e) for e in q.trace), q, "what is approved is not acted on")
    c.ob("periodic", all(ran.values()), None, f"the engine has {ran}")
    f = c.fn(p, f"{EN}::run")
    e = Engine(p, Config(opaque=[r"WorkflowsEngine::run_once$"]))
    outs = e.run_async(f)
    turns = [tr for lp in e.loops.values() for tr, _ in lp.iters]
    c.ob("periodic", not outs and turns and all([show(x.args[1]) for x in tr if x.name == "WorkflowsEngine::run_once"] == ["true"] and any(x.kind == "await" for x in tr) for tr in turns), f, "state is not saved while the engine runs")
    cfg = Config(opaque=[r"Workflow::(process_log|remove_all_runs|is_in_initial_state)$", r"Resolver::\w+$", r"MetricsCollector::\w+$", r"WorkflowsEngine::prepare_actions$"],
                 pure=[r"WorkflowResultStats::did_make_progress$"])
    added = ended = 0
    for q in c.paths_of(p, f"{EN}::process_log", cfg):
        if q.kind != "ret" or not q.ev(r"^Resolver::process_streaming_actions\("):
            continue
        ch = q.truth(r"Resolver::process_streaming_actions\(.*\)(#\d+)?\.has_changed_streaming_actions")
        v = mark(q)
        ended += 1
        vs = [v]
        if v.startswith("phi:"):
            vs = sorted(({show(x) for lp in q.loops() for k, (before, _) in lp.vars.items() if k == fld(now(q), MARKED) for x in before if not show(x).startswith("phi:")}))
        c.ob("dirty", bool(vs) and all(x == "true" or "has_changed_streaming_actions" in x for x in vs) or ch is False, q, f"that streaming ended is not saved: {str(vs)[:200]}")
        for i in iterations(q):
            if i.ev(r"^BTreeSet::insert\(.*pending_actions, "):
                added += 1
                c.ob("dirty", any(MARKED + ":=true" in x for x in i.heap("self").values()), i, "an action that begins to be negotiated is not saved")
    c.ob("dirty", added and ended and kinds == {True, False}, None, f"actions added: {added}, ended: {ended}, {kinds}")


def save(c):
    p = c.program("bd_workflows")
    c.rule("saved", "state that needs saving is written, unless it was written less than the interval ago and nobody insists")
    c.rule("stays-marked", "state stays marked to be saved until a save was attempted")
    c.rule("whole", "what is written is all of the state, and success is reported only once it is out")
    for q in c.paths_of(p, f"{EN}::maybe_persist", Config(opaque=[r"StateStore::maybe_store$"])):
        need = q.truth(r"self\.needs_state_persistence")
        m = q.ev(r"^StateStore::maybe_store\(")
        if not c.ob("saved", q.kind == "ret" and need is not None and (len(m) == 1 if need else True), q, "what needs saving is not saved"):
            continue
        if m:
            c.ob("saved", [show(a) for a in m[0].args] == ["self.state_store", "self.state", "$2"] and q.ev(r"^await:"), q, "something else is saved, or the save not awaited")
        done = q.truth(r"await\(" + re.escape(show(m[0].res)) + r"\)") if m else None
        clear = any("needs_state_persistence:=false" in v for v in q.heap("self").values())
        c.ob("stays-marked", not clear or done is True, q, "the mark is cleared without a save")
    cfg = Config(opaque=[r"StateStore::store$", r"WorkflowsState::optimized$"])
    for q in c.paths_of(p, f"{ST}::maybe_store", cfg):
        force, last = q.truth(r"\$3"), q.truth(r"self\.last_persisted is Some")
        early = q.truth(r"(Instant::duration_since|Sub)\(Instant::now\(\)(#\d+)?,self\.last_persisted\?Some\.0\)(#\d+)?<Watch::read\(self\.persistence_write_interval_flag\)(#\d+)?|Instant::elapsed\(self\.last_persisted\?Some\.0\)(#\d+)?<Watch::read\(self\.persistence_write_interval_flag\)(#\d+)?")
        st = q.ev(r"^StateStore::store\(")
        wait = q.ev(r"^await:")
        if not c.ob("saved", q.kind == "ret" and (force is not True or bool(st)) and (bool(st) or early is True), q, "a save is skipped without having saved just before"):
            continue
        c.ob("stays-marked", q.ret == ("true" if st else "false"), q, "whether a save was attempted is misreported")
        w = next((v for k, v in q.x.heap().items() if show(k) == "self"), None)
        set_ = w is not None and show(fld(q.e.resolve(q.state, w), "last_persisted")) != "self.last_persisted"
        if st:
            a = [show(x) for x in st[0].args]
            c.ob("whole", a[0] == "self.state_path" and re.fullmatch(r"WorkflowsState::optimized\(\$2\)(#\d+)?", a[1]) is not None, q, "something else is saved")
            good = [v for k, v in q.state.facts.items() if re.match(r"await\(task::spawn_blocking.* is Ok$", show(k))]
            c.ob("saved", wait and (not set_ or good == [True, True]), q, "a save that failed holds up the next, or is not waited for")
        else:
            c.ob("saved", not set_, q, "a skipped save counts as one")
    for q in c.paths_of(p, f"{ST}::store", Config()):
        ok_ = {n: [v for k, v in q.state.facts.items() if show(k).startswith(pre) and show(k).endswith(" is Ok")] for n, pre in (("create", "File::create($1)"), ("write", "bincode::serialize_into("), ("flush", "Write::flush("))}
        if c.ob("whole", q.kind == "ret", q, "may panic"):
            to = [k for k in q.state.facts if re.match(r"bincode::serialize_into\(.*,\$2\)(#\d+)? is Ok", show(k))]
            c.ob("whole", (q.ret == "Ok(())") == all(v == [True] for v in ok_.values()) and (q.ret != "Ok(())" or len(to) == 1), q, "success is reported for a state that was not written")


def restore(c):
    p = c.program("bd_workflows")
    c.rule("loaded", "state is restored if there is any that can be read, and otherwise gone for good")
    c.rule("resumed", "workflows of the configuration resume with their saved state, in the saved session")
    c.rule("updated", "a configuration update ends workflows that are gone or changed, keeps the others and starts the new ones")
    c.rule("buffers", "pending and streaming actions are reduced to the buffers of the latest configuration")
    for q in c.paths_of(p, f"{ST}::load", Config(opaque=[r"StateStore::(load_state|purge)$"])):
        there = q.truth(r"Path::exists\(self\.state_path\)(#\d+)?")
        ls = q.ev(r"^StateStore::load_state\(self\)")
        good = q.truth(re.escape(show(ls[0].res)) + " is Ok") if ls else None
        if c.ob("loaded", q.kind == "ret" and (there is False or len(ls) == 1 and good is not None), q, "saved state is ignored"):
            c.ob("loaded", q.ret == (f"Some({show(ls[0].res)}?Ok.0)" if good else "None"), q, "saved state is not what is loaded")
            c.ob("loaded", bool(q.ev(r"^StateStore::purge\(self\)")) == (good is False), q, "unreadable state stays, or good state is removed")
    for q in c.paths_of(p, f"{ST}::load_state", Config()):
        f = {show(k): v for k, v in q.state.facts.items()}
        good = f.get("File::open(self.state_path)#1 is Ok") and [k[:-6] for k, v in f.items() if v and re.match(r"bincode::deserialize_from\(.*File::open\(self\.state_path\)#1\?Ok\.0.* is Ok$", k)]
        c.ob("loaded", q.kind == "ret" and (q.ret == f"Ok({good[0]}?Ok.0)" if good else q.ret.startswith("Err(")), q, "saved state is misread")
    for q in c.paths_of(p, f"{ST}::purge", Config()):
        c.ob("loaded", q.truth(r"Path::exists\(self\.state_path\)(#\d+)?") is False or len(q.ev(r"^fs::remove_file\(self\.state_path\)")) == 1, q, "unreadable state is not removed")
    cfg = Config(opaque=[r"Resolver::\w+$", r"StateStore::load$", r"WorkflowsEngine::(add|remove)_workflow$", r"Workflow::(new|id)$", r"Config::id$"])
    CF = "$2.workflows_configuration.workflows"
    for q in c.paths_of(p, f"{EN}::start", cfg):
        ld = q.ev(r"^StateStore::load\(self\.state_store\)")
        if not c.ob("resumed", q.kind == "ret" and len(ld) == 1, q, "saved state is not loaded"):
            continue
        L = show(ld[0].res)
        had = q.truth(re.escape(L) + " is Some")
        up = q.ev(r"^Resolver::update\(")
        std = {n: q.ev(rf"^Resolver::{n}\(") for n in ("standardize_pending_actions", "standardize_streaming_buffers")}
        if had:
            for (n, e), f in zip(std.items(), ("pending_actions", "streaming_actions")):
                c.ob("buffers", len(e) == 1 and show(e[0].args[1]) == f"{L}?Some.0.{f}" and len(up) == 1 and pos(q, up[0]) < pos(q, e[0]), q, f"saved {f} are not restored for the buffers of the configuration")
        lps = [lp for lp in q.loops() if any(Iter(q, tr, st).ev(r"^WorkflowsEngine::add_workflow\(") for tr, st in lp.iters)]
        if not c.ob("resumed", len(lps) == 1 and lps[0].src is not None and show(lps[0].src) == CF and q.whole(lps[0]), q, "not every configured workflow is started, in order"):
            continue
        lp = lps[0]
        maps = [(k, v) for k, v in lp.vars.items() if any("Map" in show(x) for x in v[0])]
        start = show(maps[0][1][0][0]) if maps else ""
        if had:
            c.ob("resumed", re.fullmatch(r"collect:\w*Map\(\[each " + re.escape(f"{L}?Some.0.workflows") + r": \{ => one\(\(Workflow::id\(" + re.escape(f"item({L}?Some.0.workflows)") + r"\)(#\d+)?," + re.escape(f"item({L}?Some.0.workflows)") + r"\)\)\}\]\)", start) is not None, q, f"saved workflows are not found by their id")
            c.ob("resumed", all(show(x) == f"{L}?Some.0.session_id" for x in [fld(fld(now(q), "state"), "session_id")]) or session_set(q, L), q, "the saved session is not resumed")
        for tr, st in lp.iters:
            i = Iter(q, tr, st)
            add = i.ev(r"^WorkflowsEngine::add_workflow\(")
            if not c.ob("resumed", len(add) == 1 and show(add[0].args[2]) == f"item({CF})", i, "a configured workflow is not started"):
                continue
            rm = i.ev(r"^\w*Map::(remove|get)\(")
            idr = rf"Config::id\({re.escape(f'item({CF})')}\)(#\d+)?"
            w = show(add[0].args[1])
            found = i.truth(re.escape(show(rm[0].res)) + " is Some") if rm else None
            c.ob("resumed", found is not None or not had, i, "saved state is not looked for")
            c.ob("resumed", (w == show(rm[0].res) + "?Some.0" and re.fullmatch(idr, show(rm[0].args[1])) is not None) if found else re.fullmatch(rf"Workflow::new\({idr}\)(#\d+)?", w) is not None, i, f"a workflow does not resume with its state: {w}")
        neg = [i for i in iterations(q) if i.ev(r"^Sender::try_send\(.*flush_buffers_negotiator_input_tx, item\(.*pending_actions\)")]
        c.ob("resumed", bool(neg), q, "saved pending actions are never negotiated")
    for q in c.paths_of(p, f"{EN}::update", cfg):
        if not c.ob("updated", q.kind == "ret", q, "may panic"):
            continue
        WN = r"phi:\*self\.state\.workflows"
        out = [lp for lp in q.loops() if any(Iter(q, tr, st).ev(r"^WorkflowsEngine::remove_workflow\(") for tr, st in lp.iters)]
        new = [lp for lp in q.loops() if any(Iter(q, tr, st).ev(r"^WorkflowsEngine::add_workflow\(") for tr, st in lp.iters)]
        src = "rev(Range{end:len(self.state.workflows),start:0})"
        if not c.ob("updated", len(out) == len(new) == 1 and q.whole(out[0]) and q.whole(new[0]) and show(out[0].src) == src and show(new[0].src) == CF, q, "not every workflow is compared, last first, with the configuration"):
            continue
        ids = [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]
        c.ob("updated", ids.index(out[0]) < ids.index(new[0]), q, "changed workflows are removed only after new ones were looked for")
        wid = rf"Workflow::id\(Index::index\({WN},item\({re.escape(src)}\)\)\)(#\d+)?"
        cmap = r"collect:\w*Map\(\[each " + re.escape(CF) + r": \{ => one\(\(Config::id\(" + re.escape(f"item({CF})") + r"\)(#\d+)?,(index\()?" + re.escape(f"item({CF})") + r"\)?\)\)\}\]\)"
        get = rf"\w*Map::get\({cmap},{wid}\)(#\d+)?"
        for tr, st in out[0].iters:
            i = Iter(q, tr, st)
            rm = i.ev(r"^WorkflowsEngine::remove_workflow\(")
            known = i.truth(get + " is Some")
            eqs = [v for k, v in st.facts.items() if re.fullmatch(rf"Index::index\({re.escape(CF)},{get}\?Some\.0\)==Index::index\((phi:\*)?self\.configs,item\({re.escape(src)}\)\)|Index::index\((phi:\*)?self\.configs,item\({re.escape(src)}\)\)==Index::index\({re.escape(CF)},{get}\?Some\.0\)", show(k))]
            if c.ob("updated", known is not None and (known is False or len(eqs) == 1), i, "a workflow is not compared with its new configuration"):
                c.ob("updated", len(rm) == (0 if known and eqs[0] else 1) and (not rm or show(rm[0].args[1]) == f"item({src})"), i, "an unchanged workflow is ended, or a changed one goes on")
        for tr, st in new[0].iters:
            i = Iter(q, tr, st)
            add = i.ev(r"^WorkflowsEngine::add_workflow\(")
            cid = rf"Config::id\({re.escape(f'item({CF})')}\)(#\d+)?"
            ex = i.truth(rf"\w*(Map|Set)::contains(_key)?\(collect:\w+\(\[each {WN}: \{{ => one\(\(?Workflow::id\(item\({WN}\)\)(#\d+)?(,index\(item\({WN}\)\)\))?\)\}}\]\),{cid}\)(#\d+)?")
            if c.ob("updated", ex is not None and len(add) == (0 if ex else 1), i, "a workflow is started twice, or a new one not"):
                c.ob("updated", not add or show(add[0].args[2]) == f"item({CF})" and re.fullmatch(rf"Workflow::new\({cid}\)(#\d+)?", show(add[0].args[1])) is not None, i, "a new workflow does not start from its configuration")
        up, stp, sts = (q.ev(rf"^Resolver::{n}\(") for n in ("update", "standardize_pending_actions", "standardize_streaming_buffers"))
        c.ob("buffers", len(up) == len(stp) == len(sts) == 1 and pos(q, up[0]) < min(pos(q, stp[0]), pos(q, sts[0])), q, "actions are not reduced to the buffers of the new configuration")
        s = fld(now(q), "state")
        c.ob("buffers", [show(fld(s, n)) for n in ("pending_actions", "streaming_actions")] == [show(x[0].res) for x in (stp, sts)] and [show(x[0].args[1]) for x in (stp, sts)] == ["phi:*self.state.pending_actions", "phi:*self.state.streaming_actions"], q, "the reduced actions are not kept")


def session_set(q, L):
    """The saved session became the current one before workflows were added (adding them changes self opaquely)."""
    return any(f"session_id:={L}?Some.0.session_id" in v for lp in q.loops() for k, x in lp.vars.items() for v in map(show, x[0]))


GROUPS = [sess, marks, save, restore]
FLOORS = {"dirty": 15, "periodic": 5, "new-session": 8, "same-session": 2, "marked": 12, "saved": 12, "stays-marked": 6, "whole": 8, "loaded": 8, "resumed": 10, "updated": 8, "buffers": 4}
