"""The numbers a workflow emits: every action once, with its own tags and its own value."""
from rules import *
from c46 import n, facts
from c53 import chain

M = "bd_workflows::metrics::MetricsCollector::"
PLAIN = r"Argument::|Level|PartialOrd|__|log::|done|BTreeMap::(new|insert|default)\b|FieldProvider::field_value\(|str::parse|Result::|Option::"


def own(q):
    return [e for e in (q._top if hasattr(q, "_top") else q.trace) if e.kind not in ("done", "loop")]


def known(q, pat):
    v = {v for k, v in q.state.facts.items() if re.fullmatch(pat, n(k))}
    return v.pop() if len(v) == 1 else None


class Case:
    """one case of a list made of another"""

    def __init__(self, conds):
        self.state = self
        self.facts = dict(conds)


def found(q, log, key):
    """what a name stands for in a log: its text, None when the log has none, False when that was not asked"""
    k = re.escape(key)
    for name, v in (("log_level", rf"to_string\({log}\.log_level\)(#\d+)?"), ("log_type", rf"to_string\({log}\.log_type\.0\)(#\d+)?")):
        if known(q, rf"'{name}'=={k}|{k}=='{name}'"):
            return rf"(?:(?:Owned|Borrowed)\()?{v}\)?"
    if any(known(q, rf"'{name}'=={k}|{k}=='{name}'") is not False for name in ("log_level", "log_type")):
        return False
    v = rf"FieldProvider::field_value\({log}\.fields,{k}\)(#\d+)?"
    there = known(q, v + " is Some")
    return False if there is None else rf"(?:(?:Owned|Borrowed)\()?{v}\?Some\.0\)?" if there else None


def wanted(i, log, item):
    """what the tag of an item holds"""
    fixed = known(i, re.escape(item) + r"\.1 is Fixed")
    if fixed is None:
        fixed = known(i, re.escape(item) + r"\.1 is Extract")
        fixed = None if fixed is None else not fixed
    if fixed is None:
        return False
    return re.escape(item) + r"\.1\?Fixed\.0" if fixed else found(i, log, item + ".1?Extract.0")


def tags(c, q, t, log, of, extra):
    """the tags handed on: those of the action the log has a value for, and then the given ones"""
    steps, base = chain(t)
    steps = [(f, a) for f, a in steps if f not in ("len", "get", "contains_key")]
    c.ob("tags", [f for f, _ in steps] == ["insert"] * len(extra) and sorted(a for _, a in steps) == sorted(extra), q, f"put in last: {[(f, [str(x)[:120] for x in a]) for f, a in steps]}")
    lps = [(lp, v) for lp in q.loops() for k, v in lp.vars.items() if n(k) == base and lp.src is not None and n(lp.src) == of]
    if lps:
        lp, (before, after) = lps[0]
        c.ob("tags", len(before) == 1 and re.fullmatch(r"(BTreeMap::(new|default)\(\)|Default::default\(\))(#\d+)?|\[\]|\{\}", n(before[0])), q, f"the tags start as {[n(b) for b in before]}")
        c.ob("tags", q.whole(lp), q, "not every tag of the action is looked at")
        for k, i in enumerate(Iter(q, tr, st) for tr, st in lp.iters):
            w = wanted(i, log, f"item({of})")
            got, b = chain(after[k])
            want = None if w is False else [] if w is None else [("insert", rf"item\({re.escape(of)}\)\.0", w)]
            c.ob("tags", b == base and want is not None and len(got) == len(want) and all(f == "insert" and len(a) == 2 and re.fullmatch(x[1], a[0]) and re.fullmatch(x[2], a[1]) for (f, a), x in zip(got, want)), i, f"a tag becomes {got}, wanted {w}; asked {str(facts(i))[:300]}")
        return
    lst = t
    while lst.op == "upd_by":
        lst = lst.a[0].a[1][lst.a[1]]
    each = next((s for s in subterms(lst) if s.op == "each" and n(s.a[0]) == of), None)
    if not c.ob("tags", each is not None and n(lst) in (f"collect:BTreeMap([{n(each)}])", f"collect:BTreeMap({n(each)})", f"[{n(each)}]", n(each)), q, f"the tags come from {n(lst)[:200]}"):
        return
    for conds, items in each.a[1]:
        i = Case(conds)
        w = wanted(i, log, f"item({of})")
        want = None if w is False else [] if w is None else [rf"\(item\({re.escape(of)}\)\.0,{w}\)"]
        got = [re.sub(r"^one\((.*)\)$", r"\1", n(x)) for x in items]
        c.ob("tags", want is not None and len(got) == len(want) and all(re.fullmatch(a, b) for a, b in zip(want, got)), q, f"a tag becomes {got}, wanted {want}; asked {[(n(f), b) for f, b in conds]}"[:600])


def metrics(c):
    c.rule("tags", "each action's tags are its own fixed ones and those the log has a value for, under their own names, and then the action's id (and the path's)")
    c.rule("once", "every action is recorded exactly once: a counter under workflows_dyn:action, a histogram under workflows_dyn:histogram, with the value given or read from the log; only a value that cannot be read leaves its action out, and no other")
    p = c.program("bd_workflows")
    for name, sankey in (("emit_metrics", False), ("emit_sankeys", True)):
        f = p.by_id.get(M + name)
        if f is None:
            raise Anchor(f"{M}{name} is missing")
        for q in c.paths_of(p, f, Config(budget=60000)):
            c.ob("once", q.kind == "ret" and not q.why, q, f"ends with {q.kind} {q.why}")
            out = [lp for lp in q.loops() if lp.src is not None and n(lp.src) == "$2"]
            if not out:
                c.ob("once", known(q, r"0==len\(\$2\)") is True and not own(q), q, f"no action is gone through: {facts(q)} {[n(e) for e in own(q)]}")
                continue
            lp = out[0]
            c.ob("once", len(out) == 1 and q.whole(lp), q, "not every action is gone through")
            for tr, st in lp.iters:
                i = Iter(q, tr, st)
                rec = [e for e in own(i) if repr(e).startswith("DynamicStats::record")]
                rest = [n(e) for e in own(i) if e not in rec and not re.match(PLAIN, repr(e))]
                c.ob("once", not rest, i, f"also does {rest}")
                one(c, i, rec, sankey)


def one(c, i, rec, sankey):
    a = "item($2)"
    A = re.escape(a)
    if sankey:
        c.ob("once", len(rec) == 1 and re.match(r"DynamicStats::record_dynamic_counter\(self\.dynamic_stats, 'workflows_dyn:action', ", n(rec[0])) and n(rec[0].args[3]) == "1", i, f"records {[n(e)[:200] for e in rec]}")
        if rec:
            tags(c, i, rec[0].args[2], r"\$3", a + ".action.tags", [("'_id'", a + ".action.id"), ("'_path_id'", a + ".path.path_id")])
        return
    fixed = known(i, A + r"\.increment is Fixed")
    if fixed is None:
        fixed = known(i, A + r"\.increment is Extract")
        fixed = None if fixed is None else not fixed
    if fixed is None:
        c.ob("once", False, i, f"which value is not asked: {str(facts(i))[:300]}")
        return
    if fixed:
        v = rf"\({A}\.increment\?Fixed\.0 as f64\)"
        u = rf"\({v} as u64\)|\({A}\.increment\?Fixed\.0 as u64\)"
    else:
        w = found(i, r"\$3", a + ".increment?Extract.0")
        ok = w and known(i, rf"str::parse\({w}\)(#\d+)? is Ok")
        if w is False or w is not None and ok is None:
            c.ob("once", False, i, f"whether the value can be read is not asked: {str(facts(i))[:300]}")
            return
        if not ok:
            c.ob("once", not rec, i, f"without a value {[n(e)[:200] for e in rec]}")
            return
        v = rf"str::parse\({w}\)(#\d+)?\?Ok\.0"
        u = rf"\({v} as u64\)"
    counter = known(i, A + r"\.metric_type is Counter")
    if counter is None:
        counter = known(i, A + r"\.metric_type is Histogram")
        counter = None if counter is None else not counter
    what, name, v = ("counter", "action", u) if counter else ("histogram", "histogram", v)
    c.ob("once", counter is not None and len(rec) == 1 and re.match(rf"DynamicStats::record_dynamic_{what}\(self\.dynamic_stats, 'workflows_dyn:{name}', ", n(rec[0])) and re.fullmatch(v, n(rec[0].args[3])), i, f"records {[n(e)[:300] for e in rec]}; asked {str(facts(i))[:300]}")
    if rec:
        tags(c, i, rec[0].args[2], r"\$3", a + ".tags", [("'_id'", a + ".id")])


KINDS = ("FlushBuffers", "EmitMetric", "SankeyDiagram", "TakeScreenshot")


def kind_of(i, item):
    """which of the four an action is, as far as it was asked"""
    left = set(KINDS)
    for k in KINDS:
        v = known(i, re.escape(item) + " is " + k)
        if v is True:
            return k
        if v is False:
            left.discard(k)
    return left.pop() if len(left) == 1 else None


def members(q, t):
    """what a set is made of: (the list it goes through, [(case, what that adds)])"""
    t = t if t.op != "upd_by" else t
    each = [x for x in subterms(t) if x.op == "each" and n(t) in (f"collect:BTreeSet([{n(x)}])", f"collect:BTreeSet({n(x)})", f"[{n(x)}]", n(x))]
    if each:
        x = each[0]
        return n(x.a[0]), [(Case(conds), [re.sub(r"^one\((.*)\)$", r"\1", n(y)) for y in items]) for conds, items in x.a[1]], x.a[0]
    for lp in q.loops():
        for k, (before, after) in lp.vars.items():
            if n(k) == n(t) and lp.src is not None and q.whole(lp) and all(re.match(r"BTreeSet::new\(\)", n(b)) for b in before):
                out = []
                for j, (tr, st) in enumerate(lp.iters):
                    steps, base = chain(after[j])
                    out.append((Iter(q, tr, st), [a[0] for fn, a in steps if fn == "insert"] if base == n(t) else ["?"]))
                return n(lp.src), out, lp.src
    return None, [], None


def routed(c):
    c.rule("all workflows", "every workflow sees every log with its own config, and what they all trigger is gone through")
    c.rule("routed", "of what was triggered every flush is started or queued, every metric recorded, every sankey path counted and handed on, and a screenshot taken if one was asked for")
    p = c.program("bd_workflows")
    cfg = Config(opaque=[r"Workflow::process_log$", r"Resolver::process_\w+$", r"MetricsCollector::emit_\w+$", r"Workflow::(is_in_initial_state|remove_all_runs)$"], budget=60000)
    W = "self.state.workflows"
    for q in c.paths_of(p, "bd_workflows::engine::WorkflowsEngine::process_log", cfg):
        if q.kind != "ret" or known(q, rf"0==len\({re.escape(W)}\)") is True:
            continue
        fl, em, sk = (q.ev(rf"^{x}\(") for x in ("Resolver::process_flush_buffer_actions", "MetricsCollector::emit_metrics", "MetricsCollector::emit_sankeys"))
        if not c.ob("routed", len(fl) == len(em) == len(sk) == 1 and n(em[0].args[2]) == n(sk[0].args[2]) == "$2", q, "what is triggered is not recorded"):
            continue
        shot = fld(q.rett, "capture_screenshot")
        sets = dict(zip(KINDS, (fl[0].args[1], em[0].args[1], sk[0].args[1], None)))
        inner = [x for x in subterms(shot) if x.op == "call" and x.a[0] == "len" and n(shot) in (f"!(0=={n(x)})", f"!0=={n(x)}", f"0<{n(x)}")]
        sets["TakeScreenshot"] = inner[0].a[1][0] if inner else shot
        empty = [k for k, t in sets.items() if re.fullmatch(r"BTreeSet::(new|default)\(\)(#\d+)?|false", n(t))]
        if empty:
            none = [k for k, v in q.state.facts.items() if v is True and re.match(r"0==len\(", n(k)) and "triggered_actions" in n(k)]
            c.ob("routed", len(empty) == 4 and none, q, f"nothing is done for {empty}; asked {[n(k)[-80:] for k in none]}")
            src = [x for k in none for x in subterms(k) if x.op == "each" and n(x.a[0]) == W]
            triggered(c, q, src[:1], W)
            continue
        srcs = set()
        for k, t in sets.items():
            src, cases, st = members(q, t)
            c.ob("routed", src is not None and cases, q, f"{k}: {n(t)[:300]}")
            if src is None:
                continue
            srcs.add(src)
            triggered(c, q, [x for x in subterms(st) if x.op == "each" and n(x.a[0]) == W][:1], W)
            it = f"item({src})"
            said = set()
            for i, adds in cases:
                kd = kind_of(i, it)
                want = [f"{it}?{k}.0"] if kd == k else []
                said |= {k} if adds else set()
                c.ob("routed", (adds == want if kd else not adds and known(i, re.escape(it) + " is " + k) is False), q, f"{k}: one of kind {kd} gives {[x[-60:] for x in adds]}")
            c.ob("routed", k in said, q, f"{k} is given to nothing")
        c.ob("routed", len(srcs) == 1, q, f"gone through {len(srcs)} lists")
        to = [lp for lp in q.loops() if lp.src is not None and n(lp.src) == n(sk[0].args[1])]
        c.ob("routed", len(to) == 1 and q.whole(to[0]), q, "not every sankey path is handed on")
        for lp in to:
            for tr, st in lp.iters:
                i = Iter(q, tr, st)
                s = i.ev(r"^Sender::\w*send\w*\(")
                c.ob("routed", len(s) == 1 and n(s[0]) == f"Sender::try_send(self.sankey_processor_input_tx, item({n(lp.src)}).path)", i, f"a sankey path: {[n(e)[:80] for e in s]}")


def triggered(c, q, each, w):
    """every workflow's own actions, of every case"""
    if not c.ob("all workflows", each, q, "what is gone through is not what the workflows triggered"):
        return
    call = rf"Workflow::process_log\(item\({re.escape(w)}\),Index::index\(self\.configs,index\(item\({re.escape(w)}\)\)\),\$2,.*\)#\d+"
    for conds, items in each[0].a[1]:
        c.ob("all workflows", len(items) == 1 and re.fullmatch(call + r"\.triggered_actions", n(items[0])), q, f"a workflow adds {[n(x)[-200:] for x in items]}")
    for lp in q.loops():
        if lp.src is None or n(lp.src) != w:
            continue
        for k, (tr, st) in enumerate(lp.iters):
            i = Iter(q, tr, st)
            if i.ev(r"^Workflow::process_log\("):
                c.ob("all workflows", any(k in after and re.search(r"\.triggered_actions", show(after[k])) for t, (_, after) in lp.vars.items()), i, f"what a workflow triggers is left out; asked {facts(i)}"[-600:])


GROUPS = [metrics, routed]
FLOORS = {"tags": 10, "once": 10, "routed": 12, "all workflows": 3}
