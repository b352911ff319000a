"""A workflow is what its configuration says, or is left out."""
from rules import *
from c61 import m, asked, fn

W = "bd_workflows::"
CF = W + "config::"
PARTS = [r"(^|::)Config::new$", r"State::try_from_proto$", r"Transition::new$", r"Execution::new$", r"try_duration_limit_from_proto$", r"try_matched_logs_count_limit_from_proto$", r"Action::try_from_proto$", r"SankeyExtraction::new$",
         r"Streaming::new$", r"ActionEmitMetric::new$", r"ActionEmitSankey::try_from_proto$", r"ActionTakeScreenshot::try_from_proto$", r"bd_log_matcher::"]
FIELD = {"MessageField::as_ref", "MessageField::into_option", "MessageField::clone"}


def runs(c, rule, name, whole=False):
    p = c.program("bd_workflows")
    f = fn(p, CF + name)
    out = []
    own = "::".join(name.split("::")[-2:])
    for q in c.paths_of(p, f, Config(opaque=[x for x in PARTS if not re.search(x, own)], budget=60000)):
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{name} ends with {q.kind} {q.why}"):
            out.append(q)
    c.ob(rule, bool(out), f, "no path")
    return out


def close(s, i):
    """the place after the bracket that closes the one at i"""
    d = 0
    for j in range(i, len(s)):
        d += s[j] in "([{"
        d -= s[j] in ")]}"
        if d == 0:
            return j + 1
    return len(s)


def split(s, sep):
    """parts of s at sep, outside brackets"""
    out, d, a = [], 0, 0
    for j, ch in enumerate(s):
        d += ch in "([{"
        d -= ch in ")]}"
        if d == 0 and s.startswith(sep, j):
            out.append(s[a:j])
            a = j + len(sep)
    return [x.strip() for x in out + [s[a:]] if x.strip()]


def unwrapped(v):
    """a value taken out of the Ok or Some it is in, and the condition that says so"""
    for k in ("Ok", "Some"):
        if v.startswith(k + "(") and close(v, len(k)) == len(v):
            return v[len(k) + 1:-1], None
        if v.endswith(f"?{k}.0"):
            return v[:-len(k) - 3], v[:-len(k) - 3] + f" is {k}"
    return v, None


def cases(body):
    """what an item of a list becomes: [(conditions, value)], lists within lists laid out flat"""
    out = []
    for case in split(body, "; "):
        cv = split(" " + case, "=>")
        conds = [x for x in split(cv[0], " & ")] if len(cv) > 1 else []
        val = cv[-1]
        if val.startswith("each "):
            k = cut(val[5:])
            sub = cases(val[5:][k + 3:-1]) if k is not None else None
            if sub is None:
                return None
            out += [(conds + x, y) for x, y in sub]
        elif val.startswith("one(") and close(val, 3) == len(val):
            out.append((conds, val[4:-1]))
        elif re.match(r"[\w:]+\(", val) and close(val, val.index("(")) == len(val):
            out.append((conds, val))
        else:
            return None
    return out


def cut(body):
    return next((i for i in range(len(body)) if body[i:i + 3] == ": {" and close(body, i + 2) == len(body)), None)


def listed(s, errs=None):
    """a list made of another: (what it is made of, {(conditions, value)}); what is an error, which ends it all or is left out, goes into errs"""
    g = re.fullmatch(r"(?:collect:\w+\()*\[each (.*)\](?:\))*(?:\?Ok\.0)?", s)
    k = cut(g[1]) if g else None
    got = cases(g[1][k + 3:-1]) if k is not None else None
    if got is None:
        return None, set()
    out = set()
    for conds, val in got:
        if val.startswith("Err("):
            if errs is not None:
                errs.append(conds)
            continue
        val, sure = unwrapped(val)
        out.add((frozenset(x for x in conds if x != sure), val))
    return g[1][:k], out


def record(s):
    """the fields of a value Name{a:x,b:y}"""
    g = re.fullmatch(r"(\w+)\{(.*)\}", s)
    return (g[1], dict(x.split(":", 1) for x in split(g[2], ","))) if g else (s, {})


def verdicts(c, rule, qs, reasons):
    """refused exactly for the reasons given; returns the paths that are not"""
    def on(q, ways):
        got = [asked(q, p) is x for p, x in ways if asked(q, p) is not None]
        return None if not got else any(got)

    out, seen = [], set()
    for q in qs:
        is_so = {r: on(q, ways if isinstance(ways, list) else [ways]) for r, ways in reasons.items()}
        bad, left = [r for r, x in is_so.items() if x], [r for r, x in is_so.items() if x is None]
        got = m(q.ret)
        seen |= set(bad)
        if got.startswith("Err("):
            c.ob(rule, bool(bad), q, "refused for no reason")
        else:
            c.ob(rule, not bad, q, f"not refused though {bad}")
            out.append((q, got[3:-1] if got.startswith("Ok(") else got, left))
    c.ob(rule, seen == set(reasons), None, f"never refused for {sorted(set(reasons) - seen)}")
    return out


def workflows(c):
    c.rule("or-left-out", "a workflow that cannot be made is left out, and no other; each of the others is there once, in order")
    c.rule("as-configured", "a workflow has the id, states, execution and limits it was configured with")
    c.rule("refused", "a workflow without states, with an unusable part or a limit of nothing is refused, and no other")
    for q in runs(c, "or-left-out", "WorkflowsConfiguration::new"):
        n, f = record(m(q.ret))
        s, v = listed(f.get("workflows", ""))
        N = "Config::new(item($1.workflows))"
        c.ob("or-left-out", s == "$1.workflows" and v == {(frozenset(), N)} and q.ret is not None, q, f"the workflows are {m(q.ret)}")
    reasons = {"no states": [(r"0==len\(\$1\.states\)|len\(\$1\.states\)==0", True), (r".*(first|next)\(.*\$1\.states\)* is Some", False)],
               "a state": (r"collect:Result\(\[each \$1\.states: .*\) is Ok|State::try_from_proto\(item\(\$1\.states\),.*\) is Ok", False), "execution": (r"Execution::new\(\$1\.execution\) is Ok", False),
               "duration": (r"Config::try_duration_limit_from_proto\(\$1\.limit_duration\) is Ok", False), "count": (r"Config::try_matched_logs_count_limit_from_proto\(\$1\.limit_matched_logs_count\) is Ok", False)}
    for q, got, left in verdicts(c, "refused", runs(c, "as-configured", "Config::new"), reasons):
        c.ob("refused", left == [] or left == ["a state"], q, f"not asked: {left}")
        n, f = record(got)
        want = {"id": "$1.id", "execution": "Execution::new($1.execution)?Ok.0", "duration_limit": "Config::try_duration_limit_from_proto($1.limit_duration)?Ok.0",
                "matched_logs_count_limit": "Config::try_matched_logs_count_limit_from_proto($1.limit_matched_logs_count)?Ok.0"}
        c.ob("as-configured", all(f.get(k) == v for k, v in want.items()), q, f"a workflow is {({k: f.get(k) for k in want})}")
        s, v = listed(f.get("states", ""))
        ok = s == "$1.states" and len(v) == 1
        g = re.fullmatch(r"State::try_from_proto\(item\(\$1\.states\),(.*)\)", next(iter(v))[1]) if ok else None
        a = split(g[1], ",") if g else []
        if not c.ob("as-configured", ok and len(a) == 2 and next(iter(v))[0] == frozenset(), q, f"its states are {f.get('states', '')[:300]}"):
            continue
        at = listed(a[0])
        c.ob("as-configured", at == ("$1.states", {(frozenset(), "(item($1.states).id,index(item($1.states)))")}), q, f"a state is found at {a[0][:300]}")
        A = "item(item(item($1.states).transitions).actions).action_type"
        k = f"{A}?Some.0?ActionEmitSankeyDiagram.0"
        lim = listed(a[1])
        c.ob("as-configured", lim == ("$1.states", {(frozenset({f"{A} is Some", f"{A}?Some.0 is ActionEmitSankeyDiagram"}), f"({k}.id,{k}.limit)")}), q, f"the limits of diagrams are {a[1][:400]}")
    for name, arg, unit in (("Config::try_duration_limit_from_proto", "duration_ms", "Duration::from_millis(%s)"), ("Config::try_matched_logs_count_limit_from_proto", "count", "%s")):
        seen = set()
        for q in runs(c, "refused", name):
            there = asked(q, r"MessageField::as_ref\(\$1\) is Some|MessageField::is_some\(\$1\)")
            v = f"MessageField::as_ref($1)?Some.0.{arg}"
            none = asked(q, rf"0==.*\.{arg}|.*\.{arg}==0|.*\.{arg}<=0|.*\.{arg}<1")
            if none is None:
                y = asked(q, rf"0<.*\.{arg}|.*\.{arg}>0|1<=.*\.{arg}")
                none = None if y is None else not y
            got = m(q.ret)
            seen.add((there, none))
            want = "Ok(None)" if there is False else f"Ok(Some({unit % v}))"
            c.ob("refused", there is not None and (there is False or none is not None) and (got == want or bool(none) and got.startswith("Err(")) and not (none and got.startswith("Ok")), q, f"{arg}: there: {there}, nothing: {none}, gives {got}")
        c.ob("refused", {x[0] for x in seen} == {True, False} and {x[1] for x in seen if x[0]} == {True, False}, None, f"{arg}: {seen}")
    seen = {}
    for q, got, left in verdicts(c, "refused", runs(c, "refused", "Execution::new"), {"missing": (r".*execution_type is Some", False)}):
        k = [x for x in ("Exclusive", "Parallel") if asked(q, rf".*execution_type\?Some\.0 is Execution{x}")] or [x for x in ("Exclusive", "Parallel") if asked(q, rf".*execution_type\?Some\.0 is Execution{'Parallel' if x == 'Exclusive' else 'Exclusive'}") is False]
        seen[got] = 1
        c.ob("as-configured", k == [got], q, f"configured as {k}, runs {got}")
    c.ob("as-configured", set(seen) == {"Exclusive", "Parallel"}, None, f"executions {sorted(seen)}")


def states(c):
    c.rule("leads-to", "a transition leads to the state it names, and one that names none is refused")
    c.rule("steps", "a transition has the rule, actions and diagram values configured for it, each of its own kind and with its own numbers")
    for q in runs(c, "leads-to", "State::try_from_proto"):
        got = m(q.ret)
        if got.startswith("Err("):
            c.ob("leads-to", any(asked(q, x) is False for x in (r"collect:Result\(\[each \$1\.transitions: .*\) is Ok", r"HashMap::contains_key\(\$2,.*\)", r"HashMap::get\(\$2,.*\) is Some", r"Transition::new\(.*\) is Ok")), q, "refused for no reason")
            continue
        n, f = record(got[3:-1])
        s, v = listed(f.get("transitions", ""))
        it = "item($1.transitions)"
        t = f"{it}.target_state_id"
        good = {f"Transition::new({it},{x},$3)" for x in (f"Index::index($2,{t})", f"HashMap::get($2,{t})?Some.0")}
        ok = s == "$1.transitions" and len(v) == 1 and f.get("id") == "$1.id"
        c.ob("leads-to", ok and next(iter(v))[1] in good and (next(iter(v))[0] & {f"HashMap::contains_key($2,{t})", f"HashMap::get($2,{t}) is Some"}), q, f"a state is {got[:500]}")
    RT = r"MessageField::as_ref\(\$1\.rule\)\?Some\.0\.rule_type"
    X = "item($1.extensions).extension_type"
    E = f"{X}?Some.0?SankeyDiagramValueExtraction.0"
    reasons = {"no rule": (r"MessageField::as_ref\(\$1\.rule\) is Some", False), "no kind": (RT + " is Some", False), "matcher": (r"Tree::new\(.*\) is Ok", False),
               "an action": (r"collect:Result\(\[each \$1\.actions: .*\) is Ok|Action::try_from_proto\(.*\) is Ok", False),
               "a diagram": [(x, False) for x in (r"collect:Result\(\[each \$1\.extensions: .*\) is Ok", r"HashMap::get\(\$3,.*\) is Some", r"SankeyExtraction::new\(.*\) is Ok", r"TryInto::try_into\(.*\) is Ok", r"TryFrom::try_from\(.*\) is Ok")]}
    ended = set()
    kinds = set()
    every = runs(c, "steps", "Transition::new")
    for q in every:
        if m(q.ret).startswith("Err("):
            ended |= {k for k, x in {"limit": r"HashMap::get\(\$3,.*\) is Some", "value": r"SankeyExtraction::new\(.*\) is Ok"}.items() if asked(q, x) is False}
    for q, got, left in verdicts(c, "steps", every, reasons):
        n, f = record(got)
        c.ob("steps", set(left) <= {"matcher", "an action", "a diagram"}, q, f"not asked: {left}")
        log, out = asked(q, RT + r"\?Some\.0 is RuleLogMatch"), asked(q, RT + r"\?Some\.0 is RuleTimeout")
        log = (not out) if log is None and out is not None else log
        kinds.add(log)
        R = "MessageField::as_ref($1.rule)?Some.0.rule_type?Some.0"
        lm = f"{R}?RuleLogMatch.0"
        want = f"LogMatch(Tree::new({lm}.log_matcher)?Ok.0,{lm}.count)" if log else f"TimeoutMatch(Duration::from_millis({R}?RuleTimeout.0.duration_ms))"
        c.ob("steps", log is not None and f.get("rule") == want and f.get("target_state_index") == "$2", q, f"a log rule: {log}, gives {f.get('rule')} to {f.get('target_state_index')}")
        c.ob("steps", listed(f.get("actions", "")) == ("$1.actions", {(frozenset(), "Action::try_from_proto(item($1.actions))")}), q, f"its actions are {f.get('actions', '')[:300]}")
        errs = []
        s, v = listed(f.get("sankey_extractions", ""), errs)
        lim = f"HashMap::get($3,{E}.sankey_diagram_id)"
        refused = ended | ({"value"} if f["sankey_extractions"].startswith("collect:Result(") else set()) | ({"limit"} if any(f"!{lim} is Some" in x for x in errs) else set())
        c.ob("steps", refused == {"limit", "value"}, q, f"a diagram value is left out rather than refused without {sorted({'limit', 'value'} - refused)}")
        vals = {re.sub(r"(TryInto::try_into|TryFrom::try_from)\((.*?\?Some\.0)\)\?Ok\.0", r"\2", x[1]) for x in v}
        vals = {x[5:-1] if x.startswith("Some(") else x for x in vals}
        conds = {frozenset(y for y in x[0] if not re.search(r"Try\w+::|SankeyExtraction::new", y)) for x in v}
        c.ob("steps", s == "$1.extensions" and vals == {f"SankeyExtraction::new({E},{lim}?Some.0)"} and all(x >= {f"{X} is Some", f"{lim} is Some"} for x in conds), q, f"its diagram values are {f.get('sankey_extractions', '')[:900]}")
    c.ob("steps", kinds == {True, False}, None, f"kinds of rules {kinds}")
    p = c.program("bd_workflows")
    for q in runs(c, "steps", "Config::transitions_for_traversal"):
        if q.kind == "ret":
            c.ob("steps", re.fullmatch(r"(Index::index\(self\.states,\$2\.state_index\)|self\.states\[\$2\.state_index\])\.transitions", m(q.ret)), q, f"the transitions are {m(q.ret)}")
    for name, want in (("Config::sankey_extractions", "sankey_extractions"), ("Config::actions_for_traversal", "actions"), ("Config::next_state_index_for_traversal", "target_state_index")):
        for q in runs(c, "steps", name):
            if q.kind == "ret":
                c.ob("steps", re.fullmatch(rf"Index::index\(Index::index\(self\.states,\$2\.state_index\)\.transitions,\$3\)\.{want}|self\.states\[\$2\.state_index\]\.transitions\[\$3\]\.{want}", m(q.ret)), q, f"the {want} of a transition are {m(q.ret)}")


def tags(c, rule, q, s):
    """the tags of a metric or a diagram: each under its name, fixed or taken from the field it names"""
    src, v = listed(s)
    T = "item($1.tags).tag_type"
    want = {f"(item($1.tags).name,Fixed({T}?Some.0?FixedValue.0))": "FixedValue", f"(item($1.tags).name,Extract({T}?Some.0?FieldExtracted.0.field_name))": "FieldExtracted"}
    ok = src == "$1.tags" and {x[1] for x in v} == set(want)
    for conds, val in v:
        k = want.get(val)
        ok = ok and f"{T} is Some" in conds and (f"{T}?Some.0 is {k}" in conds or f"!{T}?Some.0 is {'FieldExtracted' if k == 'FixedValue' else 'FixedValue'}" in conds)
    c.ob(rule, ok, q, f"the tags are {s[:500]}")


def actions(c):
    c.rule("own-action", "an action does what it is configured as: the metric or diagram with its id, amount, limit and tags, the flush with its buffers, the screenshot")
    c.rule("until", "streaming goes to the buffers named, until the smallest of the numbers of logs given, if any; a number of nothing is refused")
    A = "$1.action_type?Some.0?"
    parts = {"ActionEmitMetric": ("EmitMetric", "ActionEmitMetric::new"), "ActionEmitSankeyDiagram": ("EmitSankey", "ActionEmitSankey::try_from_proto"), "ActionTakeScreenshot": ("TakeScreenshot", "ActionTakeScreenshot::try_from_proto")}
    S = "MessageField::into_option(" + A + "ActionFlushBuffers.0.streaming)"
    reasons = {"missing": (r"\$1\.action_type is Some", False), "streaming": (r"Streaming::new\(.*\) is Ok", False)}
    reasons.update({k: (re.escape(f"{f}({A}{k}.0)") + " is Ok", False) for k, (v, f) in parts.items()})
    seen = set()
    for q, got, left in verdicts(c, "own-action", runs(c, "own-action", "Action::try_from_proto"), reasons):
        k = [x for x in list(parts) + ["ActionFlushBuffers"] if asked(q, rf"\$1\.action_type\?Some\.0 is {x}")]
        if not k:
            k = [x for x in list(parts) + ["ActionFlushBuffers"] if asked(q, rf"\$1\.action_type\?Some\.0 is {x}") is not False]
        if not c.ob("own-action", len(k) == 1, q, f"an action of kind {k}"):
            continue
        k = k[0]
        if k in parts:
            v, f = parts[k]
            seen.add(k)
            c.ob("own-action", got == f"{v}({f}({A}{k}.0)?Ok.0)", q, f"{k} is {got[:300]}")
        else:
            there = asked(q, r"MessageField::(into_option|as_ref)\(.*\.streaming\) is Some")
            seen.add((k, there))
            b = A + "ActionFlushBuffers.0"
            st = rf"Some\(Streaming::new\(.*\.streaming\)\?Some\.0\)\?Ok\.0\)" if there else "None"
            ok = re.fullmatch(r"FlushBuffers\(ActionFlushBuffers\{buffer_ids:collect:BTreeSet\(" + re.escape(b + ".buffer_ids") + r"\),id:" + re.escape(b + ".id") + rf",streaming:{st}\}}\)", got)
            c.ob("own-action", there is not None and ok, q, f"a flush, streaming: {there}, is {got[:400]}")
    c.ob("own-action", seen == set(parts) | {("ActionFlushBuffers", True), ("ActionFlushBuffers", False)}, None, f"kinds of actions: {seen}")
    N = "min([each $1.termination_criteria: {item($1.termination_criteria).type_ is Some => one(item($1.termination_criteria).type_?Some.0?LogsCount.0.max_logs_count)}])"
    seen = set()
    for q in runs(c, "until", "Streaming::new"):
        there = asked(q, re.escape(N) + " is Some")
        none = asked(q, re.escape("0==" + N + "?Some.0") + "|" + re.escape(N + "?Some.0==0"))
        got = m(q.ret)
        seen.add((there, none))
        n, f = record(got[3:-1])
        lim = (N, "None") if there is False else (N, f"Some({N}?Some.0)")
        ok = got.startswith("Err(") if none else got.startswith("Ok(") and f.get("destination_continuous_buffer_ids") == "collect:BTreeSet($1.destination_streaming_buffer_ids)" and f.get("max_logs_count") in lim
        c.ob("until", ok and there is not None and (there is False or none is not None), q, f"a number: {there}, of nothing: {none}, gives {got[:400]}")
    c.ob("until", seen == {(True, True), (True, False), (False, None)}, None, f"cases {seen}")
    V = r"\$1\.value_extractor_type"
    T = r"collect:Result\(\[each \$1\.tags: .*\) is Ok|item\(\$1\.tags\)\.tag_type is Some"
    seen = set()
    for q, got, left in verdicts(c, "own-action", runs(c, "own-action", "ActionEmitMetric::new"), {"a tag": (T, False), "no type": (r"\$1\.metric_type is Some", False), "no value": (V + " is Some", False)}):
        c.ob("own-action", set(left) <= {"a tag"}, q, f"not asked: {left}")
        n, f = record(got)
        co, hi = asked(q, r"\$1\.metric_type\?Some\.0 is Counter"), asked(q, r"\$1\.metric_type\?Some\.0 is Histogram")
        co = (not hi) if co is None and hi is not None else co
        fx, ex = asked(q, V + r"\?Some\.0 is Fixed"), asked(q, V + r"\?Some\.0 is FieldExtracted")
        fx = (not ex) if fx is None and ex is not None else fx
        seen.add((co, fx))
        inc = (f"Fixed({V}?Some.0?Fixed.0)" if fx else f"Extract({V}?Some.0?FieldExtracted.0.field_name)").replace("\\", "")
        c.ob("own-action", co is not None and fx is not None and f.get("id") == "$1.id" and f.get("metric_type") == ("Counter" if co else "Histogram") and f.get("increment") == inc, q, f"a counter: {co}, fixed: {fx}, gives {f.get('metric_type')} by {f.get('increment')}")
        tags(c, "own-action", q, f.get("tags", ""))
    c.ob("own-action", len(seen) == 4, None, f"metrics {seen}")
    for q, got, left in verdicts(c, "own-action", runs(c, "own-action", "ActionEmitSankey::try_from_proto"), {"a tag": (T, False)}):
        n, f = record(got)
        c.ob("own-action", f.get("id") == "$1.id" and f.get("limit") == "$1.limit", q, f"a diagram is {got[:200]}")
        tags(c, "own-action", q, f.get("tags", ""))
    for q in runs(c, "own-action", "ActionTakeScreenshot::try_from_proto"):
        c.ob("own-action", m(q.ret) == "Ok(ActionTakeScreenshot{id:$1.id})", q, f"a screenshot is {m(q.ret)}")
    V = r"\$1\.value_type"
    seen = set()
    for q, got, left in verdicts(c, "own-action", runs(c, "own-action", "SankeyExtraction::new"), {"no value": (V + " is Some", False)}):
        n, f = record(got)
        fx, ex = asked(q, V + r"\?Some\.0 is Fixed"), asked(q, V + r"\?Some\.0 is FieldExtracted")
        fx = (not ex) if fx is None and ex is not None else fx
        seen.add(fx)
        val = "Fixed($1.value_type?Some.0?Fixed.0)" if fx else "Extract($1.value_type?Some.0?FieldExtracted.0.field_name)"
        want = {"sankey_id": "$1.sankey_diagram_id", "limit": "$2", "counts_toward_sankey_values_extraction_limit": "$1.counts_toward_sankey_extraction_limit", "value": val}
        c.ob("own-action", fx is not None and f == want, q, f"fixed: {fx}, gives {f}")
    c.ob("own-action", seen == {True, False}, None, f"diagram values {seen}")
    seen = set()
    for q in runs(c, "own-action", "TagValue::extract_value"):
        fx, ex = asked(q, "self is Fixed"), asked(q, "self is Extract")
        fx = (not ex) if fx is None and ex is not None else fx
        seen.add(fx)
        c.ob("own-action", fx is not None and re.fullmatch(r"Some\((Owned|Borrowed)\(self\?Fixed\.0\)\)" if fx else r"FieldProvider::field_value\(\$2, ?self\?Extract\.0\)", m(q.ret)), q, f"fixed: {fx}, gives {m(q.ret)}")
    c.ob("own-action", seen == {True, False}, None, f"tag values {seen}")


GROUPS = [workflows, states, actions]
FLOORS = {"or-left-out": 2, "as-configured": 8, "refused": 20, "leads-to": 4, "steps": 15, "own-action": 45, "until": 7}
