"""The path of a sankey diagram is what the logs led through."""
from rules import *
from c61 import m, asked, fn
from c68 import listed

W = "bd_workflows::workflow::"
NEW = "SankeyNodeState{counts_toward_limit:$4,value:$2}"


def runs(c, rule, name, *opaque):
    f = fn(c.program("bd_workflows"), W + name)
    out = []
    for q in c.paths_of(c.program("bd_workflows"), f, Config(opaque=[*opaque, r"config::"], budget=60000)):
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{name} ends with {q.kind} {q.why}"):
            out.append(q)
    return f, out


def steps(c):
    c.rule("added", "a step is added at the end of a path, as it is; nothing else of the path changes unless too many steps count")
    c.rule("trimmed", "when more steps count than the limit allows, the oldest that counts goes and the path is marked; in no other case")
    f, qs = runs(c, "added", "SankeyState::push")
    seen = set()
    for q in qs:
        nodes, cut = m(q.e.resolve(q.state, fld(self_of(q), "nodes"))), q.e.resolve(q.state, fld(self_of(q), "is_trimmed"))
        cut = m(cut)
        grown = f"[self.nodes ++ one({NEW})]"
        counts = asked(q, r"\$4")
        counted = r"count\(\[each self\.nodes: \{item\(self\.nodes\)\.counts_toward_limit => one\(item\(self\.nodes\)\)\} \+\+ (each \[%s\]: \{\$4 => )?one\(%s\)\}?\]\)" % (re.escape(NEW), re.escape(NEW))
        over = asked(q, r"\$3<" + counted)
        if over is None:
            x = asked(q, counted + r"<=\$3")
            over = None if x is None else not x
        rm = [e for e in q.events(True) if e.name == "Vec::remove"]
        c.ob("added", all(m(e.args[0]) in (grown, "self.nodes") for e in rm), q, f"steps go from {[m(e.args[0]) for e in rm]}")
        seen.add((counts, over, bool(rm)))
        if counts is False or over is False:
            c.ob("added", nodes == grown and cut == "self.is_trimmed", q, f"a step counts: {counts}, too many: {over}, the path becomes {nodes}, {cut}")
            continue
        if not c.ob("trimmed", counts and over, q, "whether the step counts, and whether too many do, is not asked"):
            continue
        if not rm:
            # no step counts though one more than the limit do: cannot be
            c.ob("trimmed", q.ret == "()" and any(lp.src is not None and m(lp.src) == grown and q.whole(lp) and any(m(k) == f"item({grown}).counts_toward_limit" and v for _, st in lp.iters for k, v in st.facts.items()) for lp in q.loops()) or any(asked(q, x) is False for x in (r"Itertools::find_position\(.*\) is Some", r"(Iterator::)?position\(.*\) is Some")), q, "too many steps count and none goes")
            continue
        itm = f"item({grown})"
        if m(rm[0].args[1]) == f"index({itm})" and asked(q, re.escape(itm) + r"\.counts_toward_limit"):
            found = [lp for lp in (q.e.loops[e.extra] for e in q.trace if e.kind == "loop") if lp.src is not None and m(lp.src) == grown and not q.whole(lp)
                     and all(any(m(k) == f"{itm}.counts_toward_limit" and v is False for k, v in st.facts.items()) for _, st in lp.iters)]
            c.ob("trimmed", len(rm) == 1 and found, q, "what goes is not the first that counts")
            c.ob("trimmed", nodes in ("after_remove", f"without({grown},{itm})") and cut == "true", q, f"the path becomes {nodes}, marked {cut}")
            continue
        g = re.fullmatch(r"(Itertools::find_position|(?:Iterator::)?position)\((iter\()?" + re.escape(grown) + r"\)?,closure<\w+>\(\)\)\?Some\.0(\.0)?", m(rm[0].args[1]))
        c.ob("trimmed", len(rm) == 1 and g and bool(g[3]) == ("find" in g[1]), q, f"what goes is {m(rm[0].args[1])}")
        c.ob("trimmed", nodes == "after_remove" and cut == "true", q, f"the path becomes {nodes}, marked {cut}")
        cl = [s for s in subterms(rm[0].args[1]) if q.e.closure_of(q.state, s) is not None] if g else []
        h = closure_fn(q, cl[0]) if cl else None
        rets = {m(x.ret) for x in c.paths_of(c.program("bd_workflows"), h, Config())} if h else set()
        c.ob("trimmed", rets == {"$2.counts_toward_limit"}, q, f"the step that goes is the first with {rets}")
    c.ob("trimmed", {x[2] for x in seen} == {True, False} and any(x[0] is False for x in seen) and any(x[1] is False for x in seen), f, f"cases {seen}")


def self_of(q):
    for s in q.state.store:
        if s[0] == "H" and m(s[1]) == "self":
            return q.state.store[s]
    raise Anchor("the path is never changed")


def path(c):
    c.rule("whole", "a finished path has its diagram's id, the values of its steps in order, and its mark")
    c.rule("id-of-steps", "the id of a path is made of the values of all its steps, in order, and of nothing else")
    c.rule("id-tells-apart", "paths of different steps are given different ids: where one value ends is part of what the id is made of")
    f, qs = runs(c, "whole", "SankeyPath::new")
    for q in qs:
        v = q.rett
        got = {k: m(fld(v, k)) for k in ("sankey_id", "nodes", "is_trimmed", "path_id")}
        c.ob("whole", got["sankey_id"] in ("$1", "to_string($1)") and got["is_trimmed"] == "$2.is_trimmed", q, f"a path is {got}")
        c.ob("whole", listed(got["nodes"]) == ("$2.nodes", {(frozenset(), "item($2.nodes).value")}), q, f"the steps of a path are {got['nodes']}")
        ups = [e for e in q.events(True) if re.search(r"(Digest|Update)::update$", e.name)]
        lps = [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]
        lps = [lp for lp in lps if any(e in ups for tr, st in lp.iters for e in tr)]
        fin = re.fullmatch(r"(?:lower_hex|format|cat|hex::encode)\((Digest::finalize|FixedOutput::finalize_fixed|Digest::digest)\((.*)\)\)", got["path_id"])
        if not c.ob("id-of-steps", fin and len(lps) == 1 and q.whole(lps[0]) and lps[0].src is not None and m(lps[0].src) == "$2.nodes", q, f"the id is {got['path_id']}"):
            continue
        h = [k for k in lps[0].vars if m(k) == fin[2]]
        c.ob("id-of-steps", len(h) == 1 and all(re.match(r"(Digest|Sha256|CoreWrapper)::(new|default)\(|default\(", m(x)) for x in lps[0].vars[h[0]][0]), q, f"the id is that of {fin[2]}")
        ends = set()
        for tr, st in lps[0].iters:
            fed = [m(e.args[1]) for e in tr if e in ups]
            val = [x for x in fed if re.fullmatch(r"(String::as_bytes|str::as_bytes|AsRef::as_ref)?\(?item\(\$2\.nodes\)\.value\)?", x)]
            c.ob("id-of-steps", len(val) == 1 and all(x in val or "item($2.nodes)" not in x or "len(item($2.nodes).value)" in x for x in fed), q, f"of a step, the id is made of {fed}")
            only = [m(k) for k in st.facts if k not in q.state.facts and "item($2.nodes)" in m(k)]
            c.ob("id-of-steps", not only, q, f"a step counts for the id only if {only}")
            ends.add(len(fed) > len(val))
        c.ob("id-tells-apart", ends == {True}, q, "the values run together in what the id is made of: the steps ab, c and a, bc give one id")


def led(c):
    c.rule("extended", "each diagram value configured for a transition that the log has is added to its own diagram's path, with that diagram's limit; the others, and the paths there were, are left alone")
    c.rule("finished", "each action triggered is passed on as its own kind, in order; a diagram with the path gathered under its id, which is thereby used up")
    f, qs = runs(c, "extended", "Traversal::sankey_states", r"SankeyState::push$", r"TagValue::extract_value$")
    E = "Config::sankey_extractions($2,self,$3)"
    I = f"item({E})"
    V = f"TagValue::extract_value({I}.value,$4)"
    ran = set()
    for q in qs:
        lps = [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]
        if not c.ob("extended", len(lps) == 1 and q.whole(lps[0]) and (lps[0].src is None or m(lps[0].src) == E), q, f"it goes over {[m(lp.src) for lp in lps if lp.src is not None]}"):
            continue
        lp = lps[0]
        r = [k for k in lp.vars if m(q.ret) in (m(k), f"Some({m(k)})", f"Some({m(k)}?Some.0)")]
        c.ob("extended", bool(r) and any(m(x) in ("self.sankey_states", "self.sankey_states?Some.0") for k in r for x in lp.vars[k][0]), q, f"what was there is {m(q.ret)}, from {[m(x) for k in r for x in lp.vars[k][0]]}")
        for tr, st in lp.iters:
            i = Iter(q, tr, st)
            has = asked(i, re.escape(V) + " is Some")
            push = [e for e in tr if e.name == "SankeyState::push"]
            maps = [e for e in tr if re.match(r"(BTreeMap|Entry|VacantEntry|OccupiedEntry)::", e.name)]
            ran.add(has)
            if not c.ob("extended", has is not None and len(push) == (1 if has else 0), i, f"the log has the value: {has}, added {len(push)} times"):
                continue
            if not has:
                c.ob("extended", not [e for e in maps if not re.search(r"::(get|contains_key|new)$", e.name)], i, "a path is changed though the log has no value for it")
                continue
            a = [m(x) for x in push[0].args]
            c.ob("extended", a[1] == f"{V}?Some.0" and a[2] == f"{I}.limit" and a[3] == f"{I}.counts_toward_sankey_values_extraction_limit", i, f"added is {a[1:]}")
            under = [e for e in maps if re.search(r"::(entry|get_mut|insert)$", e.name)]
            own = all(m(e.args[1]) == f"{I}.sankey_id" for e in under if e.name.startswith("BTreeMap::"))
            c.ob("extended", under and own and (f"{I}.sankey_id)" in a[0] or re.match(r"default\(|SankeyState::default", a[0])), i, f"it is added to {a[0]}")
    c.ob("extended", ran == {True, False}, f, f"values there: {ran}")
    f, qs = runs(c, "finished", "Traversal::triggered_actions", r"SankeyPath::new$")
    K = "ActionEmitSankey::id(item($1)?EmitSankey.0)"
    for q in qs:
        s, v = listed(m(q.ret))
        want = {f"{k}(item($1)?{k}.0)": k for k in ("EmitMetric", "FlushBuffers", "TakeScreenshot")}
        seen = set()
        c.ob("finished", s == "$1" and len(v) == 4, q, f"triggered are {m(q.ret)[:300]}")
        for conds, val in v:
            g = re.fullmatch(r"SankeyDiagram\(TriggeredActionEmitSankey\{action:item\(\$1\)\?EmitSankey\.0,path:SankeyPath::new\((.*?),BTreeMap::remove\((.*?)\?Some\.0,(.*?)\)\?Some\.0\)\}\)", val)
            if g:
                seen.add("EmitSankey")
                c.ob("finished", g[1] in (K, "item($1)?EmitSankey.0.id") and g[3] in (K, "item($1)?EmitSankey.0.id") and re.fullmatch(r"(phi:\*)?\$2", g[2]), q, f"a diagram has the path of {g[3]}, under {g[1]}")
                rest = {x for x in conds if not re.search(r"^BTreeMap::remove\(.* is Some$|^(phi:\*)?\$2 is Some$|^item\(\$1\) is EmitSankey$", x)}
                c.ob("finished", not rest, q, f"a diagram is finished only when {sorted(rest)}")
            elif c.ob("finished", val in want, q, f"triggered is {val[:200]}"):
                k = want[val]
                seen.add(k)
                rest = {x for x in conds if x != f"item($1) is {k}" and not re.fullmatch(r"!item\(\$1\) is \w+", x)}
                c.ob("finished", not rest, q, f"{k} is triggered only when {sorted(rest)}")
        c.ob("finished", seen == {"EmitSankey", *want.values()}, q, f"triggered are {sorted(seen)}")
    c.ob("finished", bool(qs), f, "no path")


GROUPS = [steps, path, led]
FLOORS = {"added": 8, "trimmed": 5, "whole": 3, "id-of-steps": 3, "id-tells-apart": 1, "extended": 14, "finished": 8}
