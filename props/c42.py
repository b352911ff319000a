"""Filters change exactly the logs they match, exactly as configured; a log goes to exactly the buffers it matches."""
from rules import *

M = "bd_log_filter"
L = sym("$2")
NAMES = {"fields": "the captured fields", "matching_fields": "the fields for matching only"}


def is_(pat):
    return lambda q: q.kind == "ret" and re.fullmatch(pat, q.ret) is not None


def err(q):
    return q.kind == "ret" and q.ret.startswith("Err(")


def chain(c):
    c.rule("applied", "every filter sees the log as the filters before it left it, a filter that matches applies all its transforms in order, one that does not changes nothing")
    p = c.program(M)
    f = f"{M}::FilterChain::process"
    qs = c.paths_of(p, f, Config(opaque=[r"::Tree::do_match$", r"Transform::apply$"]))
    for q in qs:
        lps = [lp for lp in q.loops() if lp.src is not None and re.fullmatch(r"(iter\()?self\.filters\)?", show(lp.src))]
        if not c.ob("applied", q.kind == "ret" and len(lps) == 1 and q.whole(lps[0]), q, "not every filter is looked at"):
            continue
        kinds = set()
        for i in [Iter(q, tr, st) for tr, st in lps[0].iters]:
            new = len(i.events(deep=False))
            dm = [(k, v) for k, v in i.state.facts.items() if re.match(r"Tree::do_match\(", show(k))]
            c.ob("applied", len(dm) == 1 and re.fullmatch(r"Tree::do_match\(item\(self\.filters\)\.matcher,(\S*\$2)\.log_level,\1\.log_type,\1\.message,FieldsRef::new\(\1\.fields,\1\.matching_fields\)(#\d+)?\)(#\d+)?", show(dm[0][0])) is not None, i, "a filter is not asked about the log as it now is")
            if len(dm) != 1:
                continue
            ap = i.ev(r"^Transform::apply\(")
            inner = [lp for lp in i.loops() if lp.src is not None and re.fullmatch(r"(iter\()?item\(self\.filters\)\.transforms\)?", show(lp.src))]
            if dm[0][1]:
                c.ob("applied", len(inner) == 1, i, "the transforms of a filter that matches are not gone through")
                for lp in inner:
                    for j in [Iter(i, tr, st) for tr, st in lp.iters]:
                        e = j.ev(r"^Transform::apply\(", deep=False)
                        c.ob("applied", len(e) == 1 and re.fullmatch(r"Transform::apply\(item\(item\(self\.filters\)\.transforms\), \$2\)", repr(e[0])) is not None, j, "a transform is passed over")
                c.ob("applied", all(i.whole(lp) for lp in inner), i, "transforms are left out")
            else:
                c.ob("applied", not ap and not inner and "upd_by" not in show(i.e.view(i.state, L)) , i, "a log is changed by a filter that does not match it")
            kinds.add(dm[0][1])
        c.ob("applied", kinds == {True, False}, q, "filters are not told apart by whether they match")
    c.rule("skipped", "a filter that cannot be built is left out and counted; the others stay, in order")
    for q in c.paths_of(p, f"{M}::FilterChain::new", Config(opaque=[r"^bd_log_filter::Filter::new$"])):
        t = r"Filter::new\(item\(\$1\.filters\)\)(#\d+)?"
        c.ob("skipped", q.kind == "ret" and re.match(rf"\(FilterChain\{{filters:\[each \$1\.filters: \{{{t} is Ok => one\({t}\?Ok\.0\)\}}\]\}},", q.ret) is not None, q, f"the filters kept are {q.ret[:160]}")
        lps = [lp for lp in q.loops() if lp.src is not None and "$1.filters" in show(lp.src)]
        c.ob("skipped", len(lps) == 1, q, "filters are gone through more than once")
        n = q.ret.rsplit(",", 1)[-1].rstrip(")")
        for lp in lps:
            if re.search(r",Sub\(len\(\$1\.filters\),len\(.*\)\)\)$", q.ret):
                break
            vs = carried(q, lp, re.escape(n))
            if not c.ob("skipped", vs is not None, q, "the filters left out are not counted"):
                continue
            c.ob("skipped", [show(x) for x in vs[0]] == ["0"], q, f"the count starts at {[show(x) for x in vs[0]]}")
            for k, (tr, st) in enumerate(lp.iters):
                i = Iter(q, tr, st)
                okk = i.truth(t + " is Ok")
                new = show(vs[1].get(k)) if vs[1].get(k) is not None else n
                c.ob("skipped", okk is not None and new in ((n,) if okk else (f"Add({n},1)", f"Add(1,{n})")), i, f"a filter that {'is fine' if okk else 'cannot be built'} turns the count into {new[:60]}")


def without(v, L0, key_ok):
    """Whether the list v is L0 without the items of a name accepted by key_ok, plus what follows; returns the rest."""
    ps = parts_of(v)
    if ps and ps[0].op == "each" and ps[0].a[0] is L0:
        it = seq_item(L0)
        b = ps[0].a[1]
        if len(b) == 1 and len(b[0][0]) == 1 and b[0][1] == (mk("one", it),):
            k, val = b[0][0][0]
            if val is False and k.op == "eq" and fld(it, "key") in k.a:
                other = k.a[0] if k.a[1] is fld(it, "key") else k.a[1]
                if key_ok(other):
                    return ps[1:]
    return None


def transforms(c):
    p = c.program(M)
    f = f"{M}::Transform::apply"
    c.rule("capture", "capturing moves the field of that name from the matching fields to the captured ones, replacing one of the same name there; without such a field nothing changes")
    c.rule("set", "setting a field replaces any field of that name in the list it is for; an existing one is kept unless overriding is allowed, and a copy of a field that does not exist changes nothing")
    c.rule("remove", "removing a field removes it from both lists")
    c.rule("rewrite", "a pattern is replaced in the first field of that name, captured ones first, if it is text; nothing else changes")
    qs = c.paths_of(p, f, Config(opaque=[r"FieldProvider.*::field_value$"]))
    before = {n: fld(L, n) for n in NAMES}
    seen = set()
    for q in qs:
        v = next((x for x in ("CaptureField", "SetField", "RemoveField", "RegexMatchAndSubstitute") if q.truth(f"self is {x}")), None)
        rule = {"CaptureField": "capture", "SetField": "set", "RemoveField": "remove", "RegexMatchAndSubstitute": "rewrite"}.get(v)
        if not c.ob(rule or "set", rule is not None and q.kind == "ret", q, "a transform is not told apart, or panics"):
            continue
        S = f"self?{v}.0"
        now = q.e.resolve(q.state, next((x for k, x in q.x.heap().items() if show(k) == "$2"), L))
        after = {n: q.e.resolve(q.state, fld(now, n)) for n in NAMES}
        other = [n for n in ("message", "log_level", "log_type", "occurred_at", "session_id") if show(q.e.resolve(q.state, fld(now, n))) != f"$2.{n}"]
        c.ob(rule, not other, q, f"the log's {other} changes")
        items = {k: x for k, x in q.heap(r"item\(.*\)").items()}
        same = all(after[n] is before[n] for n in NAMES) and not items
        name = lambda t: show(t) == f"{S}.field_name"
        if v == "RemoveField":
            for n in NAMES:
                c.ob(rule, without(after[n], before[n], name) == [] or without(after[n], before[n], name) == (), q, f"{NAMES[n]} become {show(after[n])[:160]}")
            seen.add(v)
        elif v == "CaptureField":
            it = seq_item(before["matching_fields"])
            K = show(fld(it, "key"))
            hit = q.truth(rf"{re.escape(K)}=={re.escape(S)}\.field_name|{re.escape(S)}\.field_name=={re.escape(K)}")
            if hit:
                w = show(after["matching_fields"]) == "without($2.matching_fields,item($2.matching_fields))" or without(after["matching_fields"], before["matching_fields"], name) == []
                c.ob(rule, w and not items, q, f"the fields for matching only become {show(after['matching_fields'])[:160]}")
                rest = without(after["fields"], before["fields"], lambda t: name(t) or show(t) == K)
                c.ob(rule, rest is not None and [show(x) for x in rest] == [f"one({show(it)})"], q, f"the captured fields become {show(after['fields'])[:160]}")
            else:
                c.ob(rule, same and q.whole(), q, "something changes without the field to capture")
            seen.add((v, bool(hit)))
        elif v == "SetField":
            fv = lambda a: rf"FieldProvider::field_value\(\$2,{re.escape(S)}\.{a}\)(#\d+)? is Some"
            allowed = q.truth(re.escape(S) + r"\.is_override_allowed")
            exists = q.truth(fv("field_name"))
            text = q.truth(re.escape(S) + r"\.value is StringValue")
            copy = q.truth(rf"FieldProvider::field_value\(\$2,{re.escape(S)}\.value\?ExistingField\.0\)(#\d+)? is Some")
            mo = q.truth(re.escape(S) + r"\.field_type is MatchingOnly")
            if mo is None and q.truth(re.escape(S) + r"\.field_type is Captured") is not None:
                mo = not q.truth(re.escape(S) + r"\.field_type is Captured")
            if text is None and q.truth(re.escape(S) + r"\.value is ExistingField") is not None:
                text = not q.truth(re.escape(S) + r"\.value is ExistingField")
            if same:
                c.ob(rule, allowed is False and exists is True or text is False and copy is False, q, "a field to set is not set")
                seen.add((v, "kept" if exists else "nothing"))
                continue
            c.ob(rule, allowed is True or exists is False, q, "an existing field is overridden without leave")
            c.ob(rule, text is True or copy is True, q, "a field is set though the one to copy does not exist")
            if not c.ob(rule, mo is not None, q, "the kind of field is not asked"):
                continue
            tgt, oth = ("matching_fields", "fields") if mo else ("fields", "matching_fields")
            c.ob(rule, after[oth] is before[oth] and not items, q, f"{NAMES[oth]} change")
            rest = without(after[tgt], before[tgt], name)
            val = re.escape(S) + r"\.value\?StringValue\.0" if text else rf"FieldProvider::field_value\(\$2,{re.escape(S)}\.value\?ExistingField\.0\)(#\d+)?\?Some\.0"
            c.ob(rule, rest is not None and len(rest) == 1 and re.fullmatch(rf"one\(LogField\{{key:{re.escape(S)}\.field_name,value:(String\()?{val}\)?\}}\)", show(rest[0])) is not None, q, f"{NAMES[tgt]} become {show(after[tgt])[:200]}")
            seen.add((v, mo, text))
        else:
            def key(n):
                K = f"item($2.{n}).key"
                return q.truth(rf"{re.escape(K)}=={re.escape(S)}\.field_name|{re.escape(S)}\.field_name=={re.escape(K)}")
            lps = {n: [lp for lp in q.loops() if lp.src is not None and re.fullmatch(rf"(iter\()?\$2\.{n}\)?", show(lp.src))] for n in NAMES}
            both = [lp for lp in q.loops() if lp.src is not None and re.fullmatch(r"\[\$2\.fields \+\+ \$2\.matching_fields\]", show(lp.src))]
            if both:
                n = "fields"
                it = show(seq_item(both[0].src))
                K = re.escape(it) + r"\.key"
                hit = it if q.truth(rf"{K}=={re.escape(S)}\.field_name|{re.escape(S)}\.field_name=={K}") else None
            else:
                hit = next((f"item($2.{n})" for n in ("fields", "matching_fields") if key(n)), None)
                c.ob(rule, bool(lps["fields"]) and (hit == "item($2.fields)" or q.whole(lps["fields"][0]) and bool(lps["matching_fields"])), q, "the captured fields are not looked at first")
                if hit is None:
                    c.ob(rule, q.whole(), q, "fields are not looked at")
            ch = {n: after[n] is not before[n] for n in NAMES}
            c.ob(rule, not any(ch.values()), q, "fields come or go")
            if hit is None:
                c.ob(rule, not items, q, "a field of another name is changed")
                seen.add((v, None))
                continue
            s = q.truth(rf"(StringOrBytes|\w+)::as_str\({re.escape(hit)}\.value\)(#\d+)? is Some")
            if s:
                x = rf"\w+::as_str\({re.escape(hit)}\.value\)(#\d+)?\?Some\.0"
                c.ob(rule, list(items) == [hit] and re.fullmatch(rf"{re.escape(hit)}\{{value:=(String\()?(to_string\()?Regex::replace_all\({re.escape(S)}\.pattern,{x},{re.escape(S)}\.substitution\)\)?\)?\}}", items[hit]) is not None, q, f"what is rewritten is {str(items)[:200]}")
            else:
                c.ob(rule, s is False and not items, q, "a field that is not text is changed, or one is not asked")
            seen.add((v, s))
    want = {"RemoveField", ("CaptureField", True), ("CaptureField", False), ("SetField", "kept"), ("SetField", "nothing"), *[("SetField", a, b) for a in (True, False) for b in (True, False)],
            ("RegexMatchAndSubstitute", None), ("RegexMatchAndSubstitute", True), ("RegexMatchAndSubstitute", False)}
    c.ob("set", seen >= want, f, f"not found: {sorted(map(str, want - seen))}")
    c.rule("lookup", "a transform looks a field up by its name, captured fields first, the log's message, level and type by theirs")
    f = next(f for f in p.by_id.values() if re.search(r"bd_log_primitives::Log as .*FieldProvider>::field_value$", f.id))
    qs = c.paths_of(p, f)
    names = {"'_message'": r"Some\(Borrowed\(\w+::as_str\(self\.message\)(#\d+)?\?Some\.0\)\)", "'log_level'": r"Some\(Owned\(to_string\(self\.log_level\)\)\)", "'log_type'": r"Some\(Owned\(to_string\(self\.log_type(\.0)?\)\)\)"}
    found = set()
    for q in qs:
        n = next((n for n in names if q.truth(rf"\$2=={n}|{n}==\$2")), None)
        if n:
            c.ob("lookup", re.fullmatch(names[n], q.ret) is not None or n == "'_message'" and q.ret == "None" and q.truth(r"\w+::as_str\(self\.message\)(#\d+)? is Some") is False, q, f"{n} is {q.ret[:100]}")
            found.add(n)
            continue
        c.ob("lookup", all(q.truth(rf"\$2=={n}|{n}==\$2") is False for n in names), q, "a name is not told apart")
        lp = q.loops()
        both = "[self.fields ++ self.matching_fields]"
        src = [show(x.src) for x in lp if x.src is not None]
        c.ob("lookup", src == [both] or src == ["self.fields", "self.matching_fields"] or src == ["self.fields"] and not q.whole(), q, f"the fields looked at are {src}")
        it = f"item({src[-1]})" if src else "?"
        hit = q.truth(rf"\$2=={re.escape(it)}\.key|{re.escape(it)}\.key==\$2")
        if q.whole():
            c.ob("lookup", q.ret == "None", q, f"no such field is {q.ret[:80]}")
        else:
            tx = q.truth(rf"\w+::as_str\({re.escape(it)}\.value\)(#\d+)? is Some")
            c.ob("lookup", hit is True and (q.ret == "None" if tx is False else re.fullmatch(rf"Some\((Borrowed\()?\w+::as_str\({re.escape(it)}\.value\)(#\d+)?\?Some\.0\)?\)", q.ret) is not None), q, f"a field is {q.ret[:100]}")
            found.add("field")
    c.ob("lookup", found == set(names) | {"field"}, f, "a kind of name is never looked up")


def built(c):
    c.rule("built", "a filter is built only if its matcher and all its transforms are; each transform is built from its own configuration")
    p = c.program(M)
    f = f"{M}::Filter::new"
    qs = c.paths_of(p, f, Config(opaque=[r"Tree::new$", r"Transform::new$"]))
    MT = r"(MessageField::into_option\(\$1\.matcher\)|\$1\.matcher\.0)"
    tn = rf"Tree::new\({MT}\?Some\.0\)(#\d+)?"
    tr = r"Transform::new\(item\(\$1\.transforms\)\)(#\d+)?"
    col = rf"collect:Result\(\[each \$1\.transforms: \{{ => one\({tr}\)\}}\]\)"
    fine = rf"Ok\(Filter\{{matcher:{tn}\?Ok\.0,transforms:({col}\?Ok\.0|\[each \$1\.transforms: \{{.*one\({tr}\?Ok\.0\)\}}\])\}}\)"
    for q in qs:
        bad = q.truth(MT + " is Some") is False or q.truth(tn + " is Ok") is False or q.truth(col + " is Ok") is False or q.truth(tr + " is Ok") is False
        c.ob("built", err(q) if bad else is_(fine)(q), q, f"{q.kind} {q.ret[:120]}")
        c.ob("built", not q.ret.startswith("Ok") or q.truth(tn + " is Ok") is True and (q.truth(col + " is Ok") is True or q.whole() and bool(q.loops())), q, "a filter is built without all its parts")
    c.ob("built", any(err(q) and (q.truth(col + " is Ok") is False or q.truth(tr + " is Ok") is False) for q in qs), f, "a transform that cannot be built is no error")
    f = f"{M}::Transform::new"
    qs = c.paths_of(p, f, Config(opaque=[r"(CaptureField|SetField|RemoveField|RegexMatchAndSubstitute)::new$"]))
    T = "$1.transform_type"
    cases = [("no transform", World(is_={T: "None"}), err)]
    for var, ty in (("CaptureField", "CaptureField"), ("SetField", "SetField"), ("RemoveField", "RemoveField"), ("RegexMatchAndSubstituteField", "RegexMatchAndSubstitute")):
        n = rf"{ty}::new\({re.escape(T)}\?Some\.0\?{var}\.0\)(#\d+)?"
        cases += [(f"{var} {b}", World(is_={T: "Some", T + "?Some.0": var}, facts={f"~{n} is Ok": b}), is_(rf"Ok\({ty}\({n}\?Ok\.0\)\)") if b else err) for b in (True, False)]
    table(c, "built", f, qs, cases)
    for ty in ("CaptureField", "RemoveField"):
        for q in c.paths_of(p, f"{M}::{ty}::new"):
            c.ob("built", is_(rf"Ok\({ty}\{{field_name:\$1\.name\}}\)")(q), q, f"{q.kind} {q.ret[:120]}")
    r = r"Regex::new\(\$1\.pattern\)(#\d+)?"
    table(c, "built", f"{M}::RegexMatchAndSubstitute::new", c.paths_of(p, f"{M}::RegexMatchAndSubstitute::new"), [
        ("a broken pattern", World(facts={f"~{r} is Ok": False}), err),
        ("a pattern", World(facts={f"~{r} is Ok": True}), is_(rf"Ok\(RegexMatchAndSubstitute\{{field_name:\$1\.name,pattern:{r}\?Ok\.0,substitution:\$1\.substitution\}}\)"))])
    table(c, "built", f"{M}::SetFieldValue::new", c.paths_of(p, f"{M}::SetFieldValue::new"), [
        ("no value", World(is_={"$1.value": "None"}), err),
        ("a text", World(is_={"$1.value": "Some", "$1.value?Some.0": "StringValue"}), is_(r"Ok\(StringValue\(\$1\.value\?Some\.0\?StringValue\.0\)\)")),
        ("a field", World(is_={"$1.value": "Some", "$1.value?Some.0": "ExistingField"}), is_(r"Ok\(ExistingField\(\$1\.value\?Some\.0\?ExistingField\.0\.name\)\)"))])
    qs = c.paths_of(p, f"{M}::SetField::new", Config(opaque=[r"SetFieldValue::new$"]))
    E = r"EnumOrUnknown::enum_value\(\$1\.field_type\)(#\d+)?"
    V = r"(MessageField::into_option\(\$1\.value\)|\$1\.value\.0)"
    n = rf"SetFieldValue::new\({V}\?Some\.0\)(#\d+)?"
    for q in qs:
        ty = next((x for x in ("MATCHING_ONLY", "CAPTURED", "UNKNOWN") if q.truth(rf"({E}\?Ok\.0|default\(.*\)) is {x}")), None)
        if q.ret.startswith("Ok"):
            want = {"MATCHING_ONLY": "MatchingOnly", "CAPTURED": "Captured"}.get(ty)
            c.ob("built", want is not None and q.truth(V + " is Some") is True and q.truth(n + " is Ok") is True
                 and re.fullmatch(rf"Ok\(SetField\{{field_name:\$1\.name,field_type:{want},is_override_allowed:\$1\.allow_override,value:{n}\?Ok\.0\}}\)", q.ret) is not None, q, f"a transform is built as {q.ret[:160]}")
        else:
            c.ob("built", err(q) and (ty == "UNKNOWN" or ty is None and (q.truth(V + " is Some") is False or q.truth(n + " is Ok") is False or q.truth(E + " is Ok") is False)
                                      or q.truth(V + " is Some") is False or q.truth(n + " is Ok") is False), q, "a complete transform is refused")


def buffers(c):
    c.rule("buffers", "the buffers a log is for are exactly those with a filter that matches it")
    p = c.program("bd_matcher")
    B = "bd_matcher::buffer_selector::BufferSelector"
    qs = c.paths_of(p, f"{B}::buffers", Config(opaque=[r"::Tree::do_match$"]))
    F = "item(self.buffer_filters)"
    I = f"item({F}.matchers)"
    dm = rf"Tree::do_match\({re.escape(I)}(\.1|\.matcher)?,\$2,\$3,\$4,\$5\)(#\d+)?"
    for q in qs:
        outer = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == "self.buffer_filters"]
        if not c.ob("buffers", q.kind == "ret" and len(outer) == 1 and q.whole(outer[0]), q, "not every buffer is looked at"):
            continue
        kinds = set()
        var = re.escape(q.ret) if re.fullmatch(r"phi:[\w*]+", q.ret) else r"phi:acc" if re.fullmatch(rf"collect:(BTreeSet|HashSet)\(\[each self\.buffer_filters: \{{.*one\((Borrowed\()?{re.escape(F)}\.buffer_id\)?\)\}}\]\)", q.ret) else None
        acc = carried(q, outer[0], var) if var else None
        if not c.ob("buffers", acc is not None and [show(x) for x in acc[0]] in (["[]"], ["new()"], ["BTreeSet::new()"]), q, f"what is returned is {q.ret[:100]}, from {acc and [show(x) for x in acc[0]]}"):
            continue
        INS = r"^(BTreeSet|HashSet|Vec)::(insert|push)\("
        for n, (tr, st) in enumerate(outer[0].iters):
            i = Iter(q, tr, st)
            t = [v for k, v in i.state.facts.items() if re.fullmatch(dm, show(k))]
            inner = [lp for lp in i.loops() if lp.src is not None and show(lp.src) == f"{F}.matchers"]
            if not c.ob("buffers", len(inner) == 1, i, "the filters of a buffer are not gone through"):
                continue
            ins = [show(e.args[1]) for e in i.ev(INS)]
            grown = re.fullmatch(r"\[phi:\w+ \+\+ one\((.*)\)\]", show(acc[1][n])) if n in acc[1] else None
            if grown and not ins:
                ins = [grown.group(1)]
            for j in [Iter(i, tr2, st2) for tr2, st2 in inner[0].iters]:
                tj = [v for k, v in j.state.facts.items() if re.fullmatch(dm, show(k))]
                ij = j.ev(INS, deep=False)
                c.ob("buffers", len(tj) == 1 and (not ij or tj[0]), j, "a filter is passed over, or a buffer chosen without one that matches")
                c.ob("buffers", not tj or not tj[0] or bool(ij), j, "a buffer whose filter matches is not chosen")
            if not ins:
                kinds.add(False)
                c.ob("buffers", i.whole(inner[0]) and True not in t, i, "a buffer is passed over before all its filters were asked")
            else:
                c.ob("buffers", all(re.fullmatch(rf"(Borrowed\()?{re.escape(F)}\.buffer_id\)?", x) for x in ins) and True in t, i, f"the buffer chosen is {ins}")
                kinds.add(True)
        c.ob("buffers", kinds == {True, False}, q, f"buffers are not told apart by their filters")
    qs = c.paths_of(p, f"{B}::new", Config(opaque=[r"::Tree::new$"]))
    c.ob("buffers", any(err(q) and any(re.search(r"Tree::new\(.*\)(#\d+)? is Ok$", show(k)) and v is False for k, v in q.state.facts.items()) for q in qs), f"{B}::new", "an unusable filter is no error")
    for q in qs:
        bad = [k for k, v in q.state.facts.items() if re.search(r"Tree::new\(.*\)(#\d+)? is Ok$", show(k)) and v is False]
        c.ob("buffers", q.kind == "ret" and (err(q) if bad else q.ret.startswith("Ok(")), q, "an unusable filter is ignored")
        if not bad and q.ret.startswith("Ok("):
            c.ob("buffers", q.whole() and "each $1.buffer_config" in q.ret and "buffer_id:item($1.buffer_config).id" in q.ret and "each item($1.buffer_config).filters" in q.ret, q, f"the buffers known are {q.ret[:200]}")


GROUPS = [chain, transforms, built, buffers]
FLOORS = {"applied": 8, "skipped": 4, "capture": 4, "set": 15, "remove": 3, "rewrite": 8, "lookup": 6, "built": 15, "buffers": 8}
