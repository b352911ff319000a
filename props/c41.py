"""A log matcher means what it says: trees, operators, absent and unreadable values, versions."""
from rules import *

LM, BM = "bd_log_matcher::matcher", "bd_matcher::matcher"
ORD = ("<", "=", ">")
# which orders of (candidate, value) an operator accepts
OPS = {"OPERATOR_LESS_THAN": "<", "OPERATOR_LESS_THAN_OR_EQUAL": "<=", "OPERATOR_EQUALS": "=", "OPERATOR_GREATER_THAN": ">", "OPERATOR_GREATER_THAN_OR_EQUAL": ">=", "OPERATOR_NOT_EQUALS": "<>"}


def yes(b):
    return "true" if b else "false"


def one(c, p, pat):
    fs = [f for f in p.by_id.values() if f.kind != "std" and "{closure" not in f.id and re.fullmatch(pat, f.id)]
    if len(fs) != 1:
        raise Exception(f"{len(fs)} functions match {pat}")
    return fs[0]


def nodes(c):
    c.rule("tree", "or is some part, and is every part, not is the opposite, and the parts see the same log")
    for crate, mod in (("bd_log_matcher", LM), ("bd_matcher", BM)):
        p = c.program(crate)
        f = c.fn(p, f"{mod}::Tree::do_match")
        qs = c.paths_of(p, f, Config(opaque=[r"::(IntMatch|StringMatch|VersionMatch|Str)::evaluate$", r"::Integer::do_match$", r"InputType::get$"]))
        seen = set()
        for q in qs:
            v = next((x for x in ("Or", "And", "Not") if q.truth(f"self is {x}")), None)
            if v is None:
                continue
            c.ob("tree", q.kind == "ret", q, "matching panics")
            if v == "Not":
                t = [b for k, b in q.state.facts.items() if re.fullmatch(r"Tree::do_match\(self\?Not\.0,\$2,\$3,\$4,\$5\)(#1)?", show(k))]
                if not t:
                    c.ob("tree", re.fullmatch(r"!Tree::do_match\(self\?Not\.0,\$2,\$3,\$4,\$5\)(#1)?", q.ret) is not None, q, "the opposite of a part is not that")
                else:
                    c.ob("tree", q.ret == yes(not t[0]), q, "the opposite of a part is not that")
                seen.add(v)
                continue
            stop = v == "Or"
            lps = q.loops()
            c.ob("tree", len(lps) == 1 and lps[0].src is not None and re.fullmatch(rf"(iter\()?self\?{v}\.0\)?", show(lps[0].src)) is not None, q, "the parts are not all looked at")
            part = re.compile(rf"Tree::do_match\(item\(self\?{v}\.0\),\$2,\$3,\$4,\$5\)(#\d+)?")
            if not lps:
                continue
            if q.whole():
                c.ob("tree", q.ret == yes(not stop), q, f"{v}: all parts looked at, and the answer is {q.ret}")
                c.ob("tree", all(x is True for x in [any(part.fullmatch(show(k)) and b is (not stop) for k, b in i.state.facts.items()) for i in [Iter(q, tr, st) for tr, st in lps[0].iters]]), q, "a part is passed over without being asked")
                seen.add((v, "all"))
            else:
                c.ob("tree", q.ret == yes(stop) and any(part.fullmatch(show(k)) and b is stop for k, b in q.state.facts.items()), q, f"{v}: settled early as {q.ret}")
                seen.add((v, "one"))
        c.ob("tree", seen == {"Not", ("Or", "all"), ("Or", "one"), ("And", "all"), ("And", "one")}, f, f"the ways through are {sorted(map(str, seen))}")


def leaves(c):
    c.rule("leaf", "a condition on a value that is not there is false; a condition on one that is there is the comparison's answer for that value")
    p = c.program("bd_log_matcher")
    f = c.fn(p, f"{LM}::Tree::do_match")
    qs = c.paths_of(p, f, Config(opaque=[r"::(IntMatch|StringMatch|VersionMatch)::evaluate$", r"InputType::get$"]))
    B = "self?Base.0"
    get = lambda v: rf"InputType::get\({re.escape(B)}\?{v}\.0,\$4,\$5\)(#\d+)?"

    def w(v, **facts):
        return World(is_={"self": "Base", B: v}, facts=facts.get("facts", {}))

    def ev(name, v, val):
        n = re.compile(rf"(AsRef::as_ref\()?{name}::evaluate\({re.escape(B)}\?{v}\.\d,{val}\)(#\d+)?\)?")

        def check(q):
            e = q.ev(rf"^{name}::evaluate\(", deep=False)
            if len(e) != 1 or q.kind != "ret":
                return False
            if n.fullmatch(q.ret):
                return True
            t = [b for k, b in q.state.facts.items() if n.fullmatch(show(k))]
            return len(t) == 1 and q.ret == yes(t[0])
        return check
    cases = []
    for v, name in (("StringValue", "StringMatch"), ("VersionValue", "VersionMatch"), ("IntValue", "IntMatch")):
        g = get(v)
        cases.append((f"{v}: no such value", w(v, facts={"~" + g + " is Some": False}), "false"))
        val = g + r"\?Some\.0"
        if v == "IntValue":
            ps = rf"str::parse\({val}\)"
            cases.append((f"{v}: not a number", w(v, facts={"~" + g + " is Some": True, "~" + ps + " is Ok": False}), "false"))
            cases.append((f"{v}: a number", w(v, facts={"~" + g + " is Some": True, "~" + ps + " is Ok": True, rf"~{name}::evaluate\(.*": None}), ev(name, v, rf"\({ps}\?Ok\.0 as i32\)")))
        else:
            cases.append((f"{v}: there", w(v, facts={"~" + g + " is Some": True, rf"~{name}::evaluate\(.*": None}), ev(name, v, val)))
    g = get("IsSetValue")
    for b in (True, False):
        cases.append((f"IsSetValue: {b}", w("IsSetValue", facts={"~" + g + " is Some": b}), yes(b)))
        cases.append((f"LogType: {b}", World(is_={"self": "Base", B: "LogType"}, order={("$3.0", B + "?LogType.0"): "=" if b else "<"}), yes(b)))
    cases.append(("LogType: larger", World(is_={"self": "Base", B: "LogType"}, order={("$3.0", B + "?LogType.0"): ">"}), "false"))
    lv = r"(TryInto::try_into|TryFrom::try_from)\(\$2\)"
    cases.append(("LogLevel: out of range", w("LogLevel", facts={f"~{lv} is Ok": False}), "false"))
    cases.append(("LogLevel", w("LogLevel", facts={f"~{lv} is Ok": True, r"~IntMatch::evaluate\(.*": None}), ev("IntMatch", "LogLevel", lv + r"\?Ok\.0")))
    table(c, "leaf", f, qs, cases)
    p = c.program("bd_matcher")
    f = c.fn(p, f"{BM}::Tree::do_match")
    qs = c.paths_of(p, f, Config(opaque=[r"::Str::evaluate$", r"InputType::get$", r"::Integer::do_match$"]))
    g = get("String")
    lm = re.compile(rf"Integer::do_match\({re.escape(B)}\?LogLevel\.0,\$3\)(#\d+)?")
    table(c, "leaf", f, qs, [
        ("any", w("Any"), "true"),
        ("String: no such value", w("String", facts={"~" + g + " is Some": False}), "false"),
        ("String: there", w("String", facts={"~" + g + " is Some": True, r"~Str::evaluate\(.*": None}), ev("Str", "String", g + r"\?Some\.0")),
        *[(f"LogType {o}", World(is_={"self": "Base", B: "LogType"}, order={("$2.0", B + "?LogType.0"): o}), yes(o == "=")) for o in ORD],
        ("LogLevel", w("LogLevel", facts={"~" + lm.pattern: None}), lambda q: lm.fullmatch(q.ret) is not None or [q.ret] == [yes(b) for k, b in q.state.facts.items() if lm.fullmatch(show(k))]),
    ])
    c.rule("input", "what is compared is the message's text, or the value of exactly the named field")
    for crate, mod in (("bd_log_matcher", LM), ("bd_matcher", BM)):
        p = c.program(crate)
        f = c.fn(p, f"{mod}::InputType::get")
        qs = c.paths_of(p, f)
        s = r"(StringOrBytes|LogMessage)::as_str\(\$2\)(#\d+)?"
        table(c, "input", f, qs, [
            ("a field", World(is_={"self": "Field"}), lambda q: re.fullmatch(r"FieldProvider::field_value\(\$3,self\?Field\.0\)(#\d+)?", q.ret) is not None),
            ("no text", World(is_={"self": "Message"}, facts={f"~{s} is Some": False}), "None"),
            ("a text", World(is_={"self": "Message"}, facts={f"~{s} is Some": True}), lambda q: re.fullmatch(rf"Some\(Borrowed\({s}\?Some\.0\)\)", q.ret) is not None),
        ])


def operators(c):
    c.rule("operator", "each operator accepts exactly the orders its name says, for numbers and for texts")
    p = c.program("bd_log_matcher")
    for ty in ("IntMatch", "StringMatch"):
        f = c.fn(p, f"{LM}::{ty}::evaluate")
        qs = c.paths_of(p, f)
        cases = [(f"{ty} {op} {o}", World(is_={"self.operator": op}, order={("$2", "self.value"): o}), yes(o in acc)) for op, acc in OPS.items() for o in ORD]
        if ty == "StringMatch":
            cases.append(("a pattern", World(is_={"self.operator": "OPERATOR_REGEX", "self.regex": "Some"}), lambda q: re.fullmatch(r"Regex::is_match\(self\.regex\?Some\.0,\$2\)(#\d+)?", q.ret) is not None))
        table(c, "operator", f, qs, cases)
        for q in qs:
            c.ob("operator", q.kind == "ret" or ty == "StringMatch" and q.truth("self.operator is OPERATOR_REGEX") is True and q.truth("self.regex is Some") is False, q, "a comparison panics")
    p = c.program("bd_matcher")
    f = c.fn(p, f"{BM}::Integer::do_match")
    acc = {"LESS_THAN": "<", "LESS_THAN_OR_EQUAL": "<=", "EQUALS": "=", "GREATER_THAN": ">", "GREATER_THAN_OR_EQUAL": ">="}
    table(c, "operator", f, c.paths_of(p, f), [(f"{op} {o}", World(is_={"self.operator": op}, order={("$2", "self.value"): o}), yes(o in a)) for op, a in acc.items() for o in ORD])
    f = c.fn(p, f"{BM}::Str::evaluate")
    is_ = lambda pat: lambda q: re.fullmatch(pat, q.ret) is not None
    table(c, "operator", f, c.paths_of(p, f), [
        ("pattern", World(is_={"self": "Regex"}), is_(r"Regex::is_match\(self\?Regex\.0,\$2\)(#\d+)?")),
        *[(f"prefix {b}", World(is_={"self": "Prefix"}, facts={r"~(str::)?starts_with\(\$2,self\?Prefix\.0\)|str::strip_prefix\(\$2,self\?Prefix\.0\) is Some": b}), yes(b)) for b in (True, False)],
        *[(f"exact {o}", World(is_={"self": "Exact"}, order={("$2", "self?Exact.0"): o}), yes(o == "=")) for o in ORD],
    ])


def compiled(c):
    c.rule("compiled", "a matcher is built only from a complete configuration: a missing part, an unknown or unusable operator or a broken pattern is an error, and the parts built are the parts configured")
    for crate, mod, mt, ms in (("bd_log_matcher", LM, "matcher", "log_matchers"), ("bd_matcher", BM, "match_type", "matcher")):
        p = c.program(crate)
        f = c.fn(p, f"{mod}::Tree::new")
        qs = c.paths_of(p, f, Config(opaque=[r"Leaf::new$"]))
        M = f"$1.{mt}"
        err = lambda q: q.kind == "ret" and q.ret.startswith("Err(")
        is_ = lambda pat: (lambda q: q.kind == "ret" and re.fullmatch(pat, q.ret) is not None)
        E = re.escape(M) + r"\?Some\.0"
        cases = [("nothing", World(is_={M: "None"}), err)]
        for v, cons in (("BaseMatcher", "Base"), ("NotMatcher", "Not")):
            t = rf"{'Leaf' if v == 'BaseMatcher' else 'Tree'}::new\({E}\?{v}\.0\)(#\d+)?"
            for b in (True, False):
                cases.append((f"{v} {b}", World(is_={M: "Some", M + "?Some.0": v}, facts={f"~{t} is Ok": b}), is_(rf"Ok\({cons}\((Box::new\()?{t}\?Ok\.0\)?\)\)") if b else err))
        for v, cons in (("OrMatcher", "Or"), ("AndMatcher", "And")):
            src = rf"{E}\?{v}\.0\.{ms}"
            t = rf"collect:Result\(\[each {src}: \{{ => one\(Tree::new\(item\({src}\)\)(#\d+)?\)\}}\]\)"
            one_ = rf"Tree::new\(item\({src}\)\)(#\d+)?"
            loop = rf"\[each {src}: \{{.*one\({one_}\?Ok\.0\)\}}\]"
            for b in (True, False):
                cases.append((f"{v} {b}", World(is_={M: "Some", M + "?Some.0": v}, facts={f"~{t} is Ok": b, f"~{one_} is Ok": b}), is_(rf"Ok\({cons}\(({t}\?Ok\.0|{loop})\)\)") if b else (lambda q: err(q) or q.kind == "ret" and q.whole() and bool(q.loops()))))
        table(c, "compiled", f, qs, cases)
        for v in ("OrMatcher", "AndMatcher"):
            c.ob("compiled", any(err(q) and any(re.search(rf"Tree::new\(item\({E}\?{v}\.0\.{ms}\)\)(#\d+)?\)?(\}}\]\))? is Ok$", show(k)) and b is False for k, b in q.state.facts.items()) for q in qs), f, f"{v}: a part that cannot be built is no error")
        for q in qs:
            c.ob("compiled", q.kind == "ret", q, "building a matcher panics")
    p = c.program("bd_log_matcher")
    err = lambda q: q.kind == "ret" and q.ret.startswith("Err(")
    for ty, bad in (("IntMatch", ()), ("StringMatch", ("OPERATOR_UNSPECIFIED",))):
        f = c.fn(p, f"{LM}::{ty}::new")
        qs = c.paths_of(p, f)
        cases = [(f"{ty} {op}", World(is_={"$1": op}), is_(rf"Ok\({ty}\{{operator:(\$1|{op}),(regex:None,)?value:\$2\}}\)")) for op in OPS]
        cases += [(f"{ty} {op}", World(is_={"$1": op}), err) for op in bad]
        if ty == "IntMatch":
            cases.append(("a pattern for a number", World(is_={"$1": "OPERATOR_REGEX"}), err))
        else:
            r = r"Regex::new\(\$2\)(#\d+)?"
            cases += [(f"pattern {b}", World(is_={"$1": "OPERATOR_REGEX"}, facts={f"~{r} is Ok": b}), is_(rf"Ok\({ty}\{{operator:(\$1|OPERATOR_REGEX),regex:Some\({r}\?Ok\.0\),value:\$2\}}\)") if b else err) for b in (True, False)]
        table(c, "compiled", f, qs, cases)
    f = one(c, p, r"bd_log_matcher::version::VersionMatch::new")
    qs = c.paths_of(p, f, Config(opaque=[r"Version::new$"]))
    r = r"Regex::new\(\$2\)(#\d+)?"
    cmpn = {"OPERATOR_LESS_THAN": "LessThan", "OPERATOR_LESS_THAN_OR_EQUAL": "LessThanOrEqual", "OPERATOR_GREATER_THAN": "GreaterThan", "OPERATOR_GREATER_THAN_OR_EQUAL": "GreaterThanOrEqual", "OPERATOR_NOT_EQUALS": "NotEquals", "OPERATOR_EQUALS": "Equals"}
    table(c, "compiled", f, qs, [("version: unspecified", World(is_={"$1": "OPERATOR_UNSPECIFIED"}), err),
          *[(f"version pattern {b}", World(is_={"$1": "OPERATOR_REGEX"}, facts={f"~{r} is Ok": b}), is_(rf"Ok\(Regex\({r}\?Ok\.0\)\)") if b else err) for b in (True, False)],
          *[(f"version {op}", World(is_={"$1": op}), is_(rf"Ok\(Comparator\({n},Version::new\(\$2\)(#\d+)?\)\)")) for op, n in cmpn.items()]])
    f = c.fn(p, f"{LM}::Leaf::new")
    qs = c.paths_of(p, f, Config(opaque=[r"(IntMatch|StringMatch|VersionMatch)::new$"]))
    M, T = "$1.match_type", "$1.match_type?Some.0?TagMatch.0"
    V = T + ".value_match?Some.0"
    em, et, ev_ = re.escape("$1.match_type?Some.0?MessageMatch.0.string_value_match"), re.escape(T), re.escape(V)
    ek = et + r"\.tag_key"
    K = T + ".tag_key"

    def build(ty, m):
        op = rf"EnumOrUnknown::enum_value\({m}\.operator\)(#\d+)?"
        t = rf"{ty}::new\({op}\?Ok\.0,{m}\.match_value\)(#\d+)?"
        return op, t

    cases = [("no condition", World(is_={M: "None"}), err),
             ("a tag without a condition", World(is_={M: "Some", M + "?Some.0": "TagMatch", T + ".value_match": "None"}), err)]

    def add(name, is__, facts, ty, m, cons):
        op, t = build(ty, m)
        cases.append((name + ": unknown operator", World(is_=is__, facts={**facts, f"~{op} is Ok": False}), err))
        cases.append((name + ": unusable", World(is_=is__, facts={**facts, f"~{op} is Ok": True, f"~{t} is Ok": False}), err))
        cases.append((name, World(is_=is__, facts={**facts, f"~{op} is Ok": True, f"~{t} is Ok": True}), is_(rf"Ok\({cons % (t + r'?Ok.0').replace('?Ok.0', chr(92) + '?Ok' + chr(92) + '.0')}\)")))
    add("message", {M: "Some", M + "?Some.0": "MessageMatch"}, {}, "StringMatch", em, r"StringValue\(Message,%s\)")
    tag = {M: "Some", M + "?Some.0": "TagMatch", T + ".value_match": "Some"}
    add("text", {**tag, V: "StringValueMatch"}, {}, "StringMatch", ev_ + r"\?StringValueMatch\.0", rf"StringValue\(Field\({ek}\),%s\)")
    add("version", {**tag, V: "SemVerValueMatch"}, {}, "VersionMatch", ev_ + r"\?SemVerValueMatch\.0", rf"VersionValue\(Field\({ek}\),%s\)")
    iv = ev_ + r"\?IntValueMatch\.0"
    key = lambda a, b: {f"{K}=='log_level'": a, f"'log_level'=={K}": a, f"{K}=='log_type'": b, f"'log_type'=={K}": b}
    add("number", {**tag, V: "IntValueMatch"}, key(False, False), "IntMatch", iv, rf"IntValue\(Field\({ek}\),%s\)")
    add("level", {**tag, V: "IntValueMatch"}, key(True, False), "IntMatch", iv, r"LogLevel\(%s\)")
    ti = rf"(TryInto::try_into|TryFrom::try_from)\({iv}\.match_value\)"
    for b in (True, False):
        cases.append((f"log type {b}", World(is_={**tag, V: "IntValueMatch"}, facts={**key(False, True), f"~{ti} is Ok": b}), is_(rf"Ok\(LogType\({ti}\?Ok\.0\)\)") if b else err))
    cases.append(("is set", World(is_={**tag, V: "IsSetMatch"}), is_(rf"Ok\(IsSetValue\(Field\({ek}\)\)\)")))
    table(c, "compiled", f, qs, cases)


def versions(c):
    c.rule("version", "versions compare segment by segment, the missing ones as zero and numbers as numbers, and what follows - or + does not count")
    p = c.program("bd_log_matcher")
    mod = "bd_log_matcher::version"
    f = one(c, p, mod + "::Version::new")
    for q in c.paths_of(p, f):
        if not c.ob("version", q.kind == "ret", q, "parsing a version panics"):
            continue
        t = q.rett
        segs = q.e.resolve(q.state, fld(t, "segments"))
        dash, plus = r"str::split_once\(\$1,'-'\)", r"str::split_once\((?:\$1|str::split_once\(\$1,'-'\)\?Some\.0\.0),'\+'\)"
        d = q.truth(dash + " is Some")
        base = "$1" if d is False else "str::split_once($1,'-')?Some.0.0" if d else None
        pl = q.truth(plus + " is Some")
        core = base if pl is False else f"str::split_once({base},'+')?Some.0.0" if pl else None
        sp = f"str::split({core},'.')"
        x = re.escape(f"str::parse(item({sp}))")
        pat = rf"\[each {re.escape(sp)}: \{{!{x}(#\d+)? is Ok => one\(String\({re.escape(f'item({sp})')}\)\); {x}(#\d+)? is Ok => one\(Int\({x}(#\d+)?\?Ok\.0\)\)\}}\]"
        pat2 = rf"\[each {re.escape(sp)}: \{{{x}(#\d+)? is Ok => one\(Int\({x}(#\d+)?\?Ok\.0\)\); !{x}(#\d+)? is Ok => one\(String\({re.escape(f'item({sp})')}\)\)\}}\]"
        c.ob("version", d is not None and pl is not None and (re.fullmatch(pat, show(segs)) or re.fullmatch(pat2, show(segs))) is not None, q, f"the segments are {show(segs)[:200]}")
    f = next((f for f in p.by_id.values() if re.search(r"VersionSegment as std::cmp::Ord>::cmp$", f.id)), None)
    A, B = "self", "$2"
    cases = []
    for a in ("Int", "String"):
        for b in ("Int", "String"):
            x = f"{A}?{a}.0" if a == b or a == "String" else f"to_string({A}?{a}.0)"
            y = f"{B}?{b}.0" if a == b or b == "String" else f"to_string({B}?{b}.0)"
            for o in ORD:
                cases.append((f"{a}/{b} {o}", World(is_={A: a, B: b}, order={(x, y): o}), {"<": "Less", "=": "Equal", ">": "Greater"}[o]))
    c.rule("segment", "two segments that are numbers compare as numbers, all others as texts")
    table(c, "segment", f, c.paths_of(p, f), cases)
    f = one(c, p, mod + "::Version::cmp")
    qs = c.paths_of(p, f)
    Z = r"zip_longest\(self\.segments,(?:iter\()?\$2\.segments\)?\)"
    IT = rf"item\({Z}\)"
    name = {"Less": "<", "Equal": "=", "Greater": ">"}
    done = set()

    def sides(q):
        """(left, right) of an iteration."""
        for v, l, r in (("Both", r"\?Both\.0", r"\?Both\.1"), ("Left", r"\?Left\.0", None), ("Right", None, r"\?Right\.0")):
            if q.truth(IT + f" is {v}"):
                return v, IT + l if l else r"Int\(0\)", IT + r if r else r"Int\(0\)"
        return None, None, None

    def order(q, l, r):
        lt_, gt = q.truth(rf"{l}<{r}|.*cmp\({l},{r}\)(#\d+)? is Less"), q.truth(rf"{r}<{l}|.*cmp\({l},{r}\)(#\d+)? is Greater")
        same = q.truth(rf"{l}=={r}|{r}=={l}|.*cmp\({l},{r}\)(#\d+)? is Equal")
        if same is None and "Int" in l + r:
            # equality with Int(0), taken apart
            o = r if l == r"Int\(0\)" else l
            isint, zero = q.truth(rf"{o} is Int"), q.truth(rf"0=={o}\?Int\.0")
            same = False if isint is False or zero is False else True if isint and zero else None
        if lt_ or gt or same:
            return "<" if lt_ else ">" if gt else "="
        no = [k for k, v in (("<", lt_), ("=", same), (">", gt)) if v is False]
        left = [k for k in "<=>" if k not in no]
        return left[0] if len(left) == 1 else None
    for q in qs:
        if not c.ob("version", q.kind == "ret" and len(q.loops()) == 1, q, "versions are not compared in one pass over their segments"):
            continue
        lp = q.loops()[0]
        c.ob("version", lp.src is not None and re.fullmatch(Z, show(lp.src)) is not None, q, f"what is compared is {lp.src and show(lp.src)[:80]}")
        if q.whole():
            c.ob("version", q.ret == "Equal", q, f"versions without a difference compare as {q.ret}")
            for i in [Iter(q, tr, st) for tr, st in lp.iters]:
                v, l, r = sides(i)
                c.ob("version", v is not None and order(i, l, r) == "=", i, "two segments that differ are passed over")
        else:
            v, l, r = sides(q)
            c.ob("version", v is not None and name.get(q.ret) == order(q, l, r) and q.ret != "Equal", q, f"two segments compare as {q.ret}")
            done.add((v, q.ret))
    c.ob("version", done == {(v, r) for v in ("Both", "Left", "Right") for r in ("Less", "Greater")}, f, f"the differences told apart are {sorted(map(str, done))}")
    f = one(c, p, mod + "::SimpleComparator::compare")
    cmpv = r"Version::cmp\(\$2,\$3\)(#\d+)?"
    acc = {"LessThan": "<", "LessThanOrEqual": "<=", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "NotEquals": "<>", "Equals": "="}
    table(c, "operator", f, c.paths_of(p, f, Config(opaque=[r"version::Version::cmp$"])),
          [(f"version {v} {n}", World(is_={"self": v, "~" + cmpv: n}), yes(o in a)) for v, a in acc.items() for n, o in name.items()])
    f = one(c, p, mod + "::VersionMatch::evaluate")
    qs = c.paths_of(p, f, Config(opaque=[r"SimpleComparator::compare$", r"Version::new$"]))
    table(c, "version", f, qs, [
        ("pattern", World(is_={"self": "Regex"}), lambda q: re.fullmatch(r"Regex::is_match\(self\?Regex\.0,\$2\)(#\d+)?", q.ret) is not None),
        ("comparison", World(is_={"self": "Comparator"}), lambda q: re.fullmatch(r"SimpleComparator::compare\(self\?Comparator\.0,Version::new\(\$2\)(#\d+)?,self\?Comparator\.1\)(#\d+)?", q.ret) is not None)])


def is_(pat):
    return lambda q: q.kind == "ret" and re.fullmatch(pat, q.ret) is not None


GROUPS = [nodes, leaves, operators, compiled, versions]
FLOORS = {"tree": 20, "leaf": 12, "input": 6, "operator": 60, "compiled": 40, "version": 15, "segment": 12}
