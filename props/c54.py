"""Validation by annotations: every field of every message below is checked, what is accepted keeps its rules, and a rule that is not supported is refused."""
from rules import *
from c46 import n, evs, ask, after, facts

V = "bd_pgv::proto_validate::"
RULES = r"ExtFieldOptional::get\(.*?(FieldDescriptor::proto\(\$1\)#1\.options).*?\)(#\d+)?\?Some\.0"
TYPE = r"RL\.type_"
# rules that have no effect yet and are not refused either
LET_BE = {"StringRules": {"strict", "ignore_empty"}, "MessageRules": {"skip"}}


def names(x):
    x = re.sub(r"ExtFieldOptional::get\(ExtFieldOptional::new\(1071,TYPE_MESSAGE\)#1,MessageField::as_ref\(FieldDescriptor::proto\(\$1\)#1\.options\)\?Some\.0\)#1\?Some\.0", "RL", n(x))
    x = re.sub(r"FieldDescriptor::runtime_field_type\(\$1\)#1", "KIND", x)
    x = re.sub(r"proto_validate::get_singular_or_default\(\$\d,\$\d\)#1", "VAL", x)
    return re.sub(r"FieldDescriptor::get_singular\(\$1,\$3\)(#\d+)?", "SET", x)


def known(q):
    return {names(k): v for k, v in q.state.facts.items()}


def has(fs, pat):
    v = {x for k, x in fs.items() if re.fullmatch(pat, k)}
    return v.pop() if len(v) == 1 else None


def rule_fields(p, name):
    a = [x for k, x in p.adts.items() if k.endswith("generated::protos::validate::" + name)]
    if len(a) != 1:
        raise Anchor(f"{len(a)} definitions of {name}")
    return [f[0] for f in a[0]["variants"][0][1] if f[0] != "special_fields"]


def leaf(c, fn, rules, used, there, violations, cfg=None):
    """one kind of value: refused exactly if it breaks a rule that is set or a rule is set that is not supported.
    violations: lists of (pattern, truth) that together are a breach"""
    p = c.program("bd_pgv")
    other = [f for f in rule_fields(p, rules) if f not in used and f not in LET_BE.get(rules, ())]
    for q in c.paths_of(p, V + fn, cfg or Config(opaque=[r"get_singular_or_default$"], budget=100000)):
        fs = known(q)
        if q.kind != "ret":
            c.ob("values", any(v is False and re.fullmatch(r"TryInto::try_into\(.*\)(#\d+)? is Ok", k) for k, v in fs.items()), q, f"{fn} panics: {fs}")
            continue
        r = names(q.x.ret)
        absent = there and any(has(fs, t) is False for t in there)
        if there and not absent and not all(has(fs, t) is True for t in there):
            c.ob("values", False, q, f"whether there is a value is not asked: {fs}")
            continue
        unsup = {f: has(fs, rf"\$1\.{f}(\.0)? is Some|MessageField::is_some\(\$1\.{f}\)") for f in other}
        for f in other:
            if unsup[f] is None:
                e = has(fs, rf"0==len\(\$1\.{f}\)|\$1\.{f}==\[\]|0==len\(IntHelper::{f}\(\$1\)(#\d+)?\)")
                unsup[f] = None if e is None else not e
        if "well_known" in unsup and unsup["well_known"] is None:
            kinds = [v[0] for v in next(x for k, x in p.adts.items() if k.endswith("validate::string_rules::Well_known"))["variants"]]
            asked = [has(fs, rf"\$1\.well_known\?Some\.0 is {k}") for k in kinds]
            unsup["well_known"] = True if True in asked else False if all(v is False for v in asked) else None
        elif unsup.get("well_known") is True:
            kinds = [v[0] for v in next(x for k, x in p.adts.items() if k.endswith("validate::string_rules::Well_known"))["variants"]]
            asked = [has(fs, rf"\$1\.well_known\?Some\.0 is {k}") for k in kinds]
            unsup["well_known"] = not all(v is False for v in asked)
        broke = any(all(has(fs, pat) is v for pat, v in br) for br in violations)
        if absent:
            c.ob("values", r == "Ok(())" , q, f"without a value: {r[:80]}")
        elif r == "Ok(())":
            c.ob("unsupported", all(v is False for v in unsup.values()), q, f"{fn} accepts though of the rules is not asked or set: {[k for k, v in unsup.items() if v is not False]}")
            c.ob("values", not broke and all(any(has(fs, pat) is (not v) for pat, v in br) for br in violations), q, f"{fn} accepts {fs}")
        else:
            c.ob("values", r.startswith("Err(") and (broke or any(unsup.values())), q, f"{fn} refuses with {r[:80]} though {fs}")


def values(c):
    c.rule("values", "a value is refused if it breaks a rule that is set for it, and otherwise accepted; one that is not there breaks none")
    c.rule("unsupported", "a rule that is not supported is refused wherever it is set")
    p = c.program("bd_pgv")
    conv = lambda f: rf"(TryInto::try_into\(\$1\.{f}\?Some\.0\)(#\d+)?\?Ok\.0|\(\$1\.{f}\?Some\.0 as \w+\)|\$1\.{f}\?Some\.0)"
    back = lambda x: rf"(TryInto::try_into\({x}\)(#\d+)?\?Ok\.0|\({x} as \w+\)|{x})"
    chars = back(r"((Iterator::)?count\(str::chars\(VAL\?Some\.0\?String\.0\)(#\d+)?\)(#\d+)?|len\(str::chars\(VAL\?Some\.0\?String\.0\)(#\d+)?\)|Chars::count\(.*\)(#\d+)?)")
    leaf(c, "validate_enum", "EnumRules", {"defined_only"}, [r"VAL is Some", r"VAL\?Some\.0 is Enum"],
         [[(r"\$1\.defined_only is Some", True), (r"\$1\.defined_only\?Some\.0", True), (r"EnumDescriptor::value_by_number\(VAL\?Some\.0\?Enum\.0,VAL\?Some\.0\?Enum\.1\)(#\d+)? is Some", False)]])
    leaf(c, "validate_bool", "BoolRules", {"const_"}, [r"VAL is Some", r"VAL\?Some\.0 is Bool"],
         [[(r"\$1\.const_ is Some", True), (r"\$1\.const_\?Some\.0==VAL\?Some\.0\?Bool\.0", False)]])
    leaf(c, "validate_string", "StringRules", {"min_len", "max_len"}, [r"VAL is Some", r"VAL\?Some\.0 is String"],
         [[(r"\$1\.min_len is Some", True), (rf"{chars}<{conv('min_len')}", True)], [(r"\$1\.max_len is Some", True), (rf"{conv('max_len')}<{chars}", True)]])
    leaf(c, "validate_repeated", "RepeatedRules", {"min_items"}, [],
         [[(r"\$1\.min_items is Some", True), (rf"ReflectRepeatedRef::len\(FieldDescriptor::get_repeated\(\$2,\$4\)(#\d+)?\)(#\d+)?<{conv('min_items')}", True)]])
    d = r"TryInto::try_into\(\$4\)(#\d+)?"
    g = r"TryInto::try_into\(\$1\.gt(\.0\?Some\.0|\?Some\.0)\)(#\d+)?|TryInto::try_into\(MessageField::as_ref\(\$1\.gt\)\?Some\.0\)(#\d+)?"
    isgt = r"\$1\.gt(\.0)? is Some|MessageField::as_ref\(\$1\.gt\) is Some|MessageField::is_some\(\$1\.gt\)"
    leaf(c, "validate_duration", "DurationRules", {"gt"}, [],
         [[(rf"{d} is Ok", False)], [(isgt, True), (rf"({g}) is Ok", False)], [(isgt, True), (rf"({g})\?Ok\.0<{d}\?Ok\.0", False)]])


def numbers(c):
    p = c.program("bd_pgv")
    asked = {"gt": "gt", "gte": "gte", "lt": "lt", "lte": "lte", "const_": "has_const", "in_": "in_", "not_in": "not_in", "ignore_empty": "has_ignore_empty"}
    for q in c.paths_of(p, V + "IntHelper::validate_all_int_rules", Config(opaque=[], pure=[r"IntHelper::"], budget=100000)):
        fs = known(q)
        if not c.ob("values", q.kind == "ret", q, f"a number panics: {fs}"):
            continue
        r = n(q.x.ret)
        gt, less = has(fs, r"IntHelper::gt\(self\)(#\d+)? is Some"), has(fs, r"IntHelper::gt\(self\)(#\d+)?\?Some\.0<\$2")
        if less is None and has(fs, r"\$2<=IntHelper::gt\(self\)(#\d+)?\?Some\.0|ge\(IntHelper::gt\(self\)(#\d+)?\?Some\.0,\$2\)") is not None:
            less = not has(fs, r"\$2<=IntHelper::gt\(self\)(#\d+)?\?Some\.0|ge\(.*\)")
        if less is None:
            m = has(fs, r"PartialOrd::le\(\$2,IntHelper::gt\(self\)(#\d+)?\?Some\.0\)(#\d+)?|PartialOrd::ge\(IntHelper::gt\(self\)(#\d+)?\?Some\.0,\$2\)(#\d+)?")
            w = has(fs, r"PartialOrd::gt\(\$2,IntHelper::gt\(self\)(#\d+)?\?Some\.0\)(#\d+)?|PartialOrd::lt\(IntHelper::gt\(self\)(#\d+)?\?Some\.0,\$2\)(#\d+)?")
            less = w if m is None else not m
        unsup = {}
        for f, a in asked.items():
            if f != "gt":
                v = has(fs, rf"IntHelper::{a}\(self\)(#\d+)?( is Some)?")
                if v is None:
                    e = has(fs, rf"0==len\(IntHelper::{a}\(self\)(#\d+)?\)")
                    v = None if e is None else not e
                unsup[f] = v
        broke = gt is True and less is False
        if r == "Ok(())":
            c.ob("unsupported", all(v is False for v in unsup.values()), q, f"numbers are accepted though of the rules is not asked or set: {[k for k, v in unsup.items() if v is not False]}")
            c.ob("values", gt is False or gt is True and less is True, q, f"a number is accepted: {fs}")
        else:
            c.ob("values", r.startswith("Err(") and (broke or any(unsup.values())), q, f"a number is refused with {r[:80]} though {fs}")
    for ty in ("UInt32Rules", "UInt64Rules", "Int32Rules", "Int64Rules"):
        for f, a in asked.items():
            fn = [x for x in p.by_id.values() if re.fullmatch(rf"bd_pgv::<generated::protos::validate::{ty} as proto_validate::IntHelper>::{a}", x.id)]
            if len(fn) != 1:
                raise Anchor(f"{len(fn)} {ty}::{a}")
            want = {f"$1.{f}", f"self.{f}", f"&self.{f}"} if a == f else {f"$1.{f} is Some", f"self.{f} is Some"}
            for q in c.paths_of(p, fn[0], Config(opaque=[])):
                if q.kind == "ret" and n(q.x.ret) in ("true", "false"):
                    c.ob("values", ask(q, rf"(\$1|self)\.{f} is Some") is (n(q.x.ret) == "true"), q, f"{ty}::{a} is {n(q.x.ret)}")
                else:
                    c.ob("values", q.kind == "ret" and n(q.x.ret) in want, q, f"{ty}::{a} is {n(q.x.ret)}")


def fields(c):
    c.rule("rules", "the rules of a field are those of its annotation, applied to the field's kind of value; a message that must be there is missed; a duration with rules is checked as one")
    p = c.program("bd_pgv")
    KINDS = {"String": ("String", "validate_string"), "Bool": ("Bool", "validate_bool"), "Enum": ("Enum", "validate_enum"), "I32": ("Int32", None), "I64": ("Int64", None), "U32": ("Uint32", None), "U64": ("Uint64", None)}
    NEVER = {"Any", "Timestamp", "Fixed32", "Fixed64", "Sfixed32", "Sfixed64"}
    BAD = {"F32": "Float", "F64": "Double", "VecU8": "Bytes"}
    seen = set()

    def variant(fs, x):
        """(variants x may have here, variants it has not)"""
        yes = {m.group(1) for k, v in fs.items() if v is True for m in [re.fullmatch(x + r" is (\w+)", k)] if m}
        no = {m.group(1) for k, v in fs.items() if v is False for m in [re.fullmatch(x + r" is (\w+)", k)] if m}
        return (yes.pop() if yes else None), no

    for q in c.paths_of(p, V + "validate_field", Config(opaque=[r"proto_validate::(validate_\w+|validate|get_singular_or_default)$", r"validate_all_int_rules$"], pure=[r"FieldDescriptor::get_singular$"], budget=200000)):
        fs = known(q)
        calls = [e for e in q.trace if e.kind == "call" and re.match(r"proto_validate::validate_|IntHelper::validate", repr(e))]
        if q.kind != "ret":
            c.ob("rules", has(fs, r"MessageDyn \+ 'static\)::downcast_ref\(.*\)(#\d+)? is Some") is False, q, f"a field panics: {fs}")
            continue
        r = names(q.x.ret)
        if has(fs, r"MessageField::as_ref\(FieldDescriptor::proto\(\$1\)#1\.options\) is Some") is False or any(v is False and re.fullmatch(r"ExtFieldOptional::get\(.*\)(#\d+)? is Some", k) for k, v in fs.items()):
            c.ob("rules", r == "Ok(true)" and not calls, q, f"without rules: {r[:80]}")
            continue
        none = has(fs, r"RL\.type_ is Some") is False
        t, nt = variant(fs, r"RL\.type_\?Some\.0")
        if t in NEVER:
            c.ob("unsupported", r.startswith("Err("), q, f"{t} rules are let through")
            seen.add(t)
            continue
        kind = has(fs, r"KIND is Singular")
        c.ob("unsupported", none or t or NEVER <= nt, q, f"not asked for: {NEVER - nt}")

        def is_type(w):
            return False if none else t == w if t else False if w in nt else None

        if kind is not True:
            rep = False if has(fs, r"KIND is Map") is True else has(fs, r"KIND is Repeated")
            w, fn = ("Repeated", "validate_repeated") if rep else ("Map", None)
            if rep is None:
                c.ob("rules", False, q, f"the kind of field is not asked: {fs}")
                continue
        else:
            k, _ = variant(fs, r"KIND\?Singular\.0")
            nk = variant(fs, r"KIND\?Singular\.0")[1]
            ALL = {"I32", "I64", "U32", "U64", "F32", "F64", "Bool", "String", "VecU8", "Enum", "Message"}
            k = k or (list(ALL - nk)[0] if len(ALL - nk) == 1 else None)
            if not c.ob("rules", k is not None, q, f"the kind of value is not asked: {fs}"):
                continue
            if k == "Message":
                must = [has(fs, r"RL\.message(\.0)? is Some|MessageField::as_ref\(RL\.message\) is Some"), has(fs, r"RL\.message(\.0)?\?Some\.0\.required is Some"), has(fs, r"RL\.message(\.0)?\?Some\.0\.required\?Some\.0")]
                there = has(fs, r"SET is Some")
                need = all(must)
                c.ob("rules", need or False in must or there is True, q, f"whether it must be there is not asked: {fs}")
                if need and there is False:
                    c.ob("rules", r.startswith("Err(") and not calls, q, f"a message that must be there is missing, but {r[:60]}")
                    seen.add("required")
                    continue
                c.ob("rules", not need or there is True, q, "whether it is there is not asked")
                dur = is_type("Duration")
                is_d = dur and there is not False and has(fs, r"SET\?Some\.0 is Message") is not False and has(fs, r"'google\.protobuf\.Duration'==MessageDescriptor::full_name\(MessageDyn::descriptor_dyn\(SET\?Some\.0\?Message\.0\)(#\d+)?\)(#\d+)?")
                c.ob("rules", dur is not None and is_d is not None, q, f"whether it is a duration is not asked: {fs}")
                if is_d:
                    seen.add("Duration")
                    ok = has(fs, r"proto_validate::validate_duration\(.*\)(#\d+)? is Ok")
                    a = [names(x) for x in calls[0].args] if calls else []
                    c.ob("rules", len(calls) == 1 and a[:3] == ["RL.type_?Some.0?Duration.0", "$1", "$2"] and re.fullmatch(r"MessageDyn \+ 'static\)::downcast_ref\(SET\?Some\.0\?Message\.0\)(#\d+)?\?Some\.0", a[3]), q, f"a duration: {a}")
                    c.ob("rules", ok is True and r in ("Ok(false)", "Ok(true)") or ok is False and r.startswith("Err(proto_validate::validate_duration("), q, f"a duration comes to {r[:80]}")
                else:
                    c.ob("rules", r == "Ok(true)" and not calls, q, f"a message comes to {r[:80]}")
                continue
            w, fn = KINDS.get(k, (BAD.get(k), None))
        on = is_type(w)
        if not c.ob("rules", on is not None, q, f"whether there are {w} rules is not asked"):
            continue
        if w in ("Map", "Float", "Double", "Bytes"):
            c.ob("unsupported", r.startswith("Err(") if on else r == "Ok(true)", q, f"{w} rules come to {r[:60]}")
            seen.add(w) if on else None
            continue
        if not on:
            c.ob("rules", r == "Ok(true)" and not calls, q, f"without {w} rules: {r[:60]}")
            continue
        seen.add(w)
        if fn is None:
            got = has(fs, r"VAL is Some"), has(fs, rf"VAL\?Some\.0 is {k}")
            if False in got:
                c.ob("rules", r == "Ok(true)" and not calls, q, f"without a value: {r[:60]}")
                continue
            c.ob("rules", got == (True, True), q, f"the value is not asked for: {fs}")
            want = [f"RL.type_?Some.0?{w}.0", f"VAL?Some.0?{k}.0", "$1", "$2"]
        else:
            want = [f"RL.type_?Some.0?{w}.0", "$1", "$2", "$3"]
        a = [names(x) for x in calls[0].args] if len(calls) == 1 else None
        c.ob("rules", a == want and (fn is None or calls[0].name.endswith(fn)), q, f"{w} rules are applied as {a}")
        if a:
            ok = has(fs, re.escape(names(calls[0].res)) + " is Ok")
            c.ob("rules", ok is True and r == "Ok(true)" or ok is False and r == f"Err({names(calls[0].res)}?Err.0)", q, f"{w} rules come to {r[:80]}")
    want = NEVER | set(BAD.values()) | {"Map", "Repeated", "required", "Duration"} | {w for w, _ in KINDS.values()}
    c.ob("rules", seen == want, next(iter(c.paths_of(p, V + "not_implemented", Config(opaque=[])))), f"never met: {sorted(want - seen)}")
    for q in c.paths_of(p, V + "get_singular_or_default", Config(opaque=[])):
        opt = ask(q, r"FieldDescriptor::containing_oneof_including_synthetic\(\$1\)(#\d+)? is Some")
        c.ob("values", opt is not None and re.fullmatch(r"FieldDescriptor::get_singular\(\$1,\$2\)(#\d+)?" if opt else r"Some\(FieldDescriptor::get_singular_field_or_default\(\$1,\$2\)(#\d+)?\)", n(q.x.ret)), q, f"the value is {n(q.x.ret)[:100]}")


def walk(c):
    c.rule("walk", "a message is accepted only when each oneof that must be set is set, each field was checked, and each message in a field, alone, repeated or in a map, was accepted as well")
    p = c.program("bd_pgv")
    MD = r"MessageDyn::descriptor_dyn\(\$1\)(#\d+)?"
    ONE, FLD = rf"item\(MessageDescriptor::oneofs\({MD}\)(#\d+)?\)", rf"item\(MessageDescriptor::fields\({MD}\)(#\d+)?\)"
    REFL = rf"FieldDescriptor::get_reflect\({FLD},\$1\)(#\d+)?"
    OPT = rf"MessageField::as_ref\(OneofDescriptor::proto\({ONE}\)(#\d+)?\.options\)"
    REQ = rf"ExtFieldOptional::get\(ExtFieldOptional::new\(1071,TYPE_BOOL\)(#\d+)?,{OPT}\?Some\.0\)(#\d+)?"
    SETF = rf"FieldDescriptor::has_field\(item\(OneofDescriptor::fields\({ONE}\)(#\d+)?\),\$1\)(#\d+)?"
    FIELD = rf"proto_validate::validate_field\({FLD},{MD},\$1\)(#\d+)?"

    def subs(q):
        return [e for e in (q.events(True) if q.kind == "iter" else q.trace) if e.kind == "call" and re.match(r"proto_validate::validate\(", repr(e))]

    seen = set()
    for q in c.paths_of(p, V + "validate", Config(opaque=[r"proto_validate::(validate|validate_field)$"], budget=60000)):
        if not c.ob("walk", q.kind == "ret", q, "validation panics"):
            continue
        r, fs = n(q.x.ret), facts(q)
        loops = [lp for lp in q.loops() if lp.src is not None]
        of = {w: [lp for lp in loops if re.fullmatch(rf"MessageDescriptor::{w}\({MD}\)(#\d+)?", n(lp.src))] for w in ("oneofs", "fields")}
        if r == "Ok(())":
            c.ob("walk", len(of["oneofs"]) == len(of["fields"]) == 1 and all(q.whole(x[0]) for x in of.values()), q, f"accepted after {[n(lp.src)[:60] for lp in loops]}")
        else:
            missing = ask(q, REQ) is None and has(fs, REQ + r"\?Some\.0") is True
            bad = ask(q, FIELD + " is Ok") is False
            sub = subs(q)
            badsub = any(has(fs, re.escape(n(e.res)) + " is Ok") is False and r == f"Err({n(e.res)}?Err.0)" for e in sub)
            c.ob("walk", r.startswith("Err(") and (missing or bad and re.match(rf"Err\({FIELD}\?Err\.0\)", r) or badsub), q, f"refused with {r[:100]} though {fs}")
            seen |= {k for k, v in (("oneof", missing), ("field", bad), ("sub", badsub)) if v}
        for lp in loops:
            inner = [lp] if lp in of["oneofs"] + of["fields"] else []
            for lp2 in inner:
                for tr, st in lp2.iters:
                    i = Iter(q, tr, st)
                    fs = facts(i)
                    if lp2 in of["oneofs"]:
                        o, has_r, req = has(fs, OPT + " is Some"), has(fs, REQ + " is Some"), has(fs, REQ + r"\?Some\.0")
                        anyset = has(fs, SETF)
                        c.ob("walk", False in (o, has_r, req) or anyset is True, i, f"a oneof is passed: {fs}")
                        continue
                    ok = has(fs, FIELD + " is Ok")
                    rec = has(fs, FIELD + r"\?Ok\.0")
                    if not c.ob("walk", ok is True and rec is not None, i, f"a field is passed unchecked: {fs}"):
                        continue
                    if rec is False:
                        continue
                    o, rp = has(fs, REFL + " is Optional"), has(fs, REFL + " is Repeated")
                    sub = subs(i)
                    if o is True:
                        v = rf"ReflectOptionalRef::value\({REFL}\?Optional\.0\)(#\d+)?"
                        there = has(fs, v + " is Some"), has(fs, v + r"\?Some\.0 is Message")
                        c.ob("walk", False in there and not sub or there == (True, True) and len(sub) == 1 and re.fullmatch(rf"(MessageRef::deref\(|Deref::deref\()?{v}\?Some\.0\?Message\.0(\)(#\d+)?)?", n(sub[0].args[0])) and has(fs, re.escape(n(sub[0].res)) + " is Ok") is True, i, f"a message field is passed: {fs} {[n(e)[:200] for e in sub]}")
                        seen.add("optional")
                        continue
                    ls = [x for x in i.loops() if x.src is not None]
                    src = REFL + (r"\?Repeated\.0" if rp else r"\?Map\.0")
                    ls = [x for x in ls if re.fullmatch(rf"(IntoIterator::into_iter\()?{src}(\)(#\d+)?)?", n(x.src))]
                    if not c.ob("walk", len(ls) == 1 and i.whole(ls[0]) and (rp is True or rp is o is False or has(fs, REFL + " is Map") is True), i, f"of a field is passed over: {[n(x.src) for x in i.loops() if x.src is not None]}"):
                        continue
                    seen.add("repeated" if rp else "map")
                    it = rf"item\({re.escape(n(ls[0].src))}\)" + ("" if rp else r"\.1")
                    for tr2, st2 in ls[0].iters:
                        j = Iter(i, tr2, st2)
                        fj = facts(j)
                        m = has(fj, it + " is Message")
                        s2 = [e for e in j.events(True) if e.kind == "call" and re.match(r"proto_validate::validate\(", repr(e))]
                        c.ob("walk", m is False and not s2 or m is True and len(s2) == 1 and re.fullmatch(rf"(MessageRef::deref\(|Deref::deref\()?{it}\?Message\.0(\)(#\d+)?)?", n(s2[0].args[0])) and has(fj, re.escape(n(s2[0].res)) + " is Ok") is True, j, f"of many is passed: {[n(e)[:200] for e in s2]} {fj}")
    c.ob("walk", seen == {"oneof", "field", "sub", "optional", "repeated", "map"}, next(iter(c.paths_of(p, V + "not_implemented", Config(opaque=[])))), f"met only {sorted(seen)}")


GROUPS = [values, numbers, fields, walk]
FLOORS = {"values": 40, "unsupported": 20, "rules": 80, "walk": 20}
