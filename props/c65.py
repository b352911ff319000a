"""What a message's hash is made of."""
from rules import *
from c61 import m, asked, fn

L = "bd_proto_util::"
HM, HV = r"proto::hash_message$", r"proto::hash_value$"
FIXED = {"U32": ("num", 0), "U64": ("num", 0), "I64": ("num", 0), "I32": ("num", 0), "F32": ("f32", 0), "F64": ("f64", 0), "Enum": ("num", 1)}
GET = r"FieldDescriptor::get_reflect\(.*?\)"


def runs(c, rule, name, *opaque):
    p = c.program("bd_proto_util")
    out = []
    for q in c.paths_of(p, fn(p, name), Config(opaque=list(opaque), budget=20000)):
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{name} ends with {q.kind} {q.why}"):
            out.append(q)
    return out


def steps(q, trace):
    """what is hashed, in order: (call, its value) or ("loop", what it goes over, the steps of each of its iterations)"""
    out = []
    for e in trace:
        if e.kind == "loop":
            lp = q.e.loops[e.extra]
            its = [steps(q, tr) for tr, st in lp.iters]
            if any(its):
                out.append(("loop", m(lp.src) if lp.src is not None else "?", its))
        elif e.kind == "call" and re.match(r"(ProtoHasher::hash|proto::hash_value|proto::hash_message)\(", repr(e)):
            out.append((e.name.split("::")[-1], m(e.args[0]), m(e.args[1])))
    return out


def message(c):
    c.rule("every-field", "each field of a message takes part in its hash, in the order the type declares them; nothing else does")
    c.rule("optional", "an optional field adds its number and then its value when it is set, and nothing when it is not")
    c.rule("repeated", "a list adds its length when it has elements, and then each of them in order")
    c.rule("map", "a map adds its keys, each with its value, in the order of the keys and not in that of the table")
    for q in runs(c, "every-field", L + "proto::hash_message", HV):
        tops = [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]
        src = [m(lp.src) if lp.src is not None else "?" for lp in tops]
        ok = len(tops) == 1 and re.fullmatch(r"MessageDescriptor::fields\(MessageDyn::descriptor_dyn\(\$2\)\)", src[0])
        own = [x for x in steps(q, q.trace) if x[0] != "loop"]
        if not c.ob("every-field", ok and own == [] and q.whole(tops[0]), q, f"goes over {src}, and hashes {own} besides"):
            continue
        kinds = set()
        for tr, st in tops[0].iters:
            i = Iter(q, tr, st)
            got = steps(q, tr)
            reads = [m(e) for e in i.events() if re.match(r"FieldDescriptor::get_reflect\(", repr(e))]
            it = f"item({src[0]})"
            c.ob("every-field", reads == [f"FieldDescriptor::get_reflect({it}, $2)"] or reads == [f"FieldDescriptor::get_reflect({it},$2)"], i, f"reads {reads}")
            R = rf"FieldDescriptor::get_reflect({it},$2)"
            k = [x for x in ("Optional", "Repeated", "Map") if asked(i, re.escape(R) + f" is {x}")]
            if not c.ob("every-field", len(k) == 1, i, f"a field of kind {k}"):
                continue
            k = k[0]
            v = f"{R}?{k}.0"
            if k == "Optional":
                val = f"ReflectOptionalRef::value({v})"
                there = asked(i, re.escape(val) + " is Some")
                want = [("hash", "$1", f"num::to_le_bytes(FieldDescriptor::number({it}))"), ("hash_value", "$1", f"{val}?Some.0")] if there else []
                kinds.add((k, there))
                c.ob("optional", there is not None and got == want, i, f"set: {there}, adds {got}")
            elif k == "Repeated":
                none = asked(i, re.escape(f"ReflectRepeatedRef::is_empty({v})"))
                if none is None:
                    n0 = asked(i, rf"0==ReflectRepeatedRef::len\({re.escape(v)}\)|ReflectRepeatedRef::len\({re.escape(v)}\)==0|ReflectRepeatedRef::len\({re.escape(v)}\)<=?[01]")
                    none = n0
                lp = ("loop", v, [[("hash_value", "$1", f"item({v})")]])
                want = ([] if none else [("hash", "$1", f"num::to_le_bytes(ReflectRepeatedRef::len({v}))")]) + [lp]
                kinds.add((k, none))
                c.ob("repeated", none is not None and (got == want or none and got == []), i, f"empty: {none}, adds {got}")
            else:
                kinds.add((k, None))
                ok = len(got) == 1 and got[0][0] == "loop"
                s = got[0][1] if ok else ""
                g = re.fullmatch(r"sorted_by_(?:cached_)?key\((.*),(closure<\w+>\(\))\)", s)
                if s == "after_sort_by_key":
                    g = [x for x in (re.fullmatch(r"\w+::sort_by_key\((.*), ?(closure<\w+>\(\))\)", m(e)) for e in i.events()) if x]
                    g = g[0] if len(g) == 1 else None
                ok = ok and bool(g) and g[1] == v and got[0][2] == [[("hash_value", "$1", f"item({s}).0"), ("hash_value", "$1", f"item({s}).1")]]
                c.ob("map", ok, i, f"adds {got}")
        c.ob("every-field", kinds == {("Optional", True), ("Optional", False), ("Repeated", True), ("Repeated", False), ("Map", None)}, q, f"kinds of fields: {kinds}")
    p = c.program("bd_proto_util")
    keys = [f for f in p.fns.values() if f.id.startswith(L + "proto::hash_message::{closure")]
    seen = 0
    for f in keys:
        for q in c.paths_of(p, f, Config(opaque=[HV])):
            if q.events() and not re.search("to_string|fmt", repr(q.events())):
                continue
            if re.search("hash_value", repr(q.events())):
                continue
            seen += 1
            c.ob("map", q.kind == "ret" and re.fullmatch(r"(ToString::to_string|ReflectValueRef::to_string|to_string|\w*::?to_string)\(\$\d(\.\d)*\.0\)|\$\d(\.\d)*\.0", m(q.ret)), q, f"sorted by {m(q.ret)}")
    c.ob("map", seen == 1, None, f"{seen} orders")


def value(c):
    c.rule("each-kind", "every kind of value adds all of itself: numbers their own little-endian bytes, text and bytes their content, a message its own hash")
    kinds = set()
    for q in runs(c, "each-kind", L + "proto::hash_value", HM):
        k = [x for x in list(FIXED) + ["Bool", "String", "Bytes", "Message"] if asked(q, rf"\$2 is {x}")]
        got = [x for x in steps(q, q.trace)]
        if not k:
            left = set(list(FIXED) + ["Bool", "String", "Bytes", "Message"]) - {x for x in list(FIXED) + ["Bool", "String", "Bytes", "Message"] if asked(q, rf"\$2 is {x}") is False}
            k = sorted(left)
        if not c.ob("each-kind", len(k) == 1, q, f"a value of kind {k}"):
            continue
        k = k[0]
        v = f"$2?{k}.0"
        if k in FIXED:
            t, i = FIXED[k]
            want = [[("hash", "$1", f"{t}::to_le_bytes($2?{k}.{i})")]]
        elif k == "Bool":
            yes = asked(q, re.escape(v))
            kinds.add((k, yes))
            want = [[("hash", "$1", f"[{int(bool(yes))}]")]] if yes is not None else [[("hash", "$1", f"[{v}]")]]
            kinds |= {(k, True), (k, False)} if yes is None else set()
        elif k == "Message":
            want = [[("hash_message", "$1", v)]]
        else:
            want = [[("hash", "$1", x)] for x in (v, f"str::bytes({v})", f"str::as_bytes({v})")]
        kinds.add(k)
        c.ob("each-kind", got in want, q, f"{k} adds {got}")
    c.ob("each-kind", kinds >= set(FIXED) | {"String", "Bytes", "Message", ("Bool", True), ("Bool", False)}, None, f"kinds handled: {len(kinds)}")


def wrapper(c):
    c.rule("as-the-message", "a wrapped message is equal to another exactly if the messages are, and its hash is that of the message and of nothing else")
    c.rule("all-of-it", "the hashers take in all the bytes they are given")
    W = L + "proto::ProtoHashWrapper::<MessageType>::"
    T = "<proto::ProtoHashWrapper<MessageType> as std::"
    for q in runs(c, "as-the-message", L + T + "cmp::PartialEq>::eq"):
        same = asked(q, r"\$2\.message==self\.message|self\.message==\$2\.message")
        got = m(q.ret)
        c.ob("as-the-message", got == str(same).lower() and same is not None or re.fullmatch(r"\(?(\$2\.message==self\.message|self\.message==\$2\.message)\)?", got), q, f"messages equal: {same}, says {got}")
    for q in runs(c, "as-the-message", L + T + "hash::Hash>::hash", HM):
        c.ob("as-the-message", steps(q, q.trace) == [("hash_message", "$2", "self.message")] and len(q.events()) == 1, q, f"adds {q.events()}")
    for q in runs(c, "as-the-message", L + T + "ops::Deref>::deref"):
        c.ob("as-the-message", m(q.ret) == "self.message" and q.events() == [], q, f"is {m(q.ret)}")
    for q in runs(c, "as-the-message", W + "new"):
        c.ob("as-the-message", m(q.ret) == "ProtoHashWrapper{message:$1}", q, f"makes {m(q.ret)}")
    for q in runs(c, "as-the-message", W + "message_hash", HM):
        es = [e for e in q.events() if e.kind == "call"]
        names = [e.name for e in es]
        hs = q.ev(r"^proto::hash_message\(")
        fin, enc = q.ev(r"^Digest::finalize\("), q.ev(r"^Encoding::encode_string\(")
        ok = len(hs) == len(fin) == len(enc) == 1 and len(es) == 4 and m(hs[0].args[1]) == "self.message" and re.fullmatch(r"Sha256Hasher\(Digest::new\(\)\)", m(hs[0].args[0]))
        ok = ok and m(fin[0].args[0]) == "after_hash_message.0" and m(enc[0].args[0]) == m(fin[0].res) and m(q.ret) == m(enc[0].res)
        c.ob("as-the-message", ok, q, f"does {[m(e)[:120] for e in es]}")
    for q in runs(c, "all-of-it", L + "<proto::Sha256Hasher as proto::ProtoHasher>::hash"):
        es = [m(e).replace(", ", ",") for e in q.events()]
        c.ob("all-of-it", es in (["Digest::update(self.0,$2)"], ["Update::update(self.0,$2)"]), q, f"does {es}")
    for q in runs(c, "all-of-it", L + "<H as proto::ProtoHasher>::hash"):
        es = [m(e).replace(", ", ",") for e in q.events()]
        c.ob("all-of-it", es == ["Hasher::write(self,$2)"], q, f"does {es}")


GROUPS = [message, value, wrapper]
FLOORS = {"every-field": 8, "optional": 2, "repeated": 2, "map": 2, "each-kind": 25, "as-the-message": 6, "all-of-it": 2}
