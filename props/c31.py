"""Cached runtime values survive a restart, but never cause a crash loop; every reader sees the current value or its default."""
from rules import *

CR = ("bd_runtime", "bd_client_common")
L = "bd_runtime::runtime::ConfigLoader"
SN = "bd_runtime::runtime::Snapshot"
PB = Config(opaque=[r"::(read|write)_compressed_protobuf$", r"::handle_unexpected$"])


def applied(q):
    """The configuration some path puts in place, if any: the contents written to the locked state."""
    w = [v for k, v in q.heap(r"(lock\(self\.state\)|.*lock:?lock.*).*").items() if "snapshot:=" in v]
    return w[0] if w else None


def startup(c):
    p = c.program(*CR)
    c.rule("counted-first", "the cached configuration is applied only after its attempt was counted on disk, from both files, and while the count is within the limit")
    c.rule("wiped", "whatever else happens, the cache directory is wiped")
    c.rule("reported", "a failure is reported, an expected condition is not")
    c.rule("kept", "a cache that was applied stays")
    limits = set()
    for q in c.paths_of(p, f"{L}::handle_cached_config", PB):
        if q.kind == "panic":
            c.ob("counted-first", q.has("^lock:"), q, "loading the cached configuration may panic before it is applied")
            continue
        new = applied(q)
        wipe = q.idx(r"^fs::remove_dir_all\(self\.runtime_directory\)")
        make = q.idx(r"^fs::create_dir(_all)?\(self\.runtime_directory\)")
        reads = q.ev(r"^fs::read(_to_string)?\(self\.retry_count_file\)")
        writes = q.ev(r"^fs::write\(self\.retry_count_file, ")
        if new is None:
            c.ob("wiped", len(wipe) == 1 and len(make) == 1 and wipe < make, q, "nothing is applied, and the cache is not wiped")
        else:
            c.ob("kept", not wipe and not make, q, "an applied cache is wiped")
            both = all(q.truth(rf"Path::exists\(self\.{f}\)#\d+") for f in ("retry_count_file", "protobuf_file"))
            ok = both and len(reads) == 1 and len(writes) == 1 and q.decide(mk("is", writes[0].res, "Ok")) is True and q.before(r"^fs::write\(self\.retry_count_file", r"^lock:")
            c.ob("counted-first", ok, q, "the configuration is applied without its attempt being counted first")
            if ok:
                x = re.fullmatch(r"(?:to_string\(|cat\()?Add\((.*),1\)\)?", show(writes[0].args[1]))
                c.ob("counted-first", x is not None and show(reads[0].res) in x.group(1) and "parse" in x.group(1), q, "the count written is not the count read plus one")
                lim = [(k, v) for k, v in q.state.facts.items() if x and re.fullmatch(re.escape(x.group(1)) + r"(<|<=)\d+", show(k))]
                c.ob("counted-first", len(lim) == 1 and lim[0][1], q, "the configuration is applied however often it was tried before")
                limits |= {show(k).rsplit("<", 1)[1] for k, v in lim}
            src = q.ev(r"^fs::read\(self\.protobuf_file\)")
            from_file = len(src) == 1 and re.search(r"snapshot:=.*(read_compressed_protobuf|parse_from_bytes)\(" + re.escape(show(src[0].res)), new) is not None
            c.ob("counted-first", from_file and len(re.findall("version_nonce", new)) == 1 and "unwrap_or_default" in new, q, "what is applied is not what the file holds")
        bad = [e for e in q.events() if e.res is not None and re.match(r"^(fs::read|fs::write|Message::parse_from_bytes)\(", repr(e)) and q.decide(mk("is", e.res, "Ok")) is False]
        c.ob("reported", len(q.ev(r"^error::handle_unexpected\(Err\(")) == (1 if bad else 0) or new is not None, q, "a failure is not reported, or reported without one")
    c.ob("counted-first", limits == {"6"}, c.fn(p, f"{L}::handle_cached_config"), f"the number of attempts allowed is not six: {limits}")


def safe(c):
    p = c.program(*CR)
    c.rule("marked-once", "being marked safe resets the count on disk, the first time and only then")
    for q in c.paths_of(p, f"{L}::mark_safe", PB):
        sw = q.ev(r"^Atomic::(swap|compare_exchange|fetch_or)\(self\.cached_config_validated, ")
        w = q.ev(r"^fs::write\(")
        if not c.ob("marked-once", q.kind == "ret" and len(sw) == 1, q, "whether this is the first time is not decided in one step"):
            continue
        first = q.decide(sw[0].res) is False or q.decide(mk("is", sw[0].res, "Ok")) is True
        c.ob("marked-once", (len(w) == 1 and show(w[0].args[0]) == "self.retry_count_file" and show(w[0].args[1]) == "'0'") if first else not w, q, "the count is not reset the first time, or is again later")


def update(c):
    p = c.program(*CR)
    c.rule("one-section", "an update sets every watched value and the values all readers see in one critical section")
    c.rule("persisted", "then it is written to disk, and its count of attempts starts at 0")
    c.rule("every-watch", "each watched value, of whatever type, becomes the new value for its name or its default")
    c.rule("only-changes", "a watch is told of a change exactly when its value changed")
    kinds = set()
    for q in c.paths_of(p, f"{L}::update_snapshot", PB):
        if q.kind == "panic":
            continue
        new = applied(q)
        c.ob("one-section", new is not None and "nonce:$2.version_nonce" in new and "runtime:MessageField::unwrap_or_default($2.runtime)" in new, q, "the values received are not put in place")
        lk, ul = q.idx(r"^lock:"), q.idx(r"^unlock:")
        ev = q.idx(r"^(LOOP )?Sender::send(_if_modified|_replace|_modify)?\(")
        c.ob("one-section", len(lk) == 1 and len(ul) <= 1 and all(lk[0] < i and (not ul or i < ul[0]) for i in ev) and q.whole(), q, "the watches are set outside of the critical section, or not all of them")
        pb, rc = q.idx(r"^fs::write\(self\.protobuf_file, file::write_compressed_protobuf\(\$2\)"), q.idx(r"^fs::write\(self\.retry_count_file, '0'\)")
        c.ob("persisted", len(pb) == 1 and len(rc) == 1 and len(q.ev(r"^fs::")) == 2, q, "the update is not written to disk, or its count not reset")
        for i in [Iter(q, tr, st) for lp in q.loops() if lp.src is not None and show(lp.src).endswith(".watches") for tr, st in lp.iters]:
            kind = [re.search(r"\.1 is (\w+)$", show(k)).group(1) for k, v in i.state.facts.items() if v and re.search(r"\.watches\)\.1 is \w+$", show(k))]
            s = i.ev(r"^Sender::send_if_modified\(")
            it = "item(" + show(s[0].args[0]).split("item(", 1)[1].split(").1", 1)[0] + ")" if s and "item(" in show(s[0].args[0]) else ""
            if not c.ob("every-watch", len(kind) == 1 and len(s) == 1 and show(s[0].args[0]) == f"{it}.1?{kind[0]}.0.watch" and i.kind not in ("break", "ret"), i, "a watch is not given the new value"):
                continue
            kinds.add(kind[0])
            rv = i.ev(r"^ReadValue::read_value\(")
            c.ob("every-watch", len(rv) == 1 and [show(x) for x in rv[0].args[1:]] == [f"{it}.0", f"{it}.1?{kind[0]}.0.default"] and f"={show(rv[0].res)})" in show(s[0].args[1])
                 and show(rv[0].args[0]) in (new or ""), i, "a watch gets neither the new value nor its default")
    c.ob("every-watch", kinds == {"Int", "Bool", "Duration"}, c.fn(p, f"{L}::update_snapshot"), f"kinds of watches updated: {sorted(kinds)}")


def told(c):
    p = c.program(*CR)
    for f in list(p.by_id.values()):
        if f.kind == "std" or not f.id.startswith("bd_runtime::runtime::") or "{closure" not in f.id:
            continue
        qs = c.paths_of(p, f)
        if not any("$2" in q.heap(r"\$2") for q in qs):
            continue
        for q in qs:
            eq = [v for k, v in q.state.facts.items() if re.fullmatch(r"\$2==(.+)|(.+)==\$2", show(k))]
            val = [re.sub(r"^\$2==|==\$2$", "", show(k)) for k in q.state.facts if "==" in show(k)]
            w = q.heap(r"\$2").get("$2")
            c.ob("only-changes", q.kind == "ret" and len(eq) == 1 and (q.ret == "false" and w in (None, "$2") if eq[0] else q.ret == "true" and w == val[0]), q, "a change is not told, or one that is none is")


def register(c):
    p = c.program(*CR)
    c.rule("same-watch", "a name that is watched already gives the same watch, if of that type, and an error if not")
    c.rule("starts-current", "a new watch starts with the current value or its default, and is entered in the same critical section")
    for q in c.paths_of(p, f"{L}::register_watch", PB):
        if q.kind == "panic":
            continue
        tw, ch, ins = q.ev(r"^TypedWatch::typed_watch\("), q.ev(r"^watch::channel\("), q.ev(r"^HashMap::insert\(")
        if tw:
            ok = q.decide(mk("is", tw[0].res, "Ok"))
            c.ob("same-watch", not ch and not ins and re.search(r"HashMap::get\(.*\.watches,.*\)\?Some\.0$", show(tw[0].args[0])) is not None and (known_variant(q.rett) == "Ok") == ok
                 and (not ok or show(tw[0].res) + "?Ok.0" in q.ret), q, "an existing watch is replaced or not returned")
        else:
            rv = q.ev(r"^ReadValue::read_value\(")
            c.ob("starts-current", len(rv) == len(ch) == len(ins) == 1 and show(ch[0].args[0]) == show(rv[0].res) and show(rv[0].args[0]).endswith(".snapshot")
                 and show(ins[0].args[2]).endswith(show(ch[0].res) + ".0)") and show(ch[0].res) + ".1" in q.ret and show(ins[0].args[0]).endswith(".watches"), q, "a new watch is not the one entered, or starts with another value")
            d = q.ev(r"^FeatureFlag::default\(")
            c.ob("starts-current", bool(rv) and bool(ins) and show(rv[0].args[2]) in [show(e.res) for e in d] and any(show(e.res) in show(ins[0].args[2]) for e in d)
                 and all("FeatureFlag::path" in show(a) for a in (rv[0].args[1], ins[0].args[1])), q, "a watch is entered under another name or with another default")
            lk, ul = q.idx("^lock:"), q.idx("^unlock:")
            i = q.idx(r"^(ReadValue::read_value|HashMap::insert)\(")
            c.ob("starts-current", len(lk) == 1 and len(ul) == 1 and all(lk[0] < x < ul[0] for x in i), q, "an update can come between reading the value and entering the watch")


def getters(c):
    p = c.program(*CR)
    c.rule("or-default", "a read gives the value under that name, converted, and the default exactly if there is none")
    c.rule("typed", "reading a typed flag is the read of that type")
    table = {"get_bool": "Value::bool_value", "get_integer": "Value::uint_value", "get_duration": "Value::uint_value", "get_string": "Value::string_value"}
    want = lambda fn: f"Duration::milliseconds({table[fn]}(HashMap::get(self.runtime.values,$2)?Some.0))" if fn == "get_duration" else f"{table[fn]}(HashMap::get(self.runtime.values,$2)?Some.0)"
    todo = [("or-default", f"{SN}::{fn}", fn) for fn in table]
    todo += [("typed", f"bd_runtime::<runtime::Snapshot as runtime::ReadValue<{t}>>::read_value", fn) for t, fn in (("u32", "get_integer"), ("bool", "get_bool"), ("time::Duration", "get_duration"))]
    for rule, path, fn in todo:
        for q in c.paths_of(p, path, PB):
            has = q.truth(r"HashMap::get\(self\.runtime\.values,\$2\) is Some")
            ok = q.ret == "$3" if has is False else has is True and re.sub(r"#\d+", "", q.ret) == want(fn)
            c.ob(rule, q.kind == "ret" and ok, q, "another value is given")


def flags(c):
    p = c.program(*CR)
    c.rule("own-name", "no two flags read the same name, each being watched under it with its own type and default")
    seen = {}
    for i in p.impls:
        if not i["trait"].endswith("runtime::FeatureFlag"):
            continue
        path = dict(i["items"]).get("path")
        names = {q.ret for q in c.paths_of(p, path, PB)}
        n = next(iter(names))
        c.ob("own-name", len(names) == 1 and n.startswith("'") and n not in seen, c.fn(p, path), f"the name {n} is also that of {seen.get(n)}")
        seen[n] = i["self"]


GROUPS = [startup, safe, update, told, register, getters, flags]
FLOORS = {"counted-first": 8, "wiped": 6, "kept": 1, "reported": 6, "marked-once": 2, "one-section": 2, "persisted": 1, "every-watch": 6, "only-changes": 2,
          "same-watch": 2, "starts-current": 3, "or-default": 8, "typed": 6, "own-name": 25}
