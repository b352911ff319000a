"""Named metrics: one metric per full name and label set, under the scope's name and labels."""
from rules import *

S = "bd_server_stats::stats"
SC, CO = f"{S}::Scope", f"{S}::Collector"
SELF = mk("sym", "self")


def setup(c):
    return c.program("bd_server_stats", "bd_stats_common")


def full(q, scope, name):
    """The name under a scope on this path (None: not decided)."""
    r = q.decide(eq(integer(0), mk("call", "len", (scope,), 0)))
    return None if r is None else (name if r else f"cat({show(scope)},':',{name})")


def metrics(c):
    p = setup(c)
    c.rule("full-name", "a metric's full name is its scope's name, a colon and its own name; its own name alone in an unnamed scope")
    c.rule("same-metric", "asking for a name and labels already known returns that metric and registers nothing")
    c.rule("registered", "a new metric is registered once, under exactly the name and labels it is looked up by, and remembered")
    c.rule("labels", "a metric carries its scope's labels, extended and overridden by its own")
    inner = f"self.{field(p, SC, r'Collector$')}.inner"
    maps = {}
    for name, kind, own in (("counter", "counter", False), ("counter_with_labels", "counter", True), ("gauge", "gauge", False),
                            ("histogram", "histogram", False), ("histogram_with_buckets", "histogram", False)):
        for q in c.paths_of(p, f"{SC}::{name}"):
            ent = q.ev(rf"^DashMap::entry\({inner}\.")
            got = q.ev(rf"^DashMap::get\({inner}\.")
            if got and not ent:
                # Looked up without reserving a place: known, or the path goes on to the entry.
                c.ob("same-metric", q.decide(mk("is", got[0].res, "Some")) is True and has_sub(q.rett, got[0].res) and not q.ev(r"^Registry::register\("), q,
                     "a known metric is made again or not returned")
                maps.setdefault(kind, set()).add(show(got[0].args[0]))
                continue
            if not c.ob("same-metric", len(ent) == 1, q, "not looked up once"):
                continue
            key = ent[0].args[1]
            m = show(ent[0].args[0])
            maps.setdefault(kind, set()).add(m)
            n, lab = show(fld(key, "name")), fld(key, "labels")
            c.ob("full-name", n == full(q, fld(SELF, "scope"), "$2"), q, f"looked up as {n}")
            c.ob("labels", scope_labels(lab, own), q, f"looked up with labels {show(lab)}")
            reg = q.ev(r"^Registry::register\(")
            ins = q.ev(r"^VacantEntry::insert\(")
            opts = q.ev(r"^(Histogram)?Opts::new\(")
            known = q.decide(mk("is", ent[0].res, "Occupied"))
            if known is True:
                c.ob("same-metric", q.kind == "ret" and not reg and not ins and not opts and re.sub(r"#\d+$", "", q.ret) in (f"entry_value({show(ent[0].res)})",
                     f"OccupiedEntry::get({show(ent[0].res)}?Occupied.0)", f"OccupiedEntry::into_ref({show(ent[0].res)}?Occupied.0)"), q,
                     "a known metric is made again or not returned")
                continue
            if q.kind != "ret":
                # The metrics library refuses the name: nothing to return.
                c.ob("registered", not ins, q, "panics after remembering the metric")
                continue
            if not c.ob("registered", known is False and len(reg) == 1 and len(ins) == 1 and len(opts) == 1, q, "a new metric is not registered and remembered once"):
                continue
            cl = q.ev(r"^(Histogram)?Opts::const_labels\(")
            c.ob("registered", show(opts[0].args[0]) == n and bool(cl) and plain_copy(strip_collect(lab)) == plain_copy(show(cl[-1].args[1])) and has_sub(reg[0].args[1], cl[-1].res)
                 and show(reg[0].args[0]) == f"{inner}.registry", q, "registered under another name or other labels than it is looked up by")
            c.ob("registered", show(q.rett) == show(ins[0].args[1]) == show(reg[0].args[1]), q, "what is returned or remembered is not what was registered")
            if name.endswith("buckets"):
                b = q.ev(r"^HistogramOpts::buckets\(")
                c.ob("registered", len(b) == 1 and show(b[0].args[1]) == "$3" and has_sub(reg[0].args[1], b[0].res), q, "not with the given buckets")
    c.ob("same-metric", len(maps) == 3 and all(len(v) == 1 for v in maps.values()) and len({x for v in maps.values() for x in v}) == 3, SC,
         f"kinds share or split their metrics: {maps}")


def strip_collect(t):
    m = re.fullmatch(r"collect:\w+\((.*)\)", show(t))
    return m.group(1) if m else show(t)


def plain_copy(s):
    """A map gone through pair by pair, each pair kept, is the map."""
    return re.sub(r"\[each ([\w.]+): \{ => one\(\(item\(\1\)\.0,item\(\1\)\.1\)\)\}\]", r"\1", s)


def scope_labels(t, own):
    s = plain_copy(strip_collect(t))
    s = re.sub(r"^collect:\w+\((.*)\)$", r"\1", s)
    ext = re.fullmatch(r"upd_by\(Extend::extend\(self\.labels,(.*)\)#1,0\)", s) or re.fullmatch(r"\[self\.labels \+\+ (.*)\]", s)
    if own:
        return bool(ext) and ext.group(1) == "$3"
    return s == "self.labels" or bool(ext) and ext.group(1) == "HashMap::new()"


def scopes(c):
    p = setup(c)
    c.rule("sub-scope", "a sub-scope has the joined name (its parent's when the extension is empty), the parent's collector, and the parent's labels overridden by the given ones")
    for name, own in (("scope", False), ("scope_with_labels", True)):
        for q in c.paths_of(p, f"{SC}::{name}"):
            if not c.ob("sub-scope", q.kind == "ret", q, "panics"):
                continue
            empty = q.decide(eq(integer(0), mk("call", "len", (mk("sym", "$2"),), 0)))
            want = "self.scope" if empty is True else full(q, fld(SELF, "scope"), "$2")
            c.ob("sub-scope", empty is not None and show(fld(q.rett, "scope")) == want, q, f"named {show(fld(q.rett, 'scope'))}")
            c.ob("sub-scope", show(fld(q.rett, "collector")) == "self.collector" and scope_labels(fld(q.rett, "labels"), own), q, "other labels or collector")
    for q in c.paths_of(p, f"{CO}::scope"):
        c.ob("sub-scope", show(fld(q.rett, "scope")) == "$2" and show(fld(q.rett, "collector")) == "self" and re.match(r"HashMap::new\(\)|default", show(fld(q.rett, "labels"))) is not None,
             q, "not an unlabelled scope of this collector")


def vecs(c):
    p = setup(c)
    c.rule("vecs", "a metric family is registered once, in the collector, under its full name and the given label names")
    for name in ("counter_vec", "gauge_vec", "histogram_vec"):
        for q in c.paths_of(p, f"{SC}::{name}"):
            if q.kind != "ret":
                continue
            o, rg = q.ev(r"^(Histogram)?Opts::new\("), q.ev(r"^Registry::register\(self\.collector\.inner\.registry, ")
            c.ob("vecs", len(o) == 1 and len(rg) == 1 and show(o[0].args[0]) == full(q, fld(SELF, "scope"), "$2") and q.rett is rg[0].args[1]
                 and has_sub(q.rett, o[0].res) and "$3" in q.ret, q, "not registered once under its full name")


def ids(c):
    p = c.program("bd_stats_common")
    c.rule("identity", "two identities are equal exactly when name and labels are")
    a = fields(p, "bd_stats_common::Id")
    eqs = [f for f in p.by_id.values() if re.match(r"^bd_stats_common::<.*Id as std::cmp::PartialEq>::eq$", f.id)]
    for f in eqs or [c.fn(p, "bd_stats_common::<Id as std::cmp::PartialEq>::eq")]:
        for q in c.paths_of(p, f):
            same = {n: q.decide(eq(fld(SELF, n), fld(mk("sym", "$2"), n))) for n in a}
            if q.ret == "true":
                c.ob("identity", all(v is True for v in same.values()), q, f"equal without comparing {[n for n, v in same.items() if not v]}")
            elif q.ret == "false":
                c.ob("identity", any(v is False for v in same.values()), q, "unequal although nothing differs")
            else:
                m = fold(c, p, q.rett, {})
                left = [n for n, v in same.items() if v is None]
                c.ob("identity", all(v is not False for v in same.values()) and len(left) == 1 and show(m) in (show(eq(fld(SELF, left[0]), fld(mk("sym", "$2"), left[0]))),), q,
                     f"the answer is {q.ret}")
    hs = [f for f in p.by_id.values() if re.match(r"^bd_stats_common::<.*Id as std::hash::Hash>::hash$", f.id)]
    for f in hs:
        for q in c.paths_of(p, f):
            c.ob("identity", not any(re.search(r"self\.(\w+)", repr(e)) and re.search(r"self\.(\w+)", repr(e)).group(1) not in a for e in q.events()), q, "hashes something else")
    for q in c.paths_of(p, "bd_stats_common::Id::new"):
        c.ob("identity", show(fld(q.rett, "name")) == "$1" and show(fld(q.rett, "labels")) == "$2", q, "not made of the given name and labels")


GROUPS = [metrics, scopes, vecs, ids]
FLOORS = {"full-name": 5, "same-metric": 5, "registered": 10, "labels": 5, "sub-scope": 4, "vecs": 3, "identity": 2}
