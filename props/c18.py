"""Label cardinality: a bounded number of label values, and one overflow value for everything beyond."""
from rules import *

S = "bd_server_stats::stats"
LT = f"{S}::LabelTracker"


def setup(c):
    p = c.program("bd_server_stats", "bd_stats_common")
    return p, field(p, LT, r"DashMap"), field(p, LT, r"^std::sync::atomic::Atomic|^std::sync::atomic::AtomicU64"), field(p, LT, r"^u64$"), field(p, LT, r"GenericCounter|IntCounter")


def room(q, count, mx):
    """Whether this path knows there is room: count < max (None: not tested)."""
    for e in q.ev(rf"^Atomic::load\(self\.{count}, "):
        r = q.decide(lt(e.res, fld(mk("sym", "self"), mx)))
        if r is not None:
            return r
    return None


def bound(c):
    p, labels, count, mx, over = setup(c)
    c.rule("bounded", "a label value not seen before is remembered only while fewer than the limit are, and is counted then")
    c.rule("known-free", "a label value already remembered is neither counted again nor refused")
    c.rule("overflow", "when one value cannot be remembered, every label becomes the overflow value and the overflow is counted")
    c.rule("passed", "when every value is remembered, the provider's own labels are used")
    c.rule("every-label", "each label's value is looked at under its name")
    f = f"{LT}::track_labels"
    for q in c.paths_of(p, f):
        if not c.ob("passed", q.kind == "ret", q, "panics"):
            continue
        pl = q.ev(r"LabelProvider::labels\(\$3\)")
        loops = [lp for lp in q.loops() if lp.name != "collect"]
        if not c.ob("every-label", len(pl) >= 1 and len(loops) == 1, q, "does not go through the labels once"):
            continue
        for it in (Iter(q, tr, st) for lp in loops for tr, st in lp.iters):
            step(c, it, labels, count, mx, False)
        end = Path(q.e, q.fn, q.x)
        end._evs = q.events(deep=False)
        ent = [e for e in end._evs if re.search(rf"^DashMap::(entry|insert|contains_key|get)\(self\.{labels},", repr(e))]
        ovf = [e for e in end._evs if re.search(rf"GenericCounter::inc(_by)?\(self\.{over}", repr(e))]
        r = q.rett
        if any(r is e.res for e in pl):
            # Leaving the loop at its end: every iteration's value was remembered.
            c.ob("passed", not ent and not ovf and q.whole(), q, "the provider's labels are used although one was refused")
            continue
        fill = re.fullmatch(r"vec::from_elem\('(\w+)',len\(LabelProvider::labels\(\$3\)#\d+\)\)", q.ret)
        fill = fill or re.fullmatch(r"\[each LabelProvider::labels\(\$3\)#\d+: \{ => one\('(\w+)'\)\}\]", q.ret)
        c.ob("overflow", bool(fill) and len(ent) == 1 and len(ovf) == 1, q, "not every label becomes the overflow value, or it is not counted")
        if ent:
            step(c, end, labels, count, mx, True)


def same_place(key):
    """The key joins a label's name and the value provided for that label."""
    k = re.fullmatch(r"cat\((.*),'(\w+|\W+)',(.*)\)", key)
    if not k:
        return False
    name, val = (re.sub(r"#\d+", "", x) for x in (k.group(1), k.group(3)))
    lab = r"(?:iter\()?LabelProvider::labels\(\$3\)\)?"
    z = re.fullmatch(rf"item\((zip\(\$2,{lab}\))\)\.0", name)
    y = re.fullmatch(rf"item\((zip\({lab},\$2\))\)\.1", name)
    i = re.fullmatch(r"Index::index\(\$2,(.*)\)|item\(\$2\)", name)
    j = re.fullmatch(rf"Index::index\({lab},(.*)\)|item\({lab}\)", val)
    if z or y:
        return val == (f"item({z.group(1)}).1" if z else f"item({y.group(1)}).0")
    if not i or not j:
        return False
    a, b = i.group(1), j.group(1)
    if a is None:
        return b == "index(item($2))"
    if b is None:
        return re.fullmatch(rf"index\(item\({lab}\)\)", a) is not None
    return a == b and a.startswith("item(")


def step(c, it, labels, count, mx, refused):
    ent = [e for e in it.ev(rf"^DashMap::entry\(self\.{labels}, ")]
    if not c.ob("every-label", len(ent) == 1 and same_place(show(ent[0].args[1])), it,
                "a label's value is not looked up under its name"):
        return
    ins = it.ev(r"^VacantEntry::insert\(|^DashMap::insert\(")
    add = it.ev(rf"^Atomic::fetch_add\(self\.{count}, 1, ")
    oth = it.ev(rf"^Atomic::(store|fetch_sub|swap|compare_exchange|fetch_\w+)\(self\.{count}, ")
    occ = it.decide(mk("is", ent[0].res, "Occupied"))
    rm = room(it, count, mx)
    if refused:
        c.ob("bounded", occ is False and rm is False and not ins and not oth, it, "a value is refused although there is room or it is known")
    elif occ is True:
        c.ob("known-free", not ins and not oth, it, "a known value is counted again")
    else:
        c.ob("bounded", occ is False and rm is True and len(ins) == 1 and len(add) == 1 and len(oth) == 1, it,
             "a new value is accepted without room, or not remembered and counted once")


def late(c):
    p, *_ = setup(c)
    c.rule("once", "a labelled metric is resolved on first use, with the labels the tracker allows, and never again")
    for f in [f for f in p.by_id.values() if re.search(r"LateInitializedMetric<.*>::get$|LateInitializedMetric::<.*>::get$", f.id)]:
        lm = f"{S}::LateInitializedMetric"
        real = field(p, lm, r"^std::option::Option<")
        inner = field(p, lm, r"LabeledMetric<")
        met = field(p, f"{S}::LabeledMetric", r"^MetricVecType$")
        for q in c.paths_of(p, f):
            had = q.decide(mk("is", fld(mk("sym", "self"), real), "Some"))
            w = q.ev(r"GetMetricWithLabels::with_label_values\(")
            now = q.e.resolve(q.state, q.state.store.get(("H", mk("sym", "self")), mk("sym", "self")))
            c.ob("once", q.kind == "ret" and show(q.rett) == show(fld(downcast(fld(now, real), "Some"), "0")), q, "does not return the metric it keeps")
            if had is True:
                c.ob("once", not w and not q.ev(r"LabelProvider::labels|^DashMap::"), q, "resolves the labels again")
                continue
            c.ob("once", had is False and len(w) == 1 and show(w[0].args[0]) == f"self.{inner}.{met}" and fld(downcast(fld(now, real), "Some"), "0") is w[0].res
                 and bool(re.search(r"^(vec::from_elem\('|LabelProvider::labels\(\$2\)|\[each LabelProvider::labels\(\$2\)#\d+: \{ => one\('\w+'\)\}\]$)", show(w[0].args[1]))), q,
                 "the metric kept is not the one with the allowed labels")


def build(c):
    p, *_ = setup(c)
    c.rule("built", "a labelled metric is registered in its collector, under its full name and labels, and uses the collector's one tracker")
    for name, kind in (("build_counter", "counter"), ("build_gauge", "gauge"), ("build_histogram", "histogram"), ("build_histogram_with_buckets", "histogram")):
        for q in c.paths_of(p, f"{S}::LabeledMetricBuilder::{name}"):
            if q.kind != "ret":
                continue
            o = q.ev(r"^(Histogram)?Opts::new\(")
            rg = q.ev(r"^Registry::register\(self\.scope\.collector\.inner\.registry, ")
            empty = q.decide(eq(integer(0), mk("call", "len", (fld(fld(mk("sym", "self"), "scope"), "scope"),), 0)))
            want = "$2" if empty else "cat(self.scope.scope,':',$2)"
            c.ob("built", len(o) == 1 and show(o[0].args[0]) == want and len(rg) == 1 and fld(q.rett, "metric") is rg[0].args[1], q,
                 "not registered under its full name")
            c.ob("built", show(fld(q.rett, "label_tracker")) == "self.label_tracker" and show(fld(q.rett, "label_names")) == "self.label_names"
                 and "self.label_names" in show(rg[0].args[1]) if rg else False, q, "other labels, or another tracker")
            if name.endswith("buckets"):
                b = q.ev(r"^HistogramOpts::buckets\(")
                c.ob("built", len(b) == 1 and show(b[0].args[1]) == "$3" and has_sub(rg[0].args[1], b[0].res), q, "not with the given buckets")
    for q in c.paths_of(p, f"{S}::Scope::labeled_metric_builder"):
        c.ob("built", show(fld(q.rett, "label_tracker")) == "self.collector.inner.label_tracker" and show(fld(q.rett, "scope")) == "self"
             and show(fld(q.rett, "label_names")) == "$2", q, "not this scope's builder")
    for q in c.paths_of(p, f"{S}::Collector::new_with_label_limit"):
        if q.kind == "ret":
            t = show(fld(fld(q.rett, "inner"), "label_tracker"))
            c.ob("built", re.search(r"max_labels:\$1\b", t) is not None and re.search(r"label_count:(Atomic::new\(0\)|0)", t) is not None, q, "the tracker does not start empty with the given limit")


GROUPS = [bound, late, build]
FLOORS = {"bounded": 2, "known-free": 1, "overflow": 1, "passed": 1, "every-label": 2, "once": 2, "built": 6}
