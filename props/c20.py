"""Exposition: a scrape is complete and up to date; in-flight gauges go up once and down once."""
from rules import *

S = "bd_server_stats::stats"
CI = f"{S}::CollectorInner"


def gather(c):
    p = c.program("bd_server_stats", "bd_stats_common")
    cb, ch = field(p, CI, r"OnGatherCallback|Mutex<.*Vec<.*dyn .*Fn"), field(p, CI, r"GatherMetrics")
    reg = field(p, CI, r"^prometheus::Registry$|Registry$")
    c.rule("callbacks-first", "every registered callback runs before the collector's own metrics are gathered")
    c.rule("complete", "the result is the collector's own metrics and those of every chained collector, each once")
    c.rule("registered", "adding a callback or a collector keeps every earlier one")
    c.rule("same-output", "the text output is an encoding of the same complete result")
    for name in ("gather", "prometheus_output"):
        for q in c.paths_of(p, f"{S}::Collector::{name}"):
            if q.kind != "ret" and name == "prometheus_output":
                continue
            g = q.ev(rf"^Registry::gather\(self\.inner\.{reg}\)", deep=False)
            loops = [e for e in q.events(deep=False) if e.kind == "loop" and any(re.search(rf"call:item\(lock\(self\.inner\.{cb}\)", repr(x)) for tr, _ in q.e.loops[e.extra].iters for x in tr)]
            if not c.ob("callbacks-first", len(g) == 1 and len(loops) == 1, q, "the callbacks are not run once, or the metrics not gathered once"):
                continue
            ev = q.events(deep=False)
            its = q.e.loops[loops[0].extra].iters
            c.ob("callbacks-first", ev.index(loops[0]) < ev.index(g[0]) and all(sum(bool(re.search(r"^call:item\(", repr(x))) for x in tr) == 1 for tr, _ in its),
                 q, "a callback is skipped or runs after the metrics were read")
            out = q.rett if name == "gather" else None
            if name == "prometheus_output":
                en = q.ev(r"^Encoder::encode\(")
                if not c.ob("same-output", len(en) == 1 and re.match(r"upd_by\(Encoder::encode\(", q.ret) is not None, q, "not encoded once"):
                    continue
                out = en[0].args[1]
            c.ob("complete" if name == "gather" else "same-output", complete(out, g[0].res, ch), q, f"the result is {show(out)[:200]}")


def complete(out, own, ch):
    if out.op != "seq":
        return False
    parts = list(out.a[0])
    mine = [x for x in parts if x.op == "all" and x.a[0] is own]
    rest = [x for x in parts if x not in mine]
    return len(mine) == 1 and len(rest) == 1 and re.fullmatch(
        rf"each (lock\(self\.inner\.{ch}\)#1): \{{ => GatherMetrics::gather\(item\(lock\(self\.inner\.{ch}\)#1\)\)#1\}}", show(rest[0])) is not None


def adding(c):
    p = c.program("bd_server_stats", "bd_stats_common")
    cb, ch = field(p, CI, r"OnGatherCallback|Mutex<.*Vec<.*dyn .*Fn"), field(p, CI, r"GatherMetrics")
    for name, f in (("add_gather_callback", cb), ("chain", ch)):
        for q in c.paths_of(p, f"{S}::Collector::{name}"):
            w = q.heap(rf"lock\(self\.inner\.{f}\)#1")
            k = f"lock(self.inner.{f})#1"
            c.ob("registered", q.kind == "ret" and list(w.values()) in ([f"[{k} ++ one($2)]"], [f"[one($2) ++ {k}]"]), q, "an earlier one is lost, or the new one not kept")


def gauges(c):
    p = c.program("bd_server_stats", "bd_stats_common")
    c.rule("up-down", "an in-flight gauge goes up by one when tracking starts and down by one when it ends")
    for t in ("AutoGauge", "StackAutoGauge"):
        for q in c.paths_of(p, next(f.id for f in p.by_id.values() if re.search(rf"::{t}(::<.*>|<.*>)?::new$", f.id))):
            ch = q.ev(r"^GenericGauge::(add|sub|inc|dec|set)\(")
            c.ob("up-down", q.kind == "ret" and delta(ch) == 1 and all(show(e.args[0]) == "$1" for e in ch) and show(fld(q.rett, "gauge")) == "$1", q, "does not raise the gauge it keeps by one")
        for f in [f for f in p.by_id.values() if re.search(rf"<stats::{t}(<.*>)? as std::ops::Drop>::drop$", f.id)]:
            for q in c.paths_of(p, f):
                ch = q.ev(r"^GenericGauge::(add|sub|inc|dec|set)\(")
                c.ob("up-down", q.kind == "ret" and delta(ch) == -1 and all(show(e.args[0]) == "self.gauge" for e in ch), q, "does not lower its gauge by one")
    c.rule("counter", "counting by n through the shared counter interface adds exactly n")
    for n, want in (("inc", "1"), ("inc_by", "$2")):
        f = next((f for f in p.by_id.values() if re.search(rf"CounterWrapper as bd_stats_common::Counter>::{n}$", f.id)), None)
        if f is None:
            raise Anchor(f"CounterWrapper::{n}")
        for q in c.paths_of(p, f):
            ch = q.ev(r"^GenericCounter::\w+\(self\.")
            ok = len(ch) == 1 and (repr(ch[0]).startswith("GenericCounter::inc_by(") and show(ch[0].args[1]) == want or n == "inc" and repr(ch[0]).startswith("GenericCounter::inc("))
            c.ob("counter", q.kind == "ret" and ok, q, "does not add what was asked")


def delta(ch):
    d = 0
    for e in ch:
        m = re.match(r"^GenericGauge::(\w+)\(", repr(e)).group(1)
        if m in ("inc", "dec"):
            d += 1 if m == "inc" else -1
        elif m in ("add", "sub") and e.args[1].op == "int":
            d += e.args[1].a[0] if m == "add" else -e.args[1].a[0]
        else:
            return None
    return d


GROUPS = [gather, adding, gauges]
FLOORS = {"callbacks-first": 2, "complete": 1, "registered": 2, "same-output": 1, "up-down": 2, "counter": 2}
