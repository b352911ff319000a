"""What is counted on the client is neither lost nor counted twice."""
from rules import *

S = "bd_client_stats_store"
SK = r"DDSketch::(accept|accept_with_count|merge_with|clear|decode_and_merge_with)\("
NEW = r"DDSketch::\w+\(0\.02,128\)(#\d+)?\?Ok\.0"


def excused(c, p, q):
    """the sketch's fixed parameters are refused, or two sketches of these same parameters do not go together"""
    return q.kind != "ret" and any(v is False and re.fullmatch(r"DDSketch::(logarithmic_\w+|merge_with|encode)\(.*\)(#\d+)? is Ok", show(k)) for k, v in q.state.facts.items())


def content(q, obj):
    return q.heap(re.escape(obj)).get(obj, obj)


def took(q, obj, v, w=None):
    """what `obj` (a histogram's content) holds afterwards is what it held, and v once; says what is wrong or None"""
    o, now = re.escape(w or obj), content(q, obj)
    ev = [e for e in q.trace if re.match(SK, repr(e))]
    V = re.escape(v)
    if re.fullmatch(rf"{o}\?DDSketch\{{0:=upd_by\(DDSketch::accept\({o}\?DDSketch\.0,{V}\)(#\d+)?,0\)\}}", now):
        return None if len(ev) == 1 else "the sketch is changed more than once"
    if re.fullmatch(rf"{o}\?Inline\{{0:=\[{o}\?Inline\.0 \+\+ one\({V}\)\]\}}", now):
        return None if not ev else "the value goes into a sketch as well"
    m = re.fullmatch(rf"DDSketch\((upd_by\(DDSketch::accept\((phi:\S+?),{V}\)(#\d+)?,0\)|(phi:\S+?))\)", now)
    if not m:
        return f"it ends as {now[:140]}"
    phi, pushed = m.group(2) or m.group(4), bool(m.group(4))
    lps = [lp for lp in q.loops() if any(re.match(rf"DDSketch::accept\({re.escape(phi)}, ", repr(e)) for i in [Iter(q, t, s) for t, s in lp.iters] for e in i.trace)]
    if len(lps) != 1 or len(ev) != (0 if pushed else 1):
        return "the values held so far are not taken over exactly once"
    lp = lps[0]
    src = rf"\[{o}\?Inline\.0 \+\+ one\({V}\)\]" if pushed else rf"{o}\?Inline\.0"
    if lp.src is None or not re.fullmatch(src, show(lp.src)) or not q.whole(lp):
        return "not every value held so far is taken over"
    for tr, st in lp.iters:
        i = Iter(q, tr, st)
        n = [e for e in i.trace if re.match(SK, repr(e)) and repr(e).find(phi) > 0]
        if len(n) != 1 or not re.match(rf"DDSketch::accept\({re.escape(phi)}, item\({src}\)\)", repr(n[0])):
            return "a value held so far is not taken over"
    return None


def counting(c):
    c.rule("counting", "a counter goes up by what was asked, in one step no other thread can come between; a histogram takes a value once, whichever way it keeps them, under its lock; a timer takes its time when it ends")
    p = c.program(S)
    for name, amount in ((f"{S}::Counter::inc", "1"), (f"{S}::Counter::inc_by", r"\$2"),
                         (f"{S}::<CounterWrapper as bd_stats_common::Counter>::inc", "1"), (f"{S}::<CounterWrapper as bd_stats_common::Counter>::inc_by", r"\$2")):
        own = "self.0.value" if "Wrapper" in name else "self.value"
        for q in c.paths_of(p, name):
            a = q.ev(r"^Atomic::")
            c.ob("counting", q.kind == "ret" and len(a) == 1 and re.match(rf"Atomic::fetch_add\({re.escape(own)}, {amount}, ", repr(a[0])) is not None, q, f"counting does {[repr(e)[:60] for e in a]}")
    for q in c.paths_of(p, f"{S}::Counter::get"):
        c.ob("counting", re.fullmatch(r"Atomic::load\(self\.value,\w+\)(#\d+)?", q.ret) is not None, q, f"the value of a counter is {q.ret}")
    seen = set()
    for name, own, v in ((f"{S}::Histogram::observe", "self.inner", "$2"), (f"{S}::<HistogramTimer as std::ops::Drop>::drop", "self.histogram.inner", None)):
        for q in c.paths_of(p, name):
            if excused(c, p, q):
                continue
            lk = [e for e in q.ev(r"^lock:")]
            if not c.ob("counting", q.kind == "ret" and len(lk) == 1 and re.match(rf"lock:lock\({re.escape(own)}\)", repr(lk[0])) is not None, q, "a value is taken without the histogram's lock, or with another"):
                continue
            val = v
            if v is None:
                t = [e for e in q.ev(r"^Instant::elapsed\(self\.start\)")]
                c.ob("counting", len(t) == 1, q, "the time is not measured from the start of the timer, once")
                if not t:
                    continue
                val = f"Duration::as_secs_f64({show(t[0].res)})"
            obj = next((k for k in q.heap(r"lock\(.*") if k.startswith("lock(")), None)
            if not c.ob("counting", obj is not None, q, "a value leaves the histogram as it was"):
                continue
            bad = took(q, obj, val)
            c.ob("counting", bad is None, q, f"a value taken: {bad}")
            seen.add((name, "inline" if "?Inline{" in content(q, obj) else "switch" if content(q, obj).startswith("DDSketch(") else "sketch"))
            u = q.idx(r"^unlock:")
            c.ob("counting", len(u) == 1 and all(u[0] > n for n, e in enumerate(q.events()) if re.match(SK + r"|Vec::push\(", repr(e))), q, "the lock is let go before the value is in")
    c.ob("counting", len(seen) == 6, c.fn(p, f"{S}::Histogram::observe"), f"the ways a value is kept are {sorted(seen)}")
    for q in c.paths_of(p, f"{S}::Histogram::start_timer"):
        c.ob("counting", re.fullmatch(r"HistogramTimer\{histogram:self,start:Instant::now\(\)(#\d+)?\}", q.ret) is not None, q, f"a timer is {q.ret}")
    for q in c.paths_of(p, f"{S}::CounterWrapper::make_dyn"):
        c.ob("counting", q.ret == "CounterWrapper($1)", q, f"the counter handed out is {q.ret}")


def snaps(c):
    c.rule("snap", "taking what was counted leaves exactly nothing behind and hands out exactly what was there, without a moment in which a value counted meanwhile is lost or seen twice; nothing is handed out exactly if nothing was there")
    p = c.program(S)
    ways = set()
    for q in c.paths_of(p, f"{S}::MetricData::snap"):
        if q.kind != "ret":
            c.ob("snap", False, q, "taking what was counted panics")
            continue
        ctr = q.truth(r"self is Counter")
        ctr = (not q.truth(r"self is Histogram")) if ctr is None and q.truth(r"self is Histogram") is not None else ctr
        if not c.ob("snap", ctr is not None, q, "the kind is not asked"):
            continue
        if ctr:
            a = q.ev(r"^Atomic::(?!new)")
            if not c.ob("snap", len(a) == 1 and re.match(r"Atomic::swap\(self\?Counter\.0\.value, 0, ", repr(a[0])) is not None, q, f"a counter is taken by {[repr(e)[:60] for e in a]}"):
                continue
            v = show(a[0].res)
            z = q.truth(re.escape(f"0=={v}") + "|" + re.escape(f"{v}==0"))
            z = (not q.truth(re.escape(f"0<{v}"))) if z is None and q.truth(re.escape(f"0<{v}")) is not None else z
            c.ob("snap", z is not None and q.ret == ("None" if z else f"Some(Counter(Counter{{value:Atomic::new({v})}}))"), q, f"of {v} comes {q.ret}")
            ways.add(("counter", z))
            continue
        lk = q.ev(r"^lock:")
        if not c.ob("snap", len(lk) == 1 and repr(lk[0]).startswith("lock:lock(self?Histogram.0.inner)"), q, "a histogram is taken without its lock, or the lock is taken twice"):
            continue
        o = show(lk[0].res) if lk[0].res is not None and "lock(" in show(lk[0].res) else "lock(self?Histogram.0.inner)#1"
        inl = q.truth(re.escape(o) + " is Inline")
        inl = (not q.truth(re.escape(o) + " is DDSketch")) if inl is None else inl
        k = f"{o}?{'Inline' if inl else 'DDSketch'}.0"
        e = q.truth(re.escape(f"0==len({k})")) if inl else q.truth(re.escape(f"DDSketch::is_empty({k})") + r"(#\d+)?|DDSketch::get_count\(.*\)(#\d+)?==0|0==DDSketch::get_count\(.*\)(#\d+)?")
        now = content(q, o)
        if not c.ob("snap", e is not None, q, "whether there is anything is not asked"):
            continue
        if e:
            c.ob("snap", q.ret == "None" and now in (o, f"{o}?Inline{{0:=[]}}"), q, f"of an empty histogram comes {q.ret}, it becomes {now[:80]}")
        else:
            c.ob("snap", re.fullmatch(rf"Some\(Histogram\(Histogram\{{inner:Mutex::new\({'Inline' if inl else 'DDSketch'}\({re.escape(k)}\)\)\}}\)\)", q.ret) is not None, q, f"what is handed out is {q.ret[:160]}")
            clean = rf"{re.escape(o)}\?Inline\{{0:=\[\]\}}|Inline\(\[\]\)|default\(.*\)" if inl else rf"{re.escape(o)}\?DDSketch\{{0:=upd_by\(DDSketch::clear\({re.escape(k)}\)(#\d+)?,0\)\}}|Inline\(\[\]\)|default\(.*\)|DDSketch\({NEW}\)"
            c.ob("snap", re.fullmatch(clean, now) is not None, q, f"what stays behind is {now[:120]}")
        ways.add(("inline" if inl else "sketch", e))
        u = q.idx(r"^unlock:")
        c.ob("snap", len(u) == 1 and all(u[0] > n for n, x in enumerate(q.events()) if re.match(SK + "|Vec::clear", repr(x))), q, "the lock is let go in between")
    c.ob("snap", len(ways) == 6, c.fn(p, f"{S}::MetricData::snap"), f"the ways through are {sorted(map(str, ways))}")


def merging(c):
    c.rule("merge", "merging one histogram into another adds every value of the one to the other, once, whichever way each keeps them; all sketches have the same parameters, so that they can be merged")
    p = c.program(S)
    f = c.fn(p, f"{S}::Histogram::merge_from")
    ways = set()
    made = set()
    for q in c.paths_of(p, f):
        made |= {repr(e) for e in q.ev(r"^DDSketch::(logarithmic|unbounded|collapsing|sparse|new)\w*\(")}
        if excused(c, p, q):
            continue
        lk = [repr(e) for e in q.ev(r"^lock:", deep=False)]
        if not c.ob("merge", q.kind == "ret" and sorted(lk) == ["lock:lock($2.inner)", "lock:lock(self.inner)"], q, f"what is locked is {lk}"):
            continue
        a, b = "lock(self.inner)#1", "lock($2.inner)#1"
        ours, theirs = q.truth(re.escape(a) + " is Inline"), q.truth(re.escape(b) + " is Inline")
        if not c.ob("merge", theirs is not None and content(q, b) == b, q, "what is merged is not looked at, or it is changed"):
            continue
        ev = [e for e in q.trace if re.match(SK, repr(e))]
        if theirs:
            lps = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == f"{b}?Inline.0"]
            if not c.ob("merge", len(lps) == 1 and q.whole(lps[0]) and not ev, q, "not every value of the other is gone through once"):
                continue
            for tr, st in lps[0].iters:
                i = Iter(q, tr, st)
                bad = took(i, a, f"item({b}?Inline.0)", f"phi:*{a}")
                c.ob("merge", bad is None, i, f"a value of the other: {bad}")
                ways.add("value")
        else:
            now = content(q, a)
            x = rf"DDSketch::merge_with\(({re.escape(a)}\?DDSketch\.0|phi:\S+?),{re.escape(b)}\?DDSketch\.0\)(#\d+)?"
            whole = rf"{re.escape(a)}\?DDSketch\{{0:=upd_by\({x},0\)\}}"
            conv = rf"DDSketch\(upd_by\(DDSketch::merge_with\(.*,{re.escape(b)}\?DDSketch\.0\)(#\d+)?,0\)\)"
            c.ob("merge", len(ev) == 1 and re.fullmatch(whole if ours is False else conv, now) is not None, q, f"after merging a sketch there is {now[:160]}")
            if ours:
                lps = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == f"{a}?Inline.0" and q.whole(lp)]
                c.ob("merge", len(lps) == 1 and all(len([e for e in Iter(q, t, s).trace if re.match(rf"DDSketch::accept\(phi:\S+, item\({re.escape(a)}\?Inline\.0\)\)", repr(e))]) == 1 for t, s in lps[0].iters), q, "not every value held so far is taken into the sketch")
            ways.add(f"sketch into {'inline' if ours else 'sketch'}")
    c.ob("merge", len(ways) == 3, f, f"the ways through are {sorted(ways)}")
    for name in (f"{S}::Histogram::observe", f"{S}::MetricData::from_proto"):
        for q in c.paths_of(p, name):
            made |= {repr(e) for e in q.ev(r"^DDSketch::(logarithmic|unbounded|collapsing|sparse|new)\w*\(")}
    c.ob("merge", len(made) == 1, f, f"sketches are made as {sorted(made)}")


def proto(c):
    c.rule("stored", "what is written out and read back is the same value: a counter's count, a histogram's values one by one, a sketch whole; what is of an unknown kind is told apart")
    p = c.program(S)
    ways = set()
    for q in c.paths_of(p, f"{S}::MetricData::to_proto"):
        if excused(c, p, q):
            continue
        ctr = q.truth("self is Counter")
        if ctr is None and q.truth("self is Histogram") is not None:
            ctr = not q.truth("self is Histogram")
        if not c.ob("stored", q.kind == "ret" and ctr is not None, q, "the kind is not asked"):
            continue
        r = re.sub(r"(special_fields|value_deprecated):default\('[^']*'\)\.\w+,?", "", q.ret)
        r = re.sub(r",\}", "}", r)
        o = "lock(self?Histogram.0.inner)#1"
        if ctr:
            ok = re.fullmatch(r"Counter\(Counter\{value:Atomic::load\(self\?Counter\.0\.value,\w+\)(#\d+)?\}\)", r)
            ways.add("counter")
        elif q.truth(re.escape(o) + " is Inline"):
            ok = re.fullmatch(re.escape(f"InlineHistogramValues(InlineHistogramValues{{values:{o}?Inline.0}})"), r)
            ways.add("inline")
        else:
            ok = re.fullmatch(rf"DdsketchHistogram\(DDSketchHistogram\{{serialized:DDSketch::encode\({re.escape(o)}\?DDSketch\.0\)(#\d+)?\?Ok\.0\}}\)", r)
            ways.add("sketch")
        c.ob("stored", ok is not None, q, f"what is written is {r[:200]}")
    for q in c.paths_of(p, f"{S}::MetricData::from_proto"):
        if excused(c, p, q):
            continue
        if not c.ob("stored", q.kind == "ret", q, "reading a metric panics"):
            continue
        k = next((k for k in ("Counter", "DdsketchHistogram", "InlineHistogramValues", "FixedBucketHistogramDeprecated") if q.truth(rf"\$1 is {k}")), None)
        d = r"DDSketch::decode_and_merge_with\(" + NEW + r",\$1\?DdsketchHistogram\.0\.serialized\)(#\d+)?"
        good = q.truth(d + " is Ok")
        exp = {"Counter": r"Some\(Counter\(Counter\{value:Atomic::new\((Add|\w+::\w*add)\(\$1\?Counter\.0\.value,\$1\?Counter\.0\.value_deprecated\)\)\}\)\)",
               "InlineHistogramValues": re.escape("Some(Histogram(Histogram{inner:Mutex::new(Inline($1?InlineHistogramValues.0.values))}))"),
               "DdsketchHistogram": "None" if good is False else rf"Some\(Histogram\(Histogram\{{inner:Mutex::new\(DDSketch\(upd_by\({d},0\)\)\)\}}\)\)",
               "FixedBucketHistogramDeprecated": "None"}.get(k)
        c.ob("stored", exp is not None and re.fullmatch(exp, q.ret) is not None, q, f"a {k} is read as {q.ret[:200]}")
        ways.add((k, good))
    c.ob("stored", len(ways) == 8, c.fn(p, f"{S}::MetricData::to_proto"), f"the kinds are {sorted(map(str, ways))}")


def handles(c):
    c.rule("one-metric", "asking for a metric by the same name and labels gives the same metric as long as it is kept, whatever the limit; a new one is made only while there are fewer than the limit, else it is told that there are too many; a name of the other kind is told apart")
    c.rule("named", "a metric's name is the scope's name, ':' and its own, without ':' in a scope without name; its labels are those given")
    p = c.program(S)
    N, M = {}, "lock(self{}.collector.inner)#1"
    B = f"{S}::BoundedScope::"
    for name, kind, lab in ((B + "counter_with_labels", "Counter", "$3"), (B + "counter", "Counter", "BTreeMap::new()"), (B + "histogram", "Histogram", "BTreeMap::new()"), (B + "histogram_with_labels", "Histogram", "$3"),
                            (f"{S}::Scope::counter", "Counter", "BTreeMap::new()"), (f"{S}::Scope::counter_with_labels", "Counter", "$3"), (f"{S}::Scope::histogram", "Histogram", "BTreeMap::new()")):
        pre = "self.0" if "::Scope::" in name else "self"
        o = f"lock({pre}.collector.inner)#1"
        ways = set()
        for q in c.paths_of(p, name, Config(budget=6000)):
            if q.kind != "ret" and any(re.match(r"TryInto::try_into|TryFrom", show(k)) and v is False for k, v in q.state.facts.items()):
                continue  # a limit beyond what the machine can count to
            ids = {show(e.res) if e.res is not None else repr(e) for e in q.ev(r"^Id::new\(")}
            ent = q.ev(r"^HashMap::entry\(|^HashMap::get")
            bare = q.truth(re.escape(f"0==len({pre}.name)"))
            if not c.ob("named", bare is not None, q, "whether the scope has a name is not asked"):
                continue
            nm = "$2" if bare else f"cat({pre}.name,':',$2)"
            none = r"(BTreeMap::new\(\)(#\d+)?|default\('[\w:]*BTreeMap'\))"
            I = re.escape(f"Id::new({nm},") + (none if lab == "BTreeMap::new()" else re.escape(lab)) + r"\)(#\d+)?"
            c.ob("named", [1 for i in ids if re.fullmatch(I, i)] == [1] * len(ids) and ids, q, f"the metric looked for is {sorted(ids)}")
            E = re.escape(f"HashMap::entry({o}.metrics,") + I + r"\)(#\d+)?"
            G = re.escape(f"HashMap::get") + r"(_mut)?\(" + re.escape(f"{o}.metrics,") + I + r"\)(#\d+)?"
            there = q.truth(f"{E} is Occupied|{G} is Some|HashMap::contains_key.*")
            if there is None and q.truth(f"{E} is Vacant") is not None:
                there = not q.truth(f"{E} is Vacant")
            if not c.ob("one-metric", there is not None and len(q.ev(r"^lock:")) == 1, q, "whether the metric is there already is not asked, or the lock is let go in between"):
                continue
            ins = q.ev(r"^(VacantEntry|HashMap|Entry)::(insert|or_insert\w*)\(")
            rem = q.ev(r"^HashMap::(remove|clear|retain|drain)|^OccupiedEntry::(insert|remove)")
            c.ob("one-metric", not rem, q, "looking for a metric changes the others")
            lim = q.truth(re.escape(f"{o}.limit is Some"))
            L = rf"(TryInto::try_into|TryFrom::try_from|convert)?\(?(Receiver::borrow\({re.escape(o)}\.limit\?Some\.0\)(#\d+)?)\)?(#\d+)?(\?Ok\.0)?"
            room = q.truth(re.escape(f"len({o}.metrics)<") + L)
            new = rf"{kind}\({kind}\{{value:Atomic::new\(0\)\}}\)|{kind}\(default\('.*'\)\)|{kind}\({kind}\{{inner:.*\}}\)"
            if there:
                X = rf"(OccupiedEntry::(into_mut|get|get_mut)\({E}\?Occupied\.0\)(#\d+)?|{G}\?Some\.0)"
                c.ob("one-metric", not ins, q, "a metric that is there is replaced")
                k = q.truth(rf"{X} is {kind}")
                if k is None and q.truth(rf"{X} is {'Counter' if kind == 'Histogram' else 'Histogram'}") is not None:
                    k = not q.truth(rf"{X} is {'Counter' if kind == 'Histogram' else 'Histogram'}")
                if not c.ob("one-metric", k is not None, q, "the kind of the metric is not asked"):
                    continue
                if k is False:
                    c.ob("one-metric", q.kind != "ret" if pre == "self.0" else q.ret == "Err(ChangedType)", q, f"a metric of the other kind: {q.ret}")
                else:
                    e = rf"{X}\?{kind}\.0"
                    c.ob("one-metric", q.kind == "ret" and re.fullmatch(e if pre == "self.0" else rf"Ok\({e}\)", q.ret) is not None, q, f"the metric that is there is not what is given: {q.ret[:150]}")
                ways.add(("there", k))
                continue
            if not c.ob("one-metric", lim is not None and (not lim or room is not None), q, "a metric is made, or refused, without asking for the limit"):
                continue
            if lim and not room:
                c.ob("one-metric", not ins and (q.kind != "ret" if pre == "self.0" else q.ret == "Err(Overflow)"), q, f"beyond the limit: {q.ret[:100]}")
                ways.add("full")
                continue
            y = rf"VacantEntry::insert\({E}\?Vacant\.0,({new})\)(#\d+)?"
            if q.truth(rf"{y} is {kind}") is False or q.truth(rf"{y} is {'Counter' if kind == 'Histogram' else 'Histogram'}"):
                continue  # what was just made is of this kind
            c.ob("one-metric", len(ins) == 1, q, "a new metric is not kept")
            e = rf"({y}\?{kind}\.0|Counter\{{value:Atomic::new\(0\)\}})"
            c.ob("one-metric", q.kind == "ret" and re.fullmatch(e if pre == "self.0" else rf"Ok\({e}\)", q.ret) is not None, q, f"a new metric is {q.ret[:200]}")
            ways.add(("new", lim))
        c.ob("one-metric", ways == {("there", True), ("there", False), "full", ("new", True), ("new", False)}, c.fn(p, name), f"the ways through are {sorted(map(str, ways))}")
    for name, pre in ((B + "scope", "self"), (f"{S}::Scope::scope", "self.0")):
        for q in c.paths_of(p, name):
            bare = q.truth(re.escape(f"0==len({pre}.name)"))
            nm = "$2" if bare else f"cat({pre}.name,':',$2)"
            e = f"BoundedScope{{collector:{pre}.collector,name:{nm}}}"
            c.ob("named", bare is not None and q.ret == (e if pre == "self" else f"Scope({e})"), q, f"a scope within is {q.ret}")
    for name, e in ((f"{S}::BoundedCollector::scope", "BoundedScope{collector:self,name:$2}"), (f"{S}::Collector::scope", "Scope(BoundedScope{collector:self.0,name:$2})"),
                    (f"{S}::BoundedCollector::new", "BoundedCollector{inner:Mutex::new(BoundedCollectorInner{limit:$1,metrics:HashMap::new()})}")):
        for q in c.paths_of(p, name):
            c.ob("named", q.ret == e, q, f"{name} gives {q.ret}")


def taken(c):
    c.rule("dropped", "a metric is dropped only if nobody else had a hold of it before what it counted was taken, and nothing was there: whoever counts afterwards counts on a metric that is kept; this happens under the lock under which metrics are handed out")
    c.rule("all-taken", "what is counted is taken from the fixed metrics and from the dynamic ones, every metric once, into what is then written")
    p = c.program("bd_client_stats", S)
    for q in c.paths_of(p, f"{S}::BoundedCollector::retain"):
        r = q.ev(r"^HashMap::retain\(", deep=False)
        c.ob("dropped", len(r) == 1 and repr(r[0]).startswith("HashMap::retain(lock(self.inner)#1.metrics, ") and q.ev(r"^HashMap::(clear|remove|drain)") == [], q, "metrics are dropped other than under the lock and as asked")
    f = next(g for g in p.by_id.values() if re.fullmatch(r"bd_client_stats::stats::Flusher::snap_collector_to_snapshot", g.id))
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=[r"MetricData::snap", r"strong_count$"])):
        r = [e for e in q.trace if re.match(r"HashMap::retain\(lock\(\$1\.inner\)#1\.metrics, ", repr(e))]
        if not c.ob("dropped", q.kind == "ret" and len(r) == 1, q, "not every metric of the collector is gone through, under its lock"):
            continue
        cl = r[0].args[1]
        g = closure_fn(q, cl)
        for _ in range(3):  # a closure that hands on to the one it holds
            xs = c.paths_of(p, g, Config(opaque=[r"MetricData::snap", r"strong_count$", r"atomic::fence"])) if g is not None else []
            if not xs or not all(hands_on(x) for x in xs):
                break
            held = [t for t in parts(q, cl) if closure_fn(q, t) is not None]
            cl, g = (held[0], closure_fn(q, held[0])) if len(held) == 1 else (None, None)
        if not c.ob("dropped", bool(xs) and cl is not None, f, "what decides on a metric is not found"):
            continue
        for x in xs:
            sn, ins = x.ev(r"^MetricData::snap\(\$3\)"), x.ev(r"^HashMap::insert\(")
            ctr = x.truth(r"\$3 is Counter")
            if not c.ob("all-taken", x.kind == "ret" and len(sn) == 1, x, "what a metric counted is not taken exactly once"):
                continue
            v = show(sn[0].res)
            got = x.decide(mk("is", sn[0].res, "Some"))
            if not c.ob("all-taken", got is not None, x, "what was taken is not looked at"):
                continue
            sc = x.ev(r"^Arc::strong_count\(")
            at = next(n for n, e in enumerate(x.events()) if e is sn[0])
            if got:
                c.ob("all-taken", len(ins) == 1 and re.match(rf"HashMap::insert\(\$1\.[*\w]+(\.metrics)?(\.metrics)?, \$2, {re.escape(v)}\?Some\.0\)", repr(ins[0])) is not None, x, f"what was taken is not put in: {[repr(e)[:100] for e in ins]}")
                c.ob("dropped", x.ret == "true", x, "a metric that counted something is dropped")
                ways.add("taken")
                continue
            c.ob("all-taken", not ins, x, "something is put in though nothing was counted")
            if not c.ob("dropped", len(sc) == 1 and ctr is not None and repr(sc[0]) == f"Arc::strong_count($3?{'Counter.0.value' if ctr else 'Histogram.0.inner'})", x, "who else has a hold of the metric is not asked"):
                continue
            was = next(n for n, e in enumerate(x.events()) if e is sc[0])
            c.ob("dropped", was < at, x, "who else has a hold of the metric is asked only after what it counted was taken")
            fe = [n for n, e in enumerate(x.events()) if re.match(r"atomic::fence\((Acquire|AcqRel|SeqCst)\)", repr(e))]
            c.ob("dropped", not ctr or any(was < n < at for n in fe), x, "what those counted who let go of it might not be seen")
            n = show(sc[0].res)
            alone = x.truth(re.escape(f"{n}<2") + "|" + re.escape(f"{n}==1") + "|" + re.escape(f"1=={n}"))
            if alone is None and x.truth(re.escape(f"1<{n}")) is not None:
                alone = not x.truth(re.escape(f"1<{n}"))
            c.ob("dropped", x.ret == ("false" if alone else "true") if alone is not None else re.fullmatch(rf"{re.escape('1<' + n)}|!\(?{re.escape(n)}<2\)?", x.ret) is not None, x, f"it is kept: {x.ret}")
            ways |= {("nothing", ctr, a) for a in ([True, False] if alone is None else [alone])}
    c.ob("dropped", len(ways) == 5 and "taken" in ways, f, f"the ways through are {sorted(map(str, ways))}")
    for q in c.paths_of(p, "bd_client_stats::stats::Flusher::create_delta_snapshot", Config(opaque=[r"BoundedCollector::retain$"])):
        r = [repr(e) for e in q.ev(r"^BoundedCollector::retain\(")]
        on = sorted(re.match(r"BoundedCollector::retain\(([^,]*),", e).group(1) for e in r)
        c.ob("all-taken", q.kind == "ret" and on == ["self.stats.collector.0", "self.stats.dynamic_stats.dynamic_collector"], q, f"what is taken is that of {on}")


def hands_on(x):
    """a closure that answers what the closure it holds answers"""
    ev = [e for e in x.events() if repr(e).startswith("call:$1.")]
    if x.kind != "ret" or len(ev) != 1 or not re.fullmatch(r"call:\$1\.\w+\(\$2, ?\$3\)", repr(ev[0])):
        return False
    v = show(ev[0].res)
    return x.ret == v or x.ret in ("true", "false") and x.truth(re.escape(v)) is (x.ret == "true")


def parts(q, t):
    """the values a closure holds"""
    t = q.e.resolve(q.state, t)
    out = []

    def go(x, top):
        if isinstance(x, type(t)):
            if not top and q.e.closure_of(q.state, x) is not None:
                out.append(x)
                return
            for y in x.a:
                go(y, False)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y, False)
    go(t, True)
    return out


def dynamic(c):
    c.rule("by-name", "what is counted by name goes to the metric of that name and labels, once; too many names are counted instead; a name that changes its kind is reported")
    p = c.program("bd_client_stats", S)
    for fn, get, put in (("record_dynamic_counter", "counter_with_labels", r"Counter::inc_by"), ("record_dynamic_histogram", "histogram_with_labels", r"Histogram::observe")):
        ways = set()
        for q in c.paths_of(p, f"bd_client_stats::DynamicStats::{fn}", Config(opaque=[r"_with_labels$", r"Counter::inc$", r"inc_by$", r"observe$", r"handle_unexpected"])):
            g = rf"BoundedScope::{get}\(self\.dynamic_scope,\$2,\$3\)(#\d+)?"
            asked = q.ev(rf"^BoundedScope::\w+\(")
            ok = q.truth(g + " is Ok")
            if ok is None and q.truth(g + " is Err") is not None:
                ok = not q.truth(g + " is Err")
            if not c.ob("by-name", q.kind == "ret" and ok is not None and len(asked) == 1, q, f"the metric asked for is {[repr(e)[:80] for e in asked]}"):
                continue
            done = [repr(e) for e in q.ev(r"^(Counter|Histogram)::(inc|inc_by|observe)\(|^error::handle_unexpected\(")]
            ch = q.truth(g + r"\?Err\.0 is ChangedType")
            if ch is None and q.truth(g + r"\?Err\.0 is Overflow") is not None:
                ch = not q.truth(g + r"\?Err\.0 is Overflow")
            exp = rf"{put}\({g}\?Ok\.0, \$4\)" if ok else r"error::handle_unexpected\(Err\(" if ch else r"Counter::inc\(self\.dynamic_stats_overflow\)|Counter::inc_by\(self\.dynamic_stats_overflow, 1\)"
            c.ob("by-name", len(done) == 1 and (ok or ch is not None) and re.match(exp, done[0]) is not None, q, f"what is counted is {[d[:100] for d in done]}")
            ways.add((ok, ch))
        c.ob("by-name", len(ways) == 3, c.fn(p, f"bd_client_stats::DynamicStats::{fn}"), f"the ways through are {sorted(map(str, ways))}")
    for q in c.paths_of(p, "bd_client_stats::DynamicStats::new", Config(opaque=[r"_with_labels$"])):
        if q.kind != "ret":
            continue
        b = r"BoundedCollector\{inner:Mutex::new\(BoundedCollectorInner\{limit:Some\(Watch::into_inner\(MaxDynamicCountersFlag::register\(\$2\)(#\d+)?\?Ok\.0\)(#\d+)?\),metrics:HashMap::new\(\)\}\)\}"
        m = re.fullmatch(rf"DynamicStats\{{dynamic_collector:(?P<a>{b}),dynamic_scope:BoundedScope\{{collector:(?P<b>{b}),name:''\}},dynamic_stats_overflow:.*'dynamic_stats_overflow'.*\}}", q.ret)
        c.ob("by-name", m is not None and m.group("a") == m.group("b"), q, f"the dynamic metrics are {q.ret[:200]}")
    for q in c.paths_of(p, "bd_client_stats::Stats::scope"):
        c.ob("by-name", q.ret == "Scope(BoundedScope{collector:self.collector.0,name:$2})", q, f"a scope of the metrics is {q.ret}")
    for q in c.paths_of(p, "bd_client_stats::Stats::new"):
        c.ob("by-name", q.ret == "Stats{collector:$1,dynamic_stats:$2}", q, f"the metrics are {q.ret}")


GROUPS = [counting, snaps, merging, proto, handles, taken, dynamic]
FLOORS = {"counting": 20, "snap": 20, "merge": 10, "stored": 9, "one-metric": 60, "named": 40, "dropped": 6, "all-taken": 5, "by-name": 12}
