"""What the platform is asked for, and when: events while they are enabled, reports and screens at their interval, one screenshot at a time."""
from rules import *
from c46 import n, evs, ask, after, facts

S = r"(?:phi:)?(?:G|self)"
NOISE = r"LOOP|done:|Interest::|Callsite::|__macro_support|Span::|LevelFilter|MacroCallsite|DefaultCallsite"
INSTANT = r"Instant::now\(\)(#\d+)?"


def left(q, name):
    """a field of self afterwards"""
    store = {k[1]: v for k, v in q.state.store.items() if k[0] == "H"} if q.kind == "iter" else q.x.heap()
    v = next((v for k, v in store.items() if show(k) == "self"), mk("sym", "self"))
    return n(q.e.resolve(q.state, fld(v, name)))


def own(q):
    """the events of a path, or of a round alone"""
    return [e for e in (q._top if q.kind == "iter" else q.trace) if e.kind != "done"]


def keeps(q, *names):
    """these fields are as they were"""
    return all(re.fullmatch(rf"{S}\.{x}", left(q, x)) for x in names)


def woken(q):
    """what ended the wait of a round, and what was done then"""
    ev = [e for e in own(q) if not re.match(NOISE, repr(e))]
    aw = [i for i, e in enumerate(ev) if e.kind == "await"]
    if len(aw) != 1:
        return None, [n(e) for e in ev]
    return re.sub(r"^await:await\((.*?)(#\d+)?\)$", r"\1", n(ev[aw[0]])), [n(e) for e in ev[aw[0] + 1:]]


def rounds(c, rule, q):
    for lp in q.loops():
        if lp.src is None:
            for tr, st in lp.iters:
                yield Iter(q, tr, st)


def run(c, rule, crate, ty):
    """the exits and rounds of a component's loop; the loop ends with the shutdown alone"""
    p = c.program(crate)
    for q in c.paths_of(p, f"{crate}::{ty}::run_with_shutdown", Config(opaque=[], budget=60000), is_async=True):
        w = [e for e in q.trace if e.kind == "await"]
        c.ob(rule, q.kind == "ret" and len(w) == 1 and re.fullmatch(r"await:await\(ComponentShutdown::cancelled\(\$2\)#\d+\)", n(w[0])), q, f"ends after {[n(e) for e in w]}")
        rs = list(rounds(c, rule, q))
        c.ob(rule, rs, q, "there is no loop")
        yield q, rs
    for q in c.paths_of(p, f"{crate}::{ty}::run", Config(opaque=["run_with_shutdown$"]), is_async=True):
        c.ob(rule, q.kind == "ret" and len([e for e in q.trace if re.search(r"run_with_shutdown\(self, ", n(e))]) == 1, q, "running does something else")


def events(c):
    c.rule("events", "whenever the flag changes the listener is started if it is now on and stopped if it is now off and there was an earlier change, and this is remembered")
    seen = set()
    for q, rs in run(c, "events", "bd_events", "Listener"):
        for i in rs:
            why, did = woken(i)
            if not c.ob("events", why == "Watch::changed(self.is_enabled_flag)", i, f"woken by {why}"):
                continue
            on, old = ask(i, rf"Watch::read(_mark_update)?\({S}\.is_enabled_flag\)(#\d+)?"), ask(i, rf"{S}\.has_seen_is_enabled_flag_update")
            c.ob("events", re.match(r"Watch::read(_mark_update)?\(self\.is_enabled_flag\)", did[0]), i, f"first {did[:1]}")
            want = ["ListenerTarget::start(self.target)"] if on else ["ListenerTarget::stop(self.target)"] if old else []
            c.ob("events", on is not None and (on or old is not None) and did[1:] == want, i, f"on {on}, before {old}: {did[1:]}")
            c.ob("events", left(i, "has_seen_is_enabled_flag_update") == "true", i, "the change is not remembered")
            seen.add((on, old if on is False else None))
        c.ob("events", seen == {(True, None), (False, True), (False, False)}, q, f"met only {seen}")
    p = c.program("bd_events")
    for q in c.paths_of(p, "bd_events::Listener::new", Config(opaque=[])):
        c.ob("events", q.kind != "ret" or "has_seen_is_enabled_flag_update:false" in n(q.ret), q, f"begins as {n(q.ret)[:120]}")


def interval(i, src, first):
    """whether the interval in place afterwards has this period and ticks at once, or only after it; None if there is none"""
    p = rf"(Duration::unsigned_abs\({src}\)(#\d+)?|{src})"
    if first:
        made = rf"(time::interval\({p}\)|TimeDurationExt::interval\({src}\))(#\d+)?"
    else:
        made = rf"(time::interval_at\((Add::add\({INSTANT},{p}\)(#\d+)?|Add\({INSTANT},{p}\)|{INSTANT} \+ {p}),{p}\)|TimeDurationExt::interval_at\({src}\))(#\d+)?"
    m = [e for e in own(i) if re.match(r"Interval::set_missed_tick_behavior\(", repr(e)) and re.fullmatch(made, n(e.args[0]))]
    return len(m) == 1 and n(m[0].args[1]) == "Delay" and len([e for e in own(i) if re.match(r"time::interval|TimeDurationExt::interval|Interval::reset", repr(e))]) == 1


def utilization(c):
    c.rule("reports", "a report is asked for at each tick of the interval while reports are on, at once at first; a change of the interval takes effect from when it comes, a change of the flag at once")
    p = c.program("bd_resource_utilization")
    for q in c.paths_of(p, "bd_resource_utilization::Reporter::new", Config(opaque=[])):
        if q.kind == "ret":
            r = n(q.ret)
            c.ob("reports", re.search(r"is_enabled:Watch::read_mark_update\([^{}]*ResourceUtilizationEnabledFlag[^{}]*\)", r) or re.search(r"is_enabled:Watch::read_mark_update", r), q, f"begins as {r[:200]}")
            c.ob("reports", re.search(r"reporting_interval:None", r), q, f"begins as {r[:300]}")
    seen = set()
    for q, rs in run(c, "reports", "bd_resource_utilization", "Reporter"):
        c.ob("reports", ask(q, r"self\.reporting_interval is Some") is True or interval(q, r"self\.reporting_interval_rate", True), q, f"the first interval: {evs(q)[:3]}")
        for i in rs:
            why, did = woken(i)
            if re.fullmatch(rf"Interval::tick\({S}\.reporting_interval\?Some\.0\)", why or ""):
                c.ob("reports", did == ["Target::tick(self.target)"] and ask(i, rf"{S}\.is_enabled") is True and keeps(i, "is_enabled"), i, f"a tick does {did} with {facts(i)}")
                seen.add("tick")
            elif why == "Watch::changed(self.reporting_interval_flag)":
                c.ob("reports", interval(i, r"Watch::read(_mark_update)?\(self\.reporting_interval_flag\)(#\d+)?", False) and left(i, "reporting_interval").startswith("Some(") and keeps(i, "is_enabled"), i, f"a new interval: {did}")
                seen.add("interval")
            elif why == "Watch::changed(self.is_enabled_flag)":
                c.ob("reports", re.fullmatch(r"Watch::read(_mark_update)?\(self\.is_enabled_flag\)(#\d+)?", left(i, "is_enabled")) and all(d.startswith("Watch::read") for d in did), i, f"the flag: {left(i, 'is_enabled')} {did}")
                seen.add("flag")
            else:
                c.ob("reports", False, i, f"woken by {why}")
        c.ob("reports", seen == {"tick", "interval", "flag"}, q, f"met only {seen}")


def replay(c):
    c.rule("screens", "a screen is asked for at each tick of the interval while they are on; changes of interval and flags take effect when they come")
    c.rule("screenshots", "a screenshot asked for is taken if screenshots are on and the one before has come back, and otherwise counted and left out; after one is taken the next waits until it has come back; asking never waits")
    p = c.program("bd_session_replay")
    seen = set()
    for q, rs in run(c, "screens", "bd_session_replay", "Recorder"):
        c.ob("screens", ask(q, r"self\.reporting_interval is Some") is True or interval(q, r"self\.reporting_interval_rate", True), q, f"the first interval: {evs(q)[:3]}")
        for i in rs:
            why, did = woken(i)
            why = why or ""
            on, ready, per = "is_capture_screenshots_enabled", "is_ready_to_capture_screenshot", "is_periodic_reporting_enabled"
            if re.fullmatch(rf"Interval::tick\({S}\.reporting_interval\?Some\.0\)", why):
                c.ob("screens", did == ["Target::capture_screen(self.target)"] and ask(i, rf"{S}\.{per}") is True and keeps(i, on, ready, per), i, f"a tick does {did} with {facts(i)}")
                seen.add("tick")
            elif why == "Watch::changed(self.reporting_interval_rate_flag)":
                c.ob("screens", interval(i, r"Watch::read(_mark_update)?\(self\.reporting_interval_rate_flag\)(#\d+)?", False) and left(i, "reporting_interval").startswith("Some(") and keeps(i, on, ready, per), i, f"a new interval: {did}")
                seen.add("interval")
            elif re.fullmatch(r"Watch::changed\(self\.(is_periodic_reporting_enabled|is_capture_screenshots_enabled)_flag\)", why):
                f = why[len("Watch::changed(self."):-len("_flag)")]
                c.ob("screens", re.fullmatch(rf"Watch::read(_mark_update)?\(self\.{f}_flag\)(#\d+)?", left(i, f)) and keeps(i, ready, per if f == on else on) and all(d.startswith("Watch::read") for d in did), i, f"the flag {f}: {left(i, f)} {did}")
                seen.add(f)
            elif why == "Receiver::recv(self.next_screenshot_rx)":
                c.ob("screenshots", left(i, ready) == "true" and not did and keeps(i, on, per), i, f"one came back: {left(i, ready)} {did}")
                seen.add("back")
            elif why == "Receiver::recv(self.capture_screenshot_rx)":
                a, b = ask(i, rf"{S}\.{on}"), ask(i, rf"{S}\.{ready}")
                if a is True and b is True:
                    c.ob("screenshots", sorted(did) == ["Counter::inc(self.stats.success)", "Target::capture_screenshot(self.target)"] or sorted(re.sub(r"\((phi:)?G\.", "(self.", d) for d in did) == ["Counter::inc(self.stats.success)", "Target::capture_screenshot(self.target)"], i, f"a screenshot: {did}")
                    c.ob("screenshots", left(i, ready) == "false" and keeps(i, on, per), i, f"after a screenshot: {left(i, ready)}")
                else:
                    c.ob("screenshots", False in (a, b), i, f"whether a screenshot may be taken is not asked: {facts(i)}")
                    w = {"disabled"} if a is False and b is None else {"not_ready"} if b is False and a is None else {"disabled", "not_ready"} if a is b is False else {"disabled"} if a is False else {"not_ready"}
                    c.ob("screenshots", len(did) == 1 and any(re.fullmatch(rf"Counter::inc\({S}\.stats\.{x}\)", did[0]) for x in w) and keeps(i, on, ready, per), i, f"a screenshot is left out: {did}")
                seen.add(("shot", a and b))
            else:
                c.ob("screens", False, i, f"woken by {why}")
        c.ob("screens", {"tick", "interval", "is_periodic_reporting_enabled", "is_capture_screenshots_enabled", "back", ("shot", True), ("shot", False)} <= seen, q, f"met only {seen}")
    for q in c.paths_of(p, "bd_session_replay::Recorder::new", Config(opaque=["Stats::new$"])):
        if q.kind != "ret":
            continue
        r = n(q.ret)
        c.ob("screenshots", "is_ready_to_capture_screenshot:true" in r, q, "begins not ready")
        caps = [n(e.args[0]) for e in q.trace if re.match(r"mpsc::channel\(|bounded::channel\(|channel\(|\w+::channel\(", repr(e))]
        c.ob("screenshots", caps == ["1", "1"], q, f"channels of {caps}")
        m = re.search(r"CaptureScreenshotHandler\{capture_screenshot_tx:([^,{}]*),channel_full:(?:clone\()?Stats::new\(\$3\)(?:#\d+)?\.channel_full\)?\},ScreenshotLogInterceptor\{next_screenshot_tx:([^,{}]*),received:", r)
        rx = re.search(r"capture_screenshot_rx:([^,{}]*)[,}]", r), re.search(r"next_screenshot_rx:([^,{}]*)[,}]", r)
        c.ob("screenshots", m and all(rx) and [re.sub(r"\.[01]$", "", x) for x in (m.group(1), m.group(2))] == [re.sub(r"\.[01]$", "", x.group(1)) for x in rx] and len({m.group(1), m.group(2)}) == 2, q, f"the ends do not belong together: {r[-400:]}")
    for q in c.paths_of(p, "bd_session_replay::CaptureScreenshotHandler::capture_screenshot", Config(opaque=[])):
        ok = ask(q, r"Sender::try_send\(self\.capture_screenshot_tx,\(\)\)(#\d+)? is Ok")
        c.ob("screenshots", q.kind == "ret" and ok is not None and evs_all(q) == ["Sender::try_send(self.capture_screenshot_tx, ())"] + ([] if ok else ["Counter::inc(self.channel_full)"]), q, f"asking does {evs_all(q)}")
    f = [x for x in p.by_id.values() if re.fullmatch(r"bd_session_replay::<ScreenshotLogInterceptor as bd_log_primitives::LogInterceptor>::process", x.id)]
    if len(f) != 1:
        raise Anchor(f"{len(f)} interceptors")
    for q in c.paths_of(p, f[0], Config(opaque=["handle_unexpected"])):
        fs = facts(q)
        kind = [v for k, v in fs.items() if re.fullmatch(r"\$3(\.0)?==(1|Replay)|(1|Replay)==\$3(\.0)?", k)]
        text = [v for k, v in fs.items() if "Screenshot captured" in k or re.fullmatch(r".*as_str\(\$4\)(#\d+)? is Some", k)]
        got = [e for e in q.trace if re.match(r"Sender::try_send\(self\.next_screenshot_tx", n(e))]
        if got:
            c.ob("screenshots", kind == [True] and text and all(text) and len([e for e in q.trace if n(e) == "Counter::inc(self.received)"]) == 1, q, f"taken for a screenshot: {fs}")
        else:
            c.ob("screenshots", False in kind or False in text, q, f"not taken for a screenshot: {fs}")


def evs_all(q):
    return [n(e) for e in q.trace if not re.match(NOISE, repr(e))]


GROUPS = [events, utilization, replay]
FLOORS = {"events": 8, "reports": 8, "screens": 10, "screenshots": 10}
