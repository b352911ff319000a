"""What the SDK adds to logs by itself: traffic of the last minute, being offline, counts of logs."""
from rules import *
from c46 import n, lin
from c61 import m, asked, fn

L = "bd_logger::"
FROM = {"request_body_bytes_count": "_request_body_bytes_sent_count", "request_headers_bytes_count": "_request_headers_bytes_count",
        "response_body_bytes_count": "_response_body_bytes_received_count", "response_headers_bytes_count": "_response_headers_bytes_count"}
TYPES = {"Normal": 0, "Replay": 1, "Lifecycle": 2, "Resource": 3, "InternalSDK": 4, "Device": 6, "Span": 8}
NUM = "get_int_field_value"


def runs(c, rule, name, cfg=None, crate="bd_logger"):
    p = c.program(crate)
    out = []
    for q in c.paths_of(p, fn(p, name), cfg or Config(budget=60000)):
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{name} ends with {q.kind} {q.why}"):
            out.append(q)
    return out


def heap(q):
    return {m(k): v for k, v in dict(q.x.heap()).items()}


def kind_is(q, name):
    """whether the log is of a kind; None when that was not asked and does not follow"""
    v = {k: asked(q, rf"\$3(\.0)?==({k}|LogType\({k}\))") for k in TYPES.values()}
    mine = v.pop(TYPES[name])
    if mine is None and any(x is True for x in v.values()):
        return False
    return mine


def plain(q):
    return asked(q, r"\$4 is String")


def empty(q):
    v = asked(q, r"0==len\(\$4\?String\.0\)|len\(\$4\?String\.0\)==0|\$4\?String\.0==''|''==\$4\?String\.0")
    return v


def response(q):
    return asked(q, r"\$4\?String\.0=='HTTPResponse'|'HTTPResponse'==\$4\?String\.0")


def pushed(q):
    """the fields added to a log, in order: [(name, value, kind)], None when something else was done to them"""
    t = heap(q).get("$5")
    if t is None:
        return []
    x = m(t)
    g = re.fullmatch(r"\[\$5((?: \+\+ one\(.*\))+)\]", x)
    if not g:
        return None
    out = []
    for part in re.split(r" \+\+ (?=one\()", g.group(1))[1:]:
        h = re.fullmatch(r"one\(AnnotatedLogField\{field:LogField\{key:'(\w+)',value:(.*)\},kind:(\w+)\}\)", part)
        if not h:
            return None
        v = h.group(2)
        w = re.fullmatch(r"(?:String\()?(.*?)\)?", v) if v.startswith("String(") else None
        out.append((h.group(1), w.group(1) if w else v, h.group(3)))
    return out


def traffic(c):
    c.rule("response", "a response log, and no other, adds the sizes it says to the latest sample; one with a status code tells that the network is there")
    c.rule("minute", "an empty resource log, and no other, gets the sums of the samples of the last minute, once a minute has been seen")
    c.rule("number", "a number of a log is that of the first field of that name that is a number, unless the value is no text")
    A = "<network::HTTPTrafficDataUsageTracker as bd_log_primitives::LogInterceptor>::process"
    G = r"lock\(self\.container\)"
    one = 0
    for q in runs(c, "response", L + A, Config(opaque=[NUM, "get_summary_sample"], budget=60000)):
        text, span, res, emp, hr = plain(q), kind_is(q, "Span"), kind_is(q, "Resource"), empty(q), response(q)
        calls = [m(e) for e in q.events() if re.match(r"(HTTP\w+::|MetricsContainer::|NetworkQualityProvider::|network::)", repr(e))]
        ours = [x for x in calls if not x.startswith("MetricsContainer::get_summary_sample")]
        is_response = text is not False and span is True and hr is True and text is True
        is_tick = text is True and res is True and emp is True
        if is_response:
            at = heap(q)
            code = asked(q, rf"network::{NUM}\(\$5,'_status_code'\) is Some")
            told = [x for x in calls if x.startswith("NetworkQualityProvider::")]
            want = ["NetworkQualityProvider::set_network_quality(self.network_quality_provider,Online)"] if code else []
            c.ob("response", code is not None and [x.replace(", ", ",") for x in told] == want, q, f"with a status code: {code}, tells {told}")
            there = asked(q, rf"slice::last_mut\({G}\.samples\) is Some|Option::.*")
            s = [v for k, v in at.items() if re.fullmatch(rf"slice::last_mut\({G}\.samples\)\?Some\.0", k)]
            if there is False:
                c.ob("response", not s, q, "changes a sample there is not")
                continue
            added = {}
            for f, name in FROM.items():
                has = asked(q, rf"network::{NUM}\(\$5,'{name}'\) is Some")
                S = "slice::last_mut(lock(self.container).samples)?Some.0." + f
                V = f"network::{NUM}($5,'{name}')?Some.0"
                now = q.e.resolve(q.state, fld(s[0], f)) if s else None
                got = {re.sub(r"#\d+", "", k): v for k, v in lin(now).items()} if now is not None else {S: 1}
                c.ob("response", has is not None and got == ({S: 1, V: 1} if has else {S: 1}), q, f"{f}: becomes {got}, named: {has}")
            others = set(re.findall(r"(\w+):=", m(s[0]))) - set(FROM) if s else set()
            c.ob("response", not others and pushed(q) == [], q, f"also changes {sorted(others)} {pushed(q)}")
            locks = [repr(e) for e in q.events() if e.kind in ("lock", "unlock") or re.match("lock:|unlock:", repr(e))]
            c.ob("response", len(locks) == 2, q, f"the samples are taken {locks}")
            one += 1
        elif is_tick:
            D = r"MetricsContainer::get_summary_sample\(lock\(self\.container\)\)"
            there = asked(q, D + " is Some")
            got = pushed(q)
            want = []
            if there:
                d = "MetricsContainer::get_summary_sample(lock(self.container))?Some.0."
                both = lambda k: rf"to_string\((sum\(\[{{0}},{{1}}\]\)|sum\(\[{{1}},{{0}}\]\)|Add\({{0}},{{1}}\)|Add\({{1}},{{0}}\))\)".replace("{0}", re.escape(f"{d}{k}_body_bytes_count")).replace("{1}", re.escape(f"{d}{k}_headers_bytes_count"))
                want = []
                for k in ("request", "response"):
                    want += [(f"_{k}_bytes_per_min_count", both(k))]
                    want += [(f"_{k}_{w}_bytes_per_min_count", re.escape(f"to_string({d}{k}_{w}_bytes_count)")) for w in ("body", "headers")]
            ok = got is not None and there is not None and len(got) == len(want) and all(any(a == k and re.fullmatch(v, b) and o == "Ootb" for a, b, o in got) for k, v in want)
            c.ob("minute", ok and not ours and len(calls) == 1, q, f"adds {got} {ours}")
        else:
            sure = text is False or (span is False or hr is False or span is None and hr is None and kind_is(q, "Resource")) and (res is False or emp is False)
            c.ob("response", sure and not calls and pushed(q) == [] and not q.heap("samples|container"), q, f"another log, but {calls[:3]} {pushed(q)}")
    c.ob("response", one >= 2, None, "no response log is counted")
    for q in runs(c, "minute", L + "network::MetricsContainer::get_summary_sample"):
        NOW = "TimeProvider::now(self.time_provider)"
        AGE = r"Instant::(?:saturating_)?duration_since\(TimeProvider::now\(self\.time_provider\),item\(self\.samples\)\.started_at\)"
        me = heap(q).get("self")
        after = q.e.resolve(q.state, fld(me, "samples")) if me is not None else None
        s = m(after) if after is not None else ""
        KEPT = rf"\[each self\.samples: \{{!NumericalDuration::minutes\(1\)<{AGE} => one\(item\(self\.samples\)\)\}}"
        NEW = re.escape("one(MetricsSample{" + ",".join(sorted([f"{k}:0" for k in FROM] + ["started_at:" + NOW])) + "})")
        c.ob("minute", re.fullmatch(rf"{KEPT} \+\+ {NEW}\]", s), q, f"the samples become {s[:400]}")
        K = rf"{KEPT}\]"
        less = asked(q, rf"len\({K}\)<len\(self\.samples\)")
        same = asked(q, rf"len\({K}\)==len\(self\.samples\)|len\(self\.samples\)==len\({K}\)")
        gone = less if less is not None else None if same is None else not same
        r = q.rett
        if gone:
            okr = r.op == "agg" and m(r).startswith("Some(")
            v = fld(downcast(r, "Some"), "0") if okr else None
            for f in FROM:
                x = q.e.resolve(q.state, fld(v, f)) if okr else None
                c.ob("minute", okr and total(q, x, f, K), q, f"{f} of the last minute is {m(x)[:200] if okr else m(r)[:200]}")
        else:
            c.ob("minute", gone is False and r is NONE or gone is False and m(r) == "None", q, f"a minute has passed: {gone}, gives {m(r)[:200]}")
    for q in runs(c, "number", L + "network::" + NUM):
        IT = r"item\(\$1\)\.field\."
        own = [lp for lp in (q.e.loops[e.extra] for e in q.trace if e.kind == "loop")]
        c.ob("number", len(own) == 1 and own[0].src is not None and m(own[0].src) == "$1", q, "not the fields of the log in their order")
        for i in iterations(q):
            named, txt, num = asked(i, rf"\$2=={IT}key|{IT}key==\$2"), asked(i, IT + "value is String"), asked(i, rf"str::parse\({IT}value\?String\.0\) is Ok")
            c.ob("number", named is False or num is False, i, "a field of that name that is a number is passed over")
        r = m(q.rett)
        named, txt, num = asked(q, rf"\$2=={IT}key|{IT}key==\$2"), asked(q, IT + "value is String"), asked(q, rf"str::parse\({IT}value\?String\.0\) is Ok")
        if r == "None":
            c.ob("number", named is None or named is True and txt is False, q, "no number though the field is one")
        else:
            c.ob("number", r == "Some(str::parse(item($1).field.value?String.0)?Ok.0)" and named is True and num is True, q, f"the number is {r[:200]}")


def total(q, x, field, src):
    if re.fullmatch(rf"sum\(\[each {src}: \{{one\(item\({src}\)\.{field}\)\}}\]\)", m(x)):
        return True
    for lp in q.loops():
        for k, (before, after) in lp.vars.items():
            if k == x and lp.src is not None and re.fullmatch(src, m(lp.src)):
                s = m(lp.src)
                want = {m(k): 1, f"item({s}).{field}": 1}
                return [m(b) for b in before] == ["0"] and q.whole(lp) and all({re.sub(r"#\d+", "", a): v for a, v in lin(after[j]).items()} == want for j in range(len(lp.iters)))
    return False


def quality(c):
    c.rule("offline", "a log says the network is away exactly when it is known to be, unless the log is a resource, replay or internal one")
    c.rule("known", "what is known of the network is what was last told, and nothing at first")
    A = "<network::NetworkQualityInterceptor as bd_log_primitives::LogInterceptor>::process"
    for q in runs(c, "offline", L + A):
        away = asked(q, r"NetworkQualityProvider::get_network_quality\(self\.network_quality_provider\) is Offline")
        skip = [kind_is(q, k) for k in ("Resource", "Replay", "InternalSDK")]
        got = pushed(q)
        want = [("_network_quality", "'offline'", "Ootb")]
        if got == want:
            c.ob("offline", away is True and skip == [False] * 3, q, f"says offline: known {away}, kinds {skip}")
        else:
            c.ob("offline", got == [] and (True in skip or away is False), q, f"says {got}: known {away}, kinds {skip}")
    p = c.program("bd_api", "bd_network_quality")
    N = "bd_api::<api::SimpleNetworkQualityProvider as bd_network_quality::NetworkQualityProvider>::"
    for q in runs(c, "known", N + "get_network_quality", crate="bd_api"):
        c.ob("known", re.fullmatch(r"lock\(self\.network_quality\)", m(q.rett)), q, f"known is {m(q.rett)[:150]}")
    for q in runs(c, "known", N + "set_network_quality", crate="bd_api"):
        at = {k: m(v) for k, v in heap(q).items()}
        c.ob("known", at == {"lock(self.network_quality)": "$2"}, q, f"what was told becomes {at}")
    for q in runs(c, "known", "bd_api::<api::SimpleNetworkQualityProvider as std::default::Default>::default", crate="bd_api"):
        c.ob("known", re.search(r"network_quality:(RwLock::new\()?Unknown\)?", m(q.rett)), q, f"at first {m(q.rett)[:150]}")


def counts(c):
    c.rule("counted", "every log is counted once, with all logs and with those of its kind")
    c.rule("told", "the counts go out with the first empty resource log once that is turned on; the running ones then start again, the totals do not")
    A = "<internal_report::Reporter as bd_log_primitives::LogInterceptor>::process"
    GROUP = {"device": "Device", "internal": "InternalSDK", "lifecycle": "Lifecycle", "network": "Span", "normal": "Normal", "replay": "Replay", "resource": "Resource"}
    S = "lock(self.state)."
    for q in runs(c, "counted", L + A):
        at = heap(q)
        st = at.get("lock(self.state)")
        if not c.ob("counted", st is not None, q, "a log is not counted"):
            continue
        sent = pushed(q)
        on = asked(q, r"Watch::read\(self\.is_enabled_flag\)")
        tick = plain(q) is True and kind_is(q, "Resource") is True and empty(q) is True and on is True
        no = plain(q) is False or kind_is(q, "Resource") is False or empty(q) is False or on is False
        want = {}
        for g, k in list(GROUP.items()) + [("", None)]:
            mine = True if k is None else kind_is(q, k)
            # a kind follows to be another once one is known
            pre = g + "_" if g else ""
            for suf in ("logs_count", "logs_total_count"):
                now = q.e.resolve(q.state, fld(st, pre + suf))
                was = {S + pre + suf: 1}
                plus = {**was, "": 1} if mine else was
                got = {re.sub(r"#\d+", "", a): v for a, v in lin(now).items()}
                if tick and suf == "logs_count":
                    c.ob("told", got == {}, q, f"{pre}{suf} goes on at {got}")
                else:
                    c.ob("counted", mine is not None and got == plus, q, f"{pre}{suf} becomes {got}, is of the kind: {mine}")
                want[f"_{pre}{suf}"] = plus
        if tick:
            ok = sent is not None and len(sent) == len(want) and {k for k, _, _ in sent} == set(want) and all(o == "Ootb" for _, _, o in sent)
            c.ob("told", ok, q, f"tells {[k for k, _, _ in sent or []]}")
            for k, v, _ in sent or []:
                w = want.get(k, {})
                base = next((a for a in w if a), "?")
                good = v in ([f"to_string({base})"] if "" not in w else [f"to_string(Add({base},1))", f"to_string(Add(1,{base}))"])
                c.ob("told", good, q, f"{k} tells {v[:150]}")
        else:
            c.ob("told", no and sent == [], q, f"tells {sent} with a log that is not for that")
        lk = [x for x in (repr(e) for e in q.events()) if re.match("lock:|unlock:", x)]
        c.ob("counted", len(lk) == 2 and lk[0].startswith("lock:") , q, f"the counts are taken {lk}")


GROUPS = [traffic, quality, counts]
FLOORS = {"response": 130, "minute": 6, "number": 8, "offline": 5, "known": 3, "counted": 100, "told": 18}
