"""Times: conversions lose nothing they need not lose, and rounding goes the way it says."""
from rules import *
from c46 import n

T = "bd_time::"
NOW = r"Instant::now\(\)(#\d+)?"
D = r"Duration::unsigned_abs\({0}\)(?:#\d+)?"
SECS, NANO = r"OffsetDateTime::unix_timestamp\(self\)(?:#\d+)?", r"OffsetDateTime::nanosecond\(self\)(?:#\d+)?"
IV = r"Duration::whole_seconds\(\$2\)(?:#\d+)?"
REM = rf"num::rem_euclid\({SECS},{IV}\)(?:#\d+)?"


def fn(p, ty, tr, name):
    f = [x for x in p.by_id.values() if x.id == f"{T}<{ty} as {tr}>::{name}"]
    if len(f) != 1:
        raise Anchor(f"{len(f)} definitions of {ty} {name}")
    return f[0]


def form(t):
    """a sum of the quantities a time is made of"""
    out = {}
    for k, v in (linear(t) or {"?": 1}).items():
        a = next((x for x, r in (("s", SECS), ("i", IV), ("r", REM)) if re.fullmatch(r, n(k))), n(k)) if k != "" else ""
        out[a] = out.get(a, 0) + v
    return {k: v for k, v in out.items() if v}


def at(q):
    """the instant answered, in whole seconds of the time"""
    r = q.rett
    m = re.fullmatch(r"(OffsetDateTime::from_unix_timestamp\(.*\))(#\d+)?\?Ok\.0", n(r))
    if not m:
        return None
    for s in subterms(r):
        if s.op == "call" and s.a[0].endswith("from_unix_timestamp"):
            return form(s.a[1][0])
    return None


def known(q, pat):
    v = {v for k, v in q.state.facts.items() if re.fullmatch(pat, n(k))}
    return v.pop() if len(v) == 1 else None


def refuses(q):
    """a panic that only an instant outside the calendar, or an interval below a second, can bring about"""
    return q.kind == "panic" and any(v is False and re.fullmatch(r"OffsetDateTime::from_unix_timestamp\(.*\) is Ok", n(k)) or v is True and re.fullmatch(rf"{IV}<0|0=={IV}", n(k)) for k, v in q.state.facts.items())


def rounding(c):
    c.rule("rounding", "rounding down gives the last multiple of the interval not after the time, rounding up the first not before it, both from the epoch")
    p = c.program("bd_time")
    O = ("time::OffsetDateTime", "OffsetDateTimeExt")
    for q in c.paths_of(p, fn(p, *O, "floor"), Config(opaque=[])):
        c.ob("rounding", refuses(q) or q.kind == "ret" and at(q) == {"s": 1, "r": -1}, q, f"down: {n(q.ret)}")
    seen = set()
    for q in c.paths_of(p, fn(p, *O, "ceil"), Config(opaque=[])):
        if refuses(q):
            continue
        whole, exact = known(q, rf"0=={REM}"), known(q, rf"0=={NANO}")
        if whole is True and exact is True:
            c.ob("rounding", q.kind == "ret" and (n(q.ret) == "self" or at(q) in ({"s": 1}, {"s": 1, "r": -1})), q, f"up, of a multiple: {n(q.ret)}")
            seen.add("multiple")
        else:
            c.ob("rounding", (whole is False or exact is False) and q.kind == "ret" and (at(q) == {"s": 1, "i": 1, "r": -1} or whole is True and at(q) == {"s": 1, "i": 1}), q, f"up: {n(q.ret)} with {[(n(k), v) for k, v in q.state.facts.items()]}")
            seen.add("between")
    c.ob("rounding", seen == {"multiple", "between"}, fn(p, *O, "ceil"), f"met only {seen}")


def conversions(c):
    c.rule("conversions", "a time or a length of time becomes, in each of its forms, the same one, as far as that form can say it")
    p = c.program("bd_time")
    O = ("time::OffsetDateTime", "OffsetDateTimeExt")
    SUB = rf"\(?Sub\(OffsetDateTime::unix_timestamp_nanos\(self\)(?:#\d+)?,Mul\({SECS},1000000000\)\)( as i32\))?|\(?{NANO}( as i32\))?"
    P = "protobuf::well_known_types::duration::Duration"
    one = {
        (*O, "into_proto"): rf"Some\(Timestamp\{{nanos:({SUB}),seconds:{SECS},special_fields:.*\}}\)",
        (*O, "unix_timestamp_ms"): rf"Add\((Div\({NANO},1000000\)|OffsetDateTime::millisecond\(self\)(#\d+)?),Mul\({SECS},1000\)\)",
        (P, "ProtoDurationExt", "to_std_duration_absolute"): r"Add::add\(Duration::from_secs\(num::unsigned_abs\(self\.seconds\)(#\d+)?\)(#\d+)?,Duration::from_nanos\(num::unsigned_abs\(self\.nanos\)(#\d+)?\)(#\d+)?\)(#\d+)?|Duration::new\(num::unsigned_abs\(self\.seconds\)(#\d+)?,num::unsigned_abs\(self\.nanos\)(#\d+)?\)(#\d+)?",
        (P, "ProtoDurationExt", "to_time_duration"): r"Add::add\(Duration::seconds\(self\.seconds\)(#\d+)?,Duration::nanoseconds\(self\.nanos\)(#\d+)?\)(#\d+)?|Duration::new\(self\.seconds,self\.nanos\)(#\d+)?",
        ("time::Duration", "ToProtoDuration", "into_proto"): r"Some\(Duration\{nanos:Duration::subsec_nanoseconds\(self\)(#\d+)?,seconds:Duration::whole_seconds\(self\)(#\d+)?,special_fields:.*\}\)",
        ("std::time::Duration", "ToProtoDuration", "into_proto"): r"Some\((self|(\w+::)*from\(self\)(#\d+)?)\)",
    }
    for key, want in one.items():
        for q in c.paths_of(p, fn(p, *key), Config(opaque=[])):
            c.ob("conversions", q.kind == "ret" and re.fullmatch(want, n(q.ret)), q, f"gives {n(q.ret)[:300]}")
    for q in c.paths_of(p, fn(p, P, "ProtoDurationExt", "to_std_duration_checked"), Config(opaque=[])):
        neg = [known(q, rf"self\.{x}<0") for x in ("seconds", "nanos")]
        good = "Some" in n(q.ret)[:5]
        c.ob("conversions", q.kind == "ret" and (good and neg == [False, False] and re.fullmatch("Some\\((" + one[(P, "ProtoDurationExt", "to_std_duration_absolute")] + ")\\)", n(q.ret)) or n(q.ret) == "None" and True in neg), q, f"gives {n(q.ret)[:200]} for {neg}")
    for q in c.paths_of(p, fn(p, "protobuf::well_known_types::timestamp::Timestamp", "TimestampExt", "to_offset_date_time"), Config(opaque=[])):
        ok = known(q, r"OffsetDateTime::from_unix_timestamp\(self\.seconds\)(#\d+)? is Ok")
        pos = known(q, r"TryInto::try_into\(self\.nanos\)(#\d+)? is Ok|self\.nanos>=0|0<=self\.nanos")
        sub = r"(TryInto::try_into\(self\.nanos\)(#\d+)?\?Ok\.0|\(self\.nanos as \w+\))" if pos else r"(default\('\w+'\)|0)"
        c.ob("conversions", ok is False and q.kind == "panic" or ok and pos is not None and re.fullmatch(rf"Add::add\(OffsetDateTime::from_unix_timestamp\(self\.seconds\)(#\d+)?\?Ok\.0,Duration::from_nanos\({sub}\)(#\d+)?\)(#\d+)?", n(q.ret)), q, f"gives {n(q.ret)[:200]}")


def waits(c):
    c.rule("waits", "what waits, ticks, or ends after a length of time does so after that length; a staggered start is within the first interval; the system's clock is the system's")
    p = c.program("bd_time")
    d = D.replace("{0}", "self")
    later = rf"Add::add\({NOW},{d}\)(#\d+)?"
    for name, want in {
        "sleep": rf"time::sleep\({d}\)(#\d+)?|time::sleep_until\({later}\)(#\d+)?",
        "interval": rf"time::interval\({d}\)(#\d+)?|time::interval_at\({NOW},{d}\)(#\d+)?",
        "interval_at": rf"time::interval_at\({later},{d}\)(#\d+)?",
        "timeout": rf"time::timeout\({d},\$2\)(#\d+)?|time::timeout_at\({later},\$2\)(#\d+)?",
        "add_tokio_now": later,
        "add_tokio_instant": rf"Add::add\(\$2,{d}\)(#\d+)?",
    }.items():
        for q in c.paths_of(p, fn(p, "time::Duration", "TimeDurationExt", name), Config(opaque=[])):
            c.ob("waits", q.kind == "ret" and re.fullmatch(want, n(q.ret)), q, f"{name} gives {n(q.ret)[:200]}")
    ms = r"TryInto::try_into\(Duration::whole_milliseconds\(self\)(?:#\d+)?\)(?:#\d+)?"
    for q in c.paths_of(p, fn(p, "time::Duration", "TimeDurationExt", "jittered_interval_at"), Config(opaque=[])):
        if q.kind == "panic":
            c.ob("waits", known(q, ms + " is Ok") is False, q, "gives up")
            continue
        rnd = rf"Rng::(gen_range|random_range)\(rand::\w+\(\)(#\d+)?,RangeInclusive\{{end:{ms}\?Ok\.0,exhausted:false,start:0\}}\)(#\d+)?"
        c.ob("waits", re.fullmatch(rf"time::interval_at\(Add::add\({NOW},Duration::from_millis\({rnd}\)(#\d+)?\)(#\d+)?,{d}\)(#\d+)?", n(q.ret)), q, f"staggered: {n(q.ret)[:300]}")
    for q in c.paths_of(p, fn(p, "SystemTimeProvider", "TimeProvider", "now"), Config(opaque=[])):
        c.ob("waits", re.fullmatch(r"OffsetDateTime::now_utc\(\)(#\d+)?", n(q.ret)), q, f"now is {n(q.ret)}")
    for q in c.paths_of(p, fn(p, "SystemTimeProvider", "TimeProvider", "sleep"), Config(opaque=[]), is_async=True):
        w = [n(e) for e in q.trace if e.kind == "await"]
        c.ob("waits", q.kind == "ret" and len(w) == 1 and re.fullmatch(rf"await:await\(time::sleep\({D.replace('{0}', chr(92) + '$2')}\)(#\d+)?\)", w[0]), q, f"sleeps for {w}")


GROUPS = [rounding, conversions, waits]
FLOORS = {"rounding": 5, "conversions": 10, "waits": 8}
