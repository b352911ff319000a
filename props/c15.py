"""Runtime size: the CPU hint is honoured, and never yields an unusable runtime."""
from rules import *

R = "bd_rt"


def count(c):
    p = c.program(R)
    c.rule("hint", "a numeric CPU hint is used, rounded down to whole CPUs, and never below one")
    c.rule("fallback", "without a usable hint the host's own count is used, between one and the pool limit, or one if unknown")
    qs = c.paths_of(p, f"{R}::num_cpus")
    ENV = ("call", "std::env::var")
    for q in qs:
        e = q.ev(r"^env::var\(|^env::var_os\(")
        c.ob("hint", q.kind == "ret" and len(e) == 1 and show(e[0].args[0]) == "'NUM_CPUS'", q, "the hint is not read, or reading it can panic")
        h = q.ev(r"^thread::available_parallelism\(")
        c.ob("fallback", len(h) <= 1, q, "the host is asked twice")
    vals = ["0.25", "0.999", "1.0", "1.5", "1.999", "2.0", "2.9", "3.5", "8.0", "15.99", "64.0", "4096.0"]
    for v in vals:
        outcome(c, p, qs, "hint", ok(mk("float", v)), None, {max(1, int(float(v)))}, f"a hint of {v}")
    outcome(c, p, qs, "hint", ok(mk("float", "-3.5")), ok(integer(5)), {1, 5}, "a hint of -3.5")
    for n in (ok(integer(1)), ok(integer(2)), ok(integer(16)), ok(integer(4095)), ok(integer(4096)), ok(integer(9999)), err(UNIT)):
        w = min(4096, n.a[3][0].a[0]) if known_variant(n) == "Ok" else 1
        for h, txt in (("missing", "no hint"), (err(UNIT), "a non-numeric hint"), (ok(mk("float", "nan")), "a NaN hint"), (ok(mk("float", "inf")), "an infinite hint")):
            outcome(c, p, qs, "fallback", h, n, {w}, f"{txt} and a host count of {w}")


def outcome(c, p, qs, rule, hint, host, want, what):
    """The count computed when the hint and the host's own count are these."""
    hit = 0
    for q in qs:
        m = {}
        for e in q.events():
            if e.res is None:
                continue
            if re.match(r"^env::var", repr(e)):
                m[e.res] = err(UNIT) if hint == "missing" else ok(string("the hint"))
            elif re.match(r"^thread::available_parallelism", repr(e)) and host is not None:
                m[e.res] = host
        for k in list(q.state.facts) + ([q.rett] if q.rett is not None else []):
            for x in subterms(k):
                if x.op == "call" and x.a[0].split("::")[-1] in ("parse", "from_str") and hint != "missing":
                    m[x] = hint
        h = holds(c, p, list(q.state.facts.items()), m)
        if h is False:
            continue
        hit += 1
        v = fold(c, p, q.rett, m) if q.rett is not None else UNIT
        c.ob(rule, h is True and v.op == "int" and v.a[0] in want, q, f"{what} gives {show(v)[:60]}")
    c.ob(rule, hit > 0, f"{R}::num_cpus", f"{what} gives nothing")


def build(c):
    p = c.program(R)
    c.rule("memo", "the count used is the one computed by the hint rule")
    st = c.fn(p, f"{R}::NUM_CPUS")
    c.ob("memo", "bd_rt::num_cpus" in json.dumps(st.blocks) and json.dumps(st.blocks).count("LazyLock") >= 1, st, "computed otherwise")
    c.rule("runtime", "the runtime has I/O and timers, is single-threaded exactly for one CPU, and otherwise has one worker per CPU")
    qs = c.paths_of(p, f"{R}::new_runtime", Config(opaque=[r"^bd_rt::num_cpus$"]))
    for q in qs:
        b = q.ev(r"^Builder::build\(", deep=False)
        c.ob("runtime", len(b) == 1 and (q.has(r"^Builder::enable_all\(") or q.has(r"^Builder::enable_io\(") and q.has(r"^Builder::enable_time\(")), q,
             "built without I/O or timers")
        good = q.decide(mk("is", b[0].res, "Ok")) if b else None
        c.ob("runtime", q.kind == "ret" and bool(b) and (q.rett is b[0].res or known_variant(q.rett) == {True: "Ok", False: "Err"}.get(good)), q,
             "a failure to build is not reported as such")
    for n in (1, 2, 3, 4, 7, 64, 4096):
        hit = 0
        for q in qs:
            m = {sym("static:bd_rt::NUM_CPUS"): integer(n)}
            m |= {e.res: integer(n) for e in q.ev(r"^(\w+::)?num_cpus\(") if e.res is not None}
            h = holds(c, p, [(k, v) for k, v in q.state.facts.items() if any(x in subterms(k) for x in m) and "Builder::" not in show(k)], m)
            if h is False:
                continue
            hit += 1
            ct, mt = q.has(r"^Builder::new_current_thread\("), q.has(r"^Builder::new_multi_thread\(")
            w = q.ev(r"^Builder::worker_threads\(")
            if n == 1:
                c.ob("runtime", h is True and ct and not mt, q, "one CPU does not give the single-threaded runtime")
            else:
                c.ob("runtime", h is True and mt and not ct and len(w) == 1 and fold(c, p, w[0].args[1], m) is integer(n), q,
                     f"{n} CPUs do not give {n} worker threads")
        c.ob("runtime", hit > 0, f"{R}::new_runtime", f"no runtime for {n} CPUs")


GROUPS = [count, build]
FLOORS = {"hint": 8, "fallback": 6, "runtime": 5}
