"""Panic policy: forced abort ends the process after reporting; otherwise panicking does not end it."""
from rules import *

P = "bd_panic"


def hooks(c):
    p = c.program(P)
    c.rule("abort", "with forced abort the last hook installed runs the reporting hook and then ends the process with a failure code")
    c.rule("report-only", "without forced abort no installed hook ends the process")
    c.rule("reports", "a reporting hook is installed in every configuration, before it is wrapped")
    inst = r"^(panic::set_hook|BacktracePrinter::install)\("
    n = 0
    for q in c.paths_of(p, f"{P}::default"):
        force = q.decide(is_(sym("$1"), "BacktraceOnly", f"{P}::PanicType"))
        force = None if force is None else not force
        ins = q.ev(inst, deep=False)
        c.ob("reports", q.kind == "ret" and bool(ins), q, "no panic hook is installed")
        if force is None:
            c.ob("abort", False, q, "the panic type makes no difference")
            continue
        enders = [e for e in ins if e.path.endswith("set_hook") and ends(c, p, e.args[0])]
        if not force:
            c.ob("report-only", not enders, q, "a panic ends the process although only a backtrace was asked for")
            continue
        n += 1
        t = q.ev(r"^panic::take_hook\(", deep=False)
        good = bool(enders) and enders[-1] is ins[-1] and len(t) == 1
        if not c.ob("abort", good, q, "the hook in force does not end the process"):
            continue
        c.ob("reports", q.before(inst, r"^panic::take_hook\("), q, "the hook that is wrapped is not the reporting one")
        clos = enders[-1].args[0]
        body = p.fns.get(clos.a[0][1])
        for h in c.paths_of(p, body, Config(depth=24)):
            calls = [repr(e) for e in h.events()]
            prev = [n_ for n_, v in zip(clos.a[2], clos.a[3]) if v is t[0].res]
            c.ob("abort", len(prev) == 1 and any(re.match(rf"call:\$1\.{prev[0]}\(\$2", x) for x in calls), h, "the panic is not reported before the process ends")
    c.ob("abort", n > 0, f"{P}::default", "forced abort is never honoured")


def message(c):
    p = c.program(P)
    c.rule("message", "the single-line report is an error line that gives the text of a panic, however it was raised, and its location")
    for q in c.paths_of(p, f"{P}::default"):
        for ins in q.ev(r"^panic::set_hook\(", deep=False):
            clos = ins.args[0]
            if clos.op != "agg" or not isinstance(clos.a[0], tuple) or ends(c, p, clos):
                continue
            body = p.fns.get(clos.a[0][1])
            fs = p.reach(body)
            calls = [b[1] for f in fs for b in f.blocks if b[1][0] == "call"]
            names = [(t, json.dumps(t[1])) for t in calls]
            kinds = {re.sub(r"'\w+ ", "", g) for t, s in names if "downcast_ref" in s for g in re.findall(r'"ga": \["([^"]*)"', s)}
            if any("payload_as_str" in s for _, s in names):
                kinds |= {"&str", "std::string::String"}
            errs = [t for t, s in names if t[6] and re.search(r"^(log|tracing)::error", t[6])]
            loc = [s for _, s in names if re.search(r"PanicHookInfo[^\"]*::location|PanicInfo[^\"]*::location", s)]
            whole = any(re.search(r"Argument[^\"]*::new_(display|debug)", s) and "PanicHookInfo" in s for _, s in names)
            c.ob("message", whole or kinds >= {"&str", "std::string::String"}, body, f"only payloads of {sorted(kinds)} are reported")
            c.ob("message", bool(errs) and (whole or bool(loc)), body, "no error line, or without the location")


def ends(c, p, clos):
    """Every path of the hook ends the process with a failure code."""
    if clos.op != "agg" or not isinstance(clos.a[0], tuple):
        return False
    body = p.fns.get(clos.a[0][1])
    if body is None:
        return False
    hs = c.paths_of(p, body)
    codes = []
    for h in hs:
        codes.append(h.kind == "diverge" and re.search(r"process::(exit|abort)", str(h.why)) is not None)
        if codes[-1] and "exit" in h.why:
            codes[-1] = exit_code(body) not in (0, None)
    return bool(codes) and all(codes)


def exit_code(f):
    for b in f.blocks:
        t = b[1]
        if t[0] == "call" and "process::exit" in json.dumps(t[1]):
            v = t[2][0].get("k", {}).get("v")
            return int(v) if isinstance(v, (int, str)) and str(v).lstrip("-").isdigit() else None
    return 1


GROUPS = [hooks, message]
FLOORS = {"abort": 2, "report-only": 1, "reports": 2, "message": 2}
