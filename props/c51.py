"""What is read from a buffer is uploaded in batches: every log once, in order, within the limits, and given up in the buffer only after its upload."""
from rules import *
from c46 import n, evs, ask, after, facts

M = "bd_logger::consumer::"
L = r"phi:self\.batch_builder\.logs"
B = r"phi:self\.batch_builder\.total_bytes"
SVC = r"await\(ServiceExt::ready\((phi:)?self\.log_upload_service\)(#\d+)?\)"
UUID = r"Tracked::upload_uuid\(\)(#\d+)?"
OPEN = dict(opaque=[], budget=80000)


def steps(q):
    """the rounds of the main loop: (round, values of what is carried, after it)"""
    for lp in q.loops():
        if lp.src is not None or not any(re.fullmatch(L, show(k)) for k in lp.vars) and "StreamedBufferUpload" not in q.fn.id:
            continue
        for k, (tr, st) in enumerate(lp.iters):
            yield Iter(q, tr, st), {n(v): n(a[1][k]) for v, a in lp.vars.items() if k in a[1]}
        return


def sends(q, logs, buffer):
    """the uploads of a round, and whether they are one, of these logs and for this buffer"""
    s = [n(e) for e in (q.events(True) if q.kind == "iter" else q.trace) if repr(e).startswith("Service::call(")]
    want = rf"Service::call\({SVC}, UploadRequest\{{log_upload:LogBatch\{{buffer_id:{buffer},logs:{logs}\}},uuid:{UUID}\}}\)"
    return s, len(s) == 1 and re.fullmatch(want, s[0]) is not None


def answered(q):
    """the position of the answer to the upload, in what the round does"""
    return [k for k, e in enumerate(q.trace) if repr(e).startswith("await:await(Service::call(")]


def val(v, name):
    """what is carried under the name, or nothing"""
    m = [x for k, x in v.items() if re.fullmatch(name, k)]
    return m[0] if m else None


def full(q, bytes_, count):
    """whether a limit is reached (asked), or None"""
    b = ask(q, rf"{bytes_}<Watch::read\((phi:)?self\.(batch_builder\.flags|feature_flags)\.max_match_size_bytes\)(#\d+)?")
    l = ask(q, rf"{count}<Watch::read\((phi:)?self\.(batch_builder\.flags|feature_flags)\.max_batch_size_logs\)(#\d+)?")
    if b is False or l is False:
        return True
    return False if b is True and l is True else None


def empty(q, count):
    e = ask(q, rf"0=={count}")
    if e is None:
        m = ask(q, rf"0<{count}")
        e = None if m is None else not m
    return e


def continuous(c):
    c.rule("read on", "each log read is added to the batch, once; a batch goes when it has as many logs or bytes as allowed, or at its deadline, which is set when it gets its first log and never moved while logs wait")
    c.rule("given up", "a batch is uploaded whole, for its buffer, and only when that was answered are exactly its logs given up in the buffer; on a shutdown none are")
    p = c.program("bd_logger")
    f = M + "ContinuousBufferUploader::consume_continuous_logs"
    READ = r"await\(CursorConsumer::read\((phi:)?self\.consumer\)(#\d+)?\)"
    D = r"phi:self\.flush_batch_deadline"
    TIME = rf"await:await\(time::sleep_until\({D}\?Some\.0\)(#\d+)?\)"
    STOP = r"await:await\(ComponentShutdown::cancelled\((phi:self\.shutdown|after_cancelled|self\.shutdown)\)(#\d+)?\)"
    ADV = r"CursorConsumer::advance_read_cursor\("
    qs = c.paths_of(p, f, Config(**OPEN), is_async=True)
    seen, ends = set(), set()

    def arm(q):
        """what the round woke up for, and its awaits"""
        aw = [n(e) for e in q.trace if repr(e).startswith("await:")]
        if not aw:
            return None, aw
        a = aw[0]
        return ("stop" if re.fullmatch(STOP, a) else "log" if re.fullmatch("await:" + READ, a) else "time" if re.fullmatch(TIME, a) else "flag" if re.match(r"await:await\(Watch::changed\(phi:self\.feature_flags\.max_\w+\)", a) else None), aw

    first = True
    for q in qs:
        if not c.ob("read on", q.kind == "ret", q, "uploading panics"):
            continue
        why, aw = arm(q)
        if n(q.ret).startswith("Err("):
            r = ask(q, READ + " is Ok")
            adv = [k for k, v in facts(q).items() if re.match(ADV, k) and k.endswith(" is Ok") and v is False]
            c.ob("read on", (why == "log" and r is False) or adv != [], q, f"uploading ends on an error for no reason: {n(q.ret)[:80]}")
            if why == "log" and r is False:
                c.ob("given up", not [e for e in q.trace if re.match("Service::call|" + ADV, repr(e))], q, "a read that failed uploads or gives up logs")
            ends.add("error")
            continue
        c.ob("read on", why == "stop" and len(aw) == 1 and n(q.ret) == "Ok(())", q, f"uploading ends although there is no shutdown: {aw}")
        ends.add("stop")
        if not first:
            continue
        first = False
        for i, v in steps(q):
            why, aw = arm(i)
            dl = ask(i, D + " is Some")
            if dl is None:
                o = ask(i, D + " is None")
                dl = None if o is None else not o
            if not c.ob("read on", why in ("log", "time", "flag") and dl is not None, i, f"a round begins for {aw[:1]}, deadline asked: {dl}"):
                continue
            tx = [n(e) for e in i.trace]
            c.ob("read on", any(re.match(r"ComponentShutdown::cancelled\(phi:self\.shutdown", x) for x in tx) and any(x.startswith("CursorConsumer::read(") for x in tx), i, "a round does not wait for logs and for a shutdown")
            c.ob("read on", not dl or any(re.fullmatch(rf"time::sleep_until\({D}\?Some\.0\)", x) for x in tx), i, "a round does not wait for the deadline")
            c.ob("read on", dl or why != "time", i, "a deadline passes that was not set")
            logs, count, size = L, rf"len\({L}\)", B
            if why == "log":
                if not c.ob("read on", ask(i, READ + " is Ok") is True, i, "a log is taken though reading failed"):
                    continue
                logs, count = rf"\[{L} \+\+ one\({READ}\?Ok\.0\)\]", rf"(Add\(len\({L}\),1\)|Add\(1,len\({L}\)\))"
                size = rf"(Add\(len\({READ}\?Ok\.0\),{B}\)|Add\({B},len\({READ}\?Ok\.0\)\))"
            em = False if why == "log" else empty(i, count)
            go = True if why == "time" else False if em is True else full(i, size, count)
            if not c.ob("read on", go is not None, i, f"whether the batch is full is not asked: {sorted(facts(i))}"):
                continue
            sent, right = sends(i, logs, r"self\.buffer_id")
            stop = [x for x in aw[1:] if re.fullmatch(STOP, x)]
            adv = [lp for lp in i.loops() if any(re.match(ADV, repr(e)) for tr, _ in lp.iters for e in tr)]
            loose = [x for x in tx if re.match(ADV, x)]
            nl, nb, nd = val(v, L), val(v, B), val(v, D)
            nl = L.replace("\\", "") if nl is None else nl
            if go:
                c.ob("read on", re.fullmatch(r"\[\]", nl) is not None and nb == "0", i, f"after a batch went, {nl[:80]} and {nb} bytes are left")
                c.ob("read on", nd == "None", i, f"after a batch went the deadline is {nd}")
                if stop:
                    c.ob("given up", not adv and not loose and not answered(i), i, "logs are given up though a shutdown came first")
                    seen.add((why, "stop"))
                    continue
                if not c.ob("given up", right and len(answered(i)) == 1, i, f"a batch ({why}) is uploaded as {sent}"):
                    continue
                src = [n(lp.src) for lp in adv if lp.src is not None]
                one = all(len([e for e in tr if re.match(ADV, repr(e))]) == 1 for lp in adv for tr, _ in lp.iters)
                c.ob("given up", len(adv) == 1 and one and not loose and len(src) == 1 and re.fullmatch(rf"Range\{{end:({count}|len\({logs}\)),start:0\}}|{logs}", src[0]) is not None, i, f"given up are {src}, not each log of the batch once")
                at = [k for k, e in enumerate(i.trace) if e.kind == "loop" and any(re.match(ADV, repr(x)) for lp in adv for tr, _ in lp.iters for x in tr) and k > 0 and re.match(r"LOOP", repr(e))]
                c.ob("given up", bool(at) and max(at) > answered(i)[0], i, "logs are given up before they are uploaded")
                seen.add((why, "sent"))
            else:
                c.ob("given up", not sent and not adv and not loose, i, "a batch that is not full goes, or logs are given up")
                c.ob("read on", re.fullmatch(logs, nl) is not None and (nb is None or re.fullmatch(size, nb) is not None), i, f"after a round the batch is {nl[:120]} of {nb}")
                some = True if why == "log" else None if em is None else not em
                if not c.ob("read on", some is not None, i, "whether logs wait is not asked"):
                    continue
                if some and not dl:
                    c.ob("read on", re.fullmatch(r"Some\((Add::add|Add)\(Instant::now\(\)(#\d+)?,Duration::from_millis\(Watch::read\(self\.feature_flags\.batch_deadline_watch\)(#\d+)?\)\)\)", nd or "") is not None, i, f"logs wait, and the deadline is {nd}")
                else:
                    keep = nd is None or re.fullmatch(D, nd) is not None or (not dl and nd == "None")
                    c.ob("read on", keep, i, f"the deadline moves to {nd}")
                seen.add((why, "wait"))
    c.ob("read on", seen >= {("log", "sent"), ("log", "wait"), ("log", "stop"), ("time", "sent"), ("time", "stop"), ("flag", "sent"), ("flag", "wait")}, f, f"cases not there: {seen}")
    c.ob("read on", ends == {"error", "stop"}, f, f"cases not there: {ends}")


def complete(c):
    c.rule("all of it", "a flush reads until nothing is left, leaves out only logs older than the window, which it counts, and uploads all others, in batches within the limits, for its buffer; it tells how many")
    p = c.program("bd_logger")
    f = M + "CompleteBufferUpload::run"
    READ = r"Consumer::try_read\((phi:)?self\.consumer\)(#\d+)?"
    LOG = READ + r"\?Ok\.0"
    T = r"phi:total_logs"
    ROOT = rf"\w+::root_as_log\({LOG}\)(#\d+)?"
    STAMP = rf"Log::timestamp\({ROOT}\?Ok\.0\)(#\d+)?"
    SEC = rf"OffsetDateTime::from_unix_timestamp\(Timestamp::seconds\({STAMP}\?Some\.0\)(#\d+)?\)"
    AT = rf"Add::add\({SEC}\?Ok\.0,Duration::nanoseconds\(Timestamp::nanos\({STAMP}\?Some\.0\)(#\d+)?\)\)"
    WIN = r"self\.lookback_window"
    seen, ends, first = set(), set(), True
    for q in c.paths_of(p, f, Config(**OPEN), is_async=True):
        if q.kind != "ret":
            # a time no clock can have
            c.ob("all of it", ask(q, SEC + " is Ok") is False, q, "a flush panics")
            continue
        ok = ask(q, READ + " is Ok")
        if not c.ob("all of it", ok is False, q, "a flush ends though there may be more to read"):
            continue
        s, right = sends(q, L, r"self\.buffer_id")
        done = ask(q, READ + r"\?Err\.0\?AbslStatus\.0 is Unavailable")
        if done is not True:
            c.ob("all of it", n(q.ret).startswith("Err(") and re.search(READ + r"\?Err\.0", n(q.ret)) is not None and not s, q, f"a flush whose reading failed ends with {n(q.ret)[:80]}")
            ends.add("error")
            continue
        em = empty(q, rf"len\({L}\)")
        c.ob("all of it", em is not None and (em is True and not s or em is False and right and len(answered(q)) == 1), q, f"at the end the batch (empty: {em}) is uploaded as {str(s)[:200]}")
        tot = re.fullmatch(r"Ok\((phi:\w+)\)", n(q.ret))
        c.ob("all of it", tot is not None, q, f"a flush tells {n(q.ret)[:60]}")
        ends.add(em)
        if not first or tot is None:
            continue
        first = False
        v0 = next((x for lp in q.loops() for k, x in lp.vars.items() if show(k) == tot.group(1)), None)
        c.ob("all of it", v0 is not None and [n(x) for x in v0[0]] == ["0"], q, "the count does not begin at none")
        for name, want in ((L, r"self\.batch_builder\.logs"), (B, r"self\.batch_builder\.total_bytes")):
            v0 = next((x for lp in q.loops() for k, x in lp.vars.items() if re.fullmatch(name, show(k))), None)
            c.ob("all of it", v0 is not None and all(re.fullmatch(want, n(x)) for x in v0[0]), q, "the batch is not the one there was")
        for i, v in steps(q):
            if not c.ob("all of it", ask(i, READ + " is Ok") is True and len([e for e in i.trace if repr(e).startswith("Consumer::try_read(")]) == 1, i, "a round does not read one log"):
                continue
            win = ask(i, WIN + " is Some")
            old = ask(i, rf"{AT}<{WIN}\?Some\.0")
            inc = [n(e) for e in i.events(True) if re.match(r"Counter::", repr(e))]
            s, right = sends(i, rf"\[{L} \+\+ one\({LOG}\)\]", r"self\.buffer_id")
            nl, nb, nt = val(v, L) or "phi:self.batch_builder.logs", val(v, B) or "phi:self.batch_builder.total_bytes", val(v, re.escape(tot.group(1))) or tot.group(1)
            if not c.ob("all of it", win is not None, i, "whether there is a window is not asked"):
                continue
            if win and old is True:
                c.ob("all of it", inc == ["Counter::inc(self.old_logs_dropped)"] and not s and re.fullmatch(L, nl) is not None and re.fullmatch(B, nb) is not None and nt == tot.group(1), i, f"an old log is not left out and counted: {inc} {nl[:60]} {nt}")
                seen.add("old")
                continue
            known = win is False or old is False or ask(i, ROOT + " is Ok") is False or ask(i, STAMP + " is Some") is False
            c.ob("all of it", known, i, "a log is taken without looking at its age")
            c.ob("all of it", not inc, i, f"a log that is uploaded is counted as left out: {inc}")
            c.ob("all of it", nt in (f"Add({tot.group(1)},1)", f"Add(1,{tot.group(1)})"), i, f"with a log the count is {nt}")
            count, size = rf"(Add\(len\({L}\),1\)|Add\(1,len\({L}\)\))", rf"(Add\(len\({LOG}\),{B}\)|Add\({B},len\({LOG}\)\))"
            go = full(i, size, count)
            if not c.ob("all of it", go is not None, i, f"whether the batch is full is not asked: {sorted(facts(i))}"):
                continue
            if go:
                c.ob("all of it", right and len(answered(i)) == 1 and nl == "[]" and nb == "0", i, f"a full batch is uploaded as {str(s)[:300]}, and then is {nl[:60]}, {nb}")
            else:
                c.ob("all of it", not s and re.fullmatch(rf"\[{L} \+\+ one\({LOG}\)\]", nl) is not None and re.fullmatch(size, nb) is not None, i, f"a log is taken, and the batch is {nl[:120]}, {nb}")
            seen.add("full" if go else "more")
    c.ob("all of it", seen == {"old", "full", "more"} and ends == {"error", True, False}, f, f"cases not there: {seen} {ends}")
    W = r"Watch::read\(\$2\.upload_lookback_window_feature_flag\)(#\d+)?"
    got = set()
    for q in c.paths_of(p, M + "CompleteBufferUpload::new", Config(opaque=[])):
        z = ask(q, rf"Duration::is_zero\({W}\)(#\d+)?")
        w = rf"Some\(Sub::sub\(OffsetDateTime::now_utc\(\)(#\d+)?,{W}\)\)" if z is False else "None"
        c.ob("all of it", z is not None and re.fullmatch(rf"CompleteBufferUpload\{{batch_builder:BatchBuilder\{{flags:\$2,logs:\[\],total_bytes:0\}},buffer_id:\$4,consumer:\$1,log_upload_service:\$3,lookback_window:{w},old_logs_dropped:\$5\}}", n(q.ret)) is not None, q, f"a flush (no window: {z}) begins as {n(q.ret)[:300]}")
        got.add(z)
    c.ob("all of it", got == {True, False}, M + "CompleteBufferUpload::new", f"cases not there: {got}")


def streamed(c):
    c.rule("at once", "each streamed log is uploaded by itself, and finished in the buffer only when that was answered; a shutdown ends it at any wait")
    p = c.program("bd_logger")
    f = M + "StreamedBufferUpload::start"
    READ = r"await\(RingBufferConsumer::read\((phi:)?self\.consumer\)(#\d+)?\)"
    FIN = r"RingBufferConsumer::finish_read\(self\.consumer\)(#\d+)?"
    STOP = r"await:await\(ComponentShutdown::cancelled\(.*\)(#\d+)?\)"
    first, ends = True, set()
    for q in c.paths_of(p, f, Config(**OPEN), is_async=True):
        if not c.ob("at once", q.kind == "ret", q, "streaming panics"):
            continue
        aw = [n(e) for e in q.trace if repr(e).startswith("await:")]
        fin = [e for e in q.trace if repr(e).startswith("RingBufferConsumer::finish_read(")]
        if n(q.ret).startswith("Err("):
            r = ask(q, READ + " is Ok")
            c.ob("at once", r is False and not fin or ask(q, FIN + " is Ok") is False, q, "streaming ends for no reason")
            ends.add(("error", r))
        else:
            c.ob("at once", aw != [] and re.fullmatch(STOP, aw[-1]) is not None and not fin and n(q.ret) == "Ok(())", q, f"streaming ends without a shutdown, or with the log finished: {aw}")
            ends.add(("stop", ask(q, READ + " is Ok")))
        if not first:
            continue
        first = False
        for i, v in steps(q):
            s, right = sends(i, rf"\[{READ}\?Ok\.0\]", "'streamed'")
            fin = [k for k, e in enumerate(i.trace) if repr(e).startswith("RingBufferConsumer::finish_read(")]
            c.ob("at once", ask(i, READ + " is Ok") is True and right, i, f"a log is uploaded as {str(s)[:200]}")
            c.ob("at once", len(fin) == 1 and ask(i, FIN + " is Ok") is True and len(answered(i)) == 1 and answered(i)[0] < fin[0], i, "a log is not finished, once, after its upload")
            ends.add("log")
    c.ob("at once", ends >= {("stop", None), ("stop", True), ("error", False), ("error", True), "log"}, f, f"cases not there: {ends}")


GROUPS = [continuous, complete, streamed]
FLOORS = {"read on": 120, "given up": 40, "all of it": 50, "at once": 8}
