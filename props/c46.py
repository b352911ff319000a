"""Ring buffers: records come out whole, in order and once, and what is being read or written is not overwritten."""
from rules import *
from engine import Event
from rules import linear

B = "bd_buffer::buffer::common_ring_buffer::"
L = B + "LockedData::<ExtraLockedData>::"
KEEP = [r"load_next_read_size$", r"start_reserve_common$", r"calculate_next_write_start$", r"intersect_reservation$"]  # each shown by its own rule to change nothing
FIELDS = {"next_write_start": "NW", "committed_write_start": "CW", "last_write_end_before_wrap": "LW", "next_read_start": "NR", "memory": "MEM"}


def close(x, i):
    d = 0
    for j in range(i, len(x)):
        d += (x[j] == "(") - (x[j] == ")")
        if d == 0:
            return j
    return len(x) - 1


def n(x):
    """names for what the rules speak of; a value a call changed is called after_<fn>"""
    x = x if isinstance(x, str) else show(x) if not hasattr(x, "name") else repr(x)
    x = x.replace("Weak::upgrade(self.buffer)?Some.0", "BUF").replace("lock(BUF.common_ring_buffer.locked_data)#1", "G")
    i = x.rfind("upd_by(")
    while i >= 0:
        j = close(x, i + 6)
        m = re.match(r"[\w:<>]*?(\w+)\(", x[i + 7:])
        x = x[:i] + "after_" + (m.group(1) if m else "call") + x[j + 1:]
        i = x.rfind("upd_by(")
    x = re.sub(r"phi:\*(?=after_\w+\b)", "", re.sub(r"phi:\*(self|\$1|G)(?!\w)", "G", x))
    for k, v in FIELDS.items():
        x = re.sub(rf"NonNull::as_(?:mut|ref)\((self|\$1|G|after_\w+)\.{k}\.0\)", lambda m: v if m.group(1) in ("self", "$1", "G") else f"{m.group(1)}.{v}", x)
        x = re.sub(rf"\b(self|\$1|G)\.{k}\.0\b", v, x)
    x = re.sub(r"(?<![\w.])(self|\$1|G)\.(next_cursor_read_start|extra_bytes_per_record|extra_locked_data|allow_overwrite|pending_total_data_loss_reset|shutdown_lock|wait_for_drain_data|lock_count|stats|readable)\b",
               lambda m: {"next_cursor_read_start": "CU", "extra_bytes_per_record": "EX", "extra_locked_data": "XL", "pending_total_data_loss_reset": "PENDING", "allow_overwrite": "OVERWRITE", "shutdown_lock": "DOWN"}.get(m.group(2), "G." + m.group(2)), x)
    return x.replace("LockedData::", "").replace("(mem::size_of() as u32)", "4").replace("mem::size_of()", "4").replace("IntrusiveQueueWithFreeList::", "Queue::")


def lin(t, k=1):
    """a number as sorted {atom: factor}"""
    out = {}
    r = linear(t)
    for a, v in ({"?": 1} if r is None else r).items():
        a = n(a)
        a, v = ("", 4 * v) if a == "4" else (a, v)
        out[a] = out.get(a, 0) + v * k
    return {a: v for a, v in out.items() if v}


def num(t):
    return " + ".join(f"{v}*{a}" if a else str(v) for a, v in sorted(lin(t).items()))


def spell(**kw):
    return " + ".join(f"{v}*{a}" if a else str(v) for a, v in sorted((k.replace("_1", ""), v) for k, v in kw.items()))


def at_least(parts):
    return tuple(sorted(parts.items()))


def order(facts):
    """everything known of how numbers compare, as 'this sum is not negative' (of whole numbers)"""
    out = set()
    for k, v in facts.items():
        if k.op == "lt":
            a, b = lin(k.a[0]), lin(k.a[1])
            d = {x: b.get(x, 0) - a.get(x, 0) for x in set(a) | set(b)} if v else {x: a.get(x, 0) - b.get(x, 0) for x in set(a) | set(b)}
            if v:
                d[""] = d.get("", 0) - 1
            out.add(at_least({x: y for x, y in d.items() if y}))
        elif k.op == "eq" and v:
            a, b = lin(k.a[0]), lin(k.a[1])
            d = {x: b.get(x, 0) - a.get(x, 0) for x in set(a) | set(b)}
            out.add(at_least({x: y for x, y in d.items() if y}))
            out.add(at_least({x: -y for x, y in d.items() if y}))
    return out


def ge(**kw):
    return at_least({{"one": ""}.get(k, k): v for k, v in kw.items()})


def sums(d):
    return at_least(d)


def holds(q, d):
    """whether sum >= 0 is known (True), known not to be (False), or not known"""
    o = order(q.state.facts)
    d = {k: v for k, v in d.items() if v}
    if at_least(d) in o:
        return True
    e = {k: -v for k, v in d.items()}
    e[""] = e.get("", 0) - 1
    return False if at_least({k: v for k, v in e.items() if v}) in o else None


def facts(q):
    return {n(k): v for k, v in q.state.facts.items()}


def ask(q, pat):
    for k, v in facts(q).items():
        if re.fullmatch(pat, k):
            return v
        if k.startswith("!") and re.fullmatch(pat, k[1:]):
            return not v
    return None


def evs(q, deep=False):
    return [n(e) for e in q.events(deep) if not re.match(r"LOOP|Counter::|lock:|unlock:", repr(e))]


def after(q):
    """what changed: {name: final value}"""
    return {n(k): n(v) for k, v in q.heap(".*").items() if n(k) != n(v)}


def cursor(q, arg):
    """which of the two reading positions is meant: True for the cursor"""
    v = ask(q, re.escape(arg) + " is No")
    w = ask(q, re.escape(arg) + " is Yes")
    return (not v) if v is not None else w


def reading(c):
    c.rule("advance", "after a record the next one read is the one that follows it: at its end, or at the start if it was the last before the wrap, or none if it was the last one committed; only reading without a cursor forgets the wrap and what was committed")
    p = c.program("bd_buffer")
    ways = set()
    for q in c.paths_of(p, L + "advance_next_read"):
        if q.kind != "ret":
            continue
        cu = cursor(q, "$3")
        if not c.ob("advance", cu is not None, q, "which position is meant is not asked"):
            continue
        R = "CU" if cu else "NR"
        h = after(q)
        me = h.pop("self", "")
        if me:
            m = re.fullmatch(r"self\{next_cursor_read_start:=(.*)\}", me)
            if not c.ob("advance", m is not None, q, f"something else changes: {me[:80]}"):
                continue
            h["CU"] = m.group(1)
        last = ask(q, rf"(CW\?Some\.0=={R}\?Some\.0|{R}\?Some\.0==CW\?Some\.0)")
        if last is None:
            last = {True: False}.get(ask(q, rf"(CW\?Some\.0!={R}\?Some\.0)"))
        if not c.ob("advance", last is not None, q, "whether this was the last one committed is not asked"):
            continue
        if last:
            c.ob("advance", h == ({R: "None"} if cu else {R: "None", "CW": "None"}), q, f"after the last record: {h}")
            ways.add((cu, "last"))
            continue
        some = ask(q, "LW is Some")
        wrap = False
        if some:
            d = {"$2": 1, f"{R}?Some.0": 1, "": -1, "LW?Some.0": -1}
            eq = [(k, v) for k, v in q.state.facts.items() if k.op == "eq" and (lambda a, b: {x: y for x, y in ((x, a.get(x, 0) - b.get(x, 0)) for x in set(a) | set(b)) if y})(lin(k.a[0]), lin(k.a[1])) in (d, {x: -y for x, y in d.items()})]
            if not c.ob("advance", len(eq) == 1, q, "whether this was the last one before the wrap is not asked"):
                continue
            wrap = eq[0][1]
        elif not c.ob("advance", some is not None, q, "whether there is a wrap is not asked"):
            continue
        if wrap:
            c.ob("advance", h == ({R: "Some(0)"} if cu else {R: "Some(0)", "LW": "None"}), q, f"after the last record before the wrap: {h}")
        else:
            t = [k for k in h]
            c.ob("advance", h in ({R: f"Some(Add($2,{R}?Some.0))"}, {R: f"Some(Add({R}?Some.0,$2))"}), q, f"after a record: {h}")
        ways.add((cu, wrap, some))
    c.ob("advance", len(ways) == 8, c.fn(p, L + "advance_next_read"), f"the ways through are {sorted(map(str, ways))}")
    c.rule("committed", "a commit makes its record the last one committed, and the next to read where there was none; who waits for one is woken")
    for q in c.paths_of(p, L + "advance_next_commited_write_start"):
        nr, cu = ask(q, "NR is Some"), ask(q, "CU is Some")
        h = after(q)
        c.ob("committed", q.kind == "ret" and nr is not None and cu is not None, q, "whether there is something to read is not asked")
        e = {"CW": "Some($3.start)"}
        if nr is False:
            e["NR"] = "Some($3.start)"
        if cu is False:
            e["self"] = "self{next_cursor_read_start:=Some($3.start)}"
        c.ob("committed", h == e, q, f"after a commit: {h}")
        w = [e for e in evs(q) if e == "Condvar::notify_all($2.data_available)"]
        c.ob("committed", len(w) == (0 if nr and cu else 1) or w and nr and cu, q, "who waits for data is not woken")
    for q in c.paths_of(p, L + "finish_commit_common", Config(opaque=[r"extra_data$"])):
        if q.kind == "ret":
            c.ob("committed", any(re.match(r"Sender::send\w*\(G\.readable, true\)", e) for e in evs(q)), q, "that there is something to read is not told")
            x = [e for e in q.ev(r"^LockedData::extra_data\(")]
            c.ob("committed", len(x) == 1 and show(x[0].args[1]) == "$2.start" and q.ret.startswith("LockedData::extra_data("), q, "the space for extra data is another record's")
    c.rule("finished", "a record is passed once it was read, who waits for space or for everything to be read is woken, and a reset that was waiting is done; the waiting for everything to be read ends at the record that was last when it began")
    ways = set()
    skips = 0
    for q in c.paths_of(p, L + "finish_read_common", Config(pure=KEEP, opaque=[r"advance_next_read$", r"maybe_do_total_data_loss_reset$", r"load_next_read_size$"])):
        ev = [n(e) for e in q.trace]
        a = [e for e in ev if e.startswith("advance_next_read(")]
        c.ob("finished", q.kind == "ret" and a == ["advance_next_read(G, $3.size, No)"], q, f"the position moves by {a}")
        # a cursor's read keeps no reservation for a damaged record it went over: the position has to
        # pass those, each by its own size, before it can pass the one that was read
        at = [ask(q, "NR is Some"), ask(q, r"(\$3\.start==NR\?Some\.0|NR\?Some\.0==\$3\.start)"), ask(q, r"load_next_read_size\(G,No\)(#\d+)? is Ok")]
        c.ob("finished", at[0] is False or at[1] or at[2] is False, q, "the position moves by this record's size though it is at another record")
        for i in iterations(q):
            skips += 1
            c.ob("finished", [n(e) for e in i.trace if not n(e).startswith("LOOP")] in ([f"advance_next_read(G, Add({x}), No)" for x in ("load_next_read_size(G,No)?Ok.0,EX", "EX,load_next_read_size(G,No)?Ok.0")][k:k + 1] for k in (0, 1)), i, "a record that was gone over is not passed by its own size")
            c.ob("finished", ask(i, r"(\$3\.start==NR\?Some\.0|NR\?Some\.0==\$3\.start)") is False, i, "a record that was not gone over is passed")
        c.ob("finished", ev.count("Condvar::notify_all($2.next_read_complete)") == 1 and len([e for e in ev if e.startswith("maybe_do_total_data_loss_reset(")]) == 1, q, "who waits for space, or a waiting reset, is left waiting")
        D = r"(after_advance_next_read|\$1|G|self)\.wait_for_drain_data"
        w = ask(q, D + " is Some")
        cw = ask(q, D + r"\?Some\.0\.committed_write_start is Some")
        eq = ask(q, rf"\$3\.start=={D}\?Some\.0\.committed_write_start\?Some\.0|{D}\?Some\.0\.committed_write_start\?Some\.0==\$3\.start")
        done = w and (cw is False or eq)
        known = w is False or w and (cw is False or cw and eq is not None)
        if c.ob("finished", known, q, "whether someone waits for this record is not asked"):
            n_ = ev.count("Condvar::notify_all($2.drain_complete)")
            c.ob("finished", n_ == (1 if done else 0), q, "who waits for everything to be read is not woken" if done else "the waiting for everything to be read ends early")
            ways.add((w, cw, eq))
    c.ob("finished", skips > 0, c.fn(p, L + "finish_read_common"), "damaged records a cursor went over are never passed")
    c.ob("finished", len(ways) == 4, c.fn(p, L + "finish_read_common"), f"the ways through are {sorted(map(str, ways))}")
    for q in c.paths_of(p, L + "wait_for_drain"):
        rd = ask(q, r"call:\$1\.has_read_reservation_cb\(XL\)(#\d+)?")
        nr = ask(q, "NR is Some")
        w = [e for e in evs(q) if e.startswith("Condvar::wait($2.drain_complete")]
        c.ob("finished", q.kind == "ret" and len(w) == (1 if rd or nr else 0) and (bool(w) or rd is False and nr is False), q, "the wait for everything to be read happens, or ends, wrongly")
        if w:
            me = after(q).get("$1", "")
            c.ob("finished", "wait_for_drain_data:=Some(WaitForDrainData{committed_write_start:CW})" in me, q, f"what is waited for is {me[:100]}")


def room(c):
    c.rule("overlap", "two ranges overlap exactly if neither ends before the other begins; a record to be written touches what is in its place and what is in the gap it leaves at the end when it wraps")
    p = c.program("bd_buffer")

    def overlap(q, a, b):
        """(a ends before b, b ends before a) as known"""
        f = lambda x, y: holds(q, {y[0]: 1, x[0]: -1, x[1]: -1} if y[0] else {x[0]: -1, x[1]: -1})
        return f(a, b), f(b, a)
    for q in c.paths_of(p, B + "intersect"):
        x, y = overlap(q, ("$1.start", "$1.size"), ("$2.start", "$2.size"))
        c.ob("overlap", q.kind == "ret" and (q.ret == "true" and x is False and y is False or q.ret == "false" and (x or y)), q, f"with {x}, {y}: {q.ret}")
    ways = set()
    for q in c.paths_of(p, L + "intersect_reservation", Config(opaque=[r"common_ring_buffer::intersect$"])):
        i = q.ev(r"^common_ring_buffer::intersect\(")
        res = {"own": None, "gap": None}
        for e in i:
            ab = [q.e.resolve(q.state, a) for a in e.args]
            o = [a for a in ab if show(a) in ("$2.range", "$3")]
            v = q.truth(re.escape(show(e.res)))
            v = True if v is None and q.ret == show(e.res) else v
            if sorted(show(a) for a in ab) == ["$2.range", "$3"]:
                res["own"] = v if q.ret != show(e.res) else "ret"
            elif len(o) == 1 and show(o[0]) == "$3":
                g = next(a for a in ab if show(a) != "$3")
                s, z = num(fld(g, "start")), num(fld(g, "size"))
                c.ob("overlap", s == "1 + 1*$2.last_write_end_before_wrap?Some.0" and lin(fld(g, "size")) == {"": -1, "$2.last_write_end_before_wrap?Some.0": -1, "len(MEM)": 1}, q, f"the gap begins at {s} and is {z} long")
                res["gap"] = v if q.ret != show(e.res) else "ret"
            else:
                c.ob("overlap", False, q, f"the ranges compared are {[show(a)[:60] for a in ab]}")
        w = ask(q, r"\$2\.last_write_end_before_wrap is Some")
        ret = q.ret if q.ret in ("true", "false") else "ret"
        if res["own"] is True or res["gap"] is True:
            ok = ret == "true"
        elif "ret" in res.values():
            other = res["own"] if res["gap"] == "ret" else res["gap"]
            ok = ret == "ret" and (other is False or w is False)
        else:
            ok = ret == "false" and res["own"] is False and (w is False or res["gap"] is False)
        c.ob("overlap", q.kind == "ret" and ok, q, f"own place {res['own']}, gap {res['gap']}: {q.ret[:80]}")
        ways.add((str(res["own"]), str(res["gap"]), w))
    c.ob("overlap", len(ways) >= 3, c.fn(p, L + "intersect_reservation"), f"the ways through are {sorted(map(str, ways))}")
    c.rule("placed", "a record goes right after the last one written if it fits there, else to the start, and then the last one's end is noted; nothing changes yet")
    ways = set()
    for q in c.paths_of(p, L + "calculate_next_write_start"):
        if q.kind != "ret":
            c.ob("placed", False, q, "finding a place panics")
            continue
        fits = holds(q, {"len(MEM)": 1, "$2": -1, "NW": -1})
        if not c.ob("placed", fits is not None and not after(q), q, "whether it fits is not asked, or something changes"):
            continue
        g = lambda *f: num(fld(fld(q.rett, f[0]), f[1]) if len(f) > 1 else fld(q.rett, f[0]))
        e = show(fld(q.rett, "last_write_end_before_wrap"))
        c.ob("placed", g("range", "size") == "1*$2" and g("range", "start") == ("1*NW" if fits else "") and lin(fld(q.rett, "next_write_start")) == ({"$2": 1, "NW": 1} if fits else {"$2": 1}), q, f"a record goes to {q.ret[:160]}")
        c.ob("placed", n(e) == ("None" if fits else "Some(Add(NW,-1))"), q, f"the end noted is {e[:100]}")
        ways.add(fits)
    c.ob("placed", len(ways) == 2, c.fn(p, L + "calculate_next_write_start"), f"the ways through are {ways}")
    c.rule("refused", "a record is refused if the buffer is locked, while a reset is waiting, or if with its frame it is empty, larger than the buffer or too large to count; the size reserved is its own and that of its frame")
    ways = set()
    for q in c.paths_of(p, L + "start_reserve_common", Config(budget=4000)):
        lk = [k for k in facts(q) if re.search(r"Atomic::load\(G\.lock_count", k)]
        locked = None
        for k, v in facts(q).items():
            m = re.fullmatch(r"0(==|<)Atomic::load\(G\.lock_count,\w+\)(#\d+)?", k)
            if m:
                locked = (v if m.group(1) == "<" else not v)
        err = re.match(r"Err\(AbslStatus\((\w+),", q.ret)
        err = err.group(1) if err else None
        c.ob("refused", q.kind == "ret" and locked is not None and not after(q), q, "whether the buffer is locked is not asked, or something changes")
        if locked:
            c.ob("refused", err == "FailedPrecondition", q, f"locked: {q.ret[:80]}")
            ways.add("locked")
            continue
        pend = ask(q, "PENDING")
        if pend:
            c.ob("refused", err == "Unavailable", q, f"a reset waits: {q.ret[:80]}")
            ways.add("pending")
            continue
        S = r"num::checked_add\((num::checked_add\(0,\$2\)\?Some\.0|\$2),EX\)"
        over = ask(q, S + " is Some")
        over1 = ask(q, r"num::checked_add\(0,\$2\) is Some")
        zero = ask(q, r"0==\$2|\$2==0|!0<\$2")
        fit = None
        for k, v in q.state.facts.items():
            if k.op == "lt":
                m = re.fullmatch(rf"\(?len\(MEM\)( as u32\))?<({S}\?Some\.0|Add\(\$2,EX\)|Add\(EX,\$2\))", n(k))
                fit = (not v) if m else fit
        if err is None:
            c.ob("refused", pend is False and zero is False and fit is True and re.fullmatch(rf"Ok\({S}\?Some\.0\)", n(q.ret)) is not None, q, f"accepted though empty {zero}, fits {fit}, as {n(q.ret)[:80]}")
            ways.add("ok")
        else:
            c.ob("refused", err == "InvalidArgument" and pend is False and (over is False or over1 is False or zero is True or fit is False), q, f"refused with {err} though empty {zero}, fits {fit}")
            ways.add("over" if over is False or over1 is False else "zero" if zero else "large")
    c.ob("refused", ways >= {"locked", "pending", "ok", "over", "zero", "large"}, c.fn(p, L + "start_reserve_common"), f"the ways through are {sorted(ways)}")
    c.rule("overwritten", "before a record is written, exactly the oldest records it touches are passed, one after another, each marked as gone; where nothing may be overwritten it waits until they were read, or is refused if it may not wait or the buffer shuts down")
    f = c.fn(p, L + "advance_next_read_due_to_write")
    N = r"Range\{size:Add\((load_next_read_size\(G,No\)\?Ok\.0,EX|EX,load_next_read_size\(G,No\)\?Ok\.0)\),start:NR\?Some\.0\}"
    cfg = Config(pure=KEEP, opaque=[r"zero_extra_data$", r"advance_next_read$", r"on_total_data_loss$", r"return_record_refused$"], budget=4000)
    ways = set()

    def judge(q, end):
        nr = ask(q, "NR is Some")
        ok = ask(q, r"load_next_read_size\(G,No\) is Ok")
        if ok is None and ask(q, r"load_next_read_size\(G,No\) is Err") is not None:
            ok = not ask(q, r"load_next_read_size\(G,No\) is Err")
        hit = ask(q, rf"intersect_reservation\(G,\$3,{N}\)(#\d+)?")
        blk = ask(q, "OVERWRITE is Block")
        blk = (not ask(q, "OVERWRITE is Yes")) if blk is None and ask(q, "OVERWRITE is Yes") is not None else blk
        ev = evs(q)
        adv = [e for e in ev if e.startswith("advance_next_read(")]
        zero = [e for e in ev if e.startswith("zero_extra_data(")]
        wait = [e for e in ev if e.startswith("Condvar::wait")]
        if end is None:  # another round
            if adv:
                good = nr and ok and hit and blk is False and not wait and len(adv) == 1 and re.fullmatch(r"advance_next_read\(\S*, Add\((load_next_read_size\(G,No\)\?Ok\.0,EX|EX,load_next_read_size\(G,No\)\?Ok\.0)\), No\)", adv[0]) is not None \
                    and len(zero) == 1 and re.fullmatch(r"zero_extra_data\(\S+, NR\?Some\.0\)", zero[0]) is not None and ev.index(zero[0]) < ev.index(adv[0])
                c.ob("overwritten", bool(good), q, f"a record is passed though it is touched: {hit}, may not be: {blk}, by {adv} {zero}")
                ways.add("passed")
            else:
                down = ask(q, r"(after_wait\.shutdown_lock|DOWN|after_wait\.DOWN) is Some")
                c.ob("overwritten", bool(nr and ok and hit and blk and ask(q, r"\$4")) and len(wait) == 1 and wait[0].startswith("Condvar::wait($2.next_read_complete") and ask(q, r"after_wait\.shutdown_lock is Some") is False and not zero, q, "it tries again without having waited for a read to finish, or though the buffer shut down")
                ways.add("waited")
            return
        c.ob("overwritten", not adv and not zero, q, "a record is passed and then the end is reached at once")
        if end == "Ok(())":
            c.ob("overwritten", nr is False or bool(nr and ok) and hit is False, q, f"the place counts as free though the next record is there {nr}, touched {hit}")
            ways.add("free")
        elif nr and ok is False:
            c.ob("overwritten", any(e.startswith("on_total_data_loss(") for e in ev) and re.match(r"Err\(.*Unavailable", end) is not None, q, f"a record of no known size is answered {end[:80]}")
            ways.add("lost")
        elif nr and ok and hit and blk:
            k = "Aborted" if ask(q, r"\$4") else "Unavailable"
            down = ask(q, r"(after_wait\.shutdown_lock|DOWN|after_wait\.DOWN) is Some")
            c.ob("overwritten", re.match(rf"Err\(AbslStatus\({k},", end) is not None and (k == "Unavailable" and not wait or k == "Aborted" and True in [v for x, v in facts(q).items() if re.fullmatch(r"(after_wait\.shutdown_lock|DOWN) is Some", x)]), q, f"nothing may be overwritten: {end[:80]}")
            ways.add(k)
        else:
            c.ob("overwritten", False, q, f"refused for no reason: {end[:80]}")
    for q in c.paths_of(p, f, cfg):
        if q.kind == "ret":
            judge(q, n(q.ret))
        for i in iterations(q):
            judge(i, None)
    c.ob("overwritten", ways == {"passed", "waited", "free", "lost", "Aborted", "Unavailable"}, f, f"the ways through are {sorted(ways)}")


def frame(c):
    c.rule("frame", "a record's size is written to and read from the same place of its frame, after its extra data and before its own data; a size that is zero or beyond the memory is told as lost data; nothing changes by looking")
    p = c.program("bd_buffer")
    for q in c.paths_of(p, L + "record_size_offset"):
        c.ob("frame", q.kind != "ret" or lin(q.rett) == {"$2": 1, "EX": 1, "": -4}, q, f"the size is at {n(q.ret)}")
    for q in c.paths_of(p, L + "extra_data"):
        c.ob("frame", q.kind != "ret" or sliced(q.rett) == ("MEM", {"$2": 1}, {"$2": 1, "EX": 1, "": -4}), q, f"the extra data is at {n(q.ret)}")
    for q in c.paths_of(p, L + "zero_extra_data", Config(opaque=[r"extra_data$"])):
        x = q.ev(r"^LockedData::extra_data\(self, \$2\)")
        z = [e for e in q.ev(r"^slice::fill\(") if len(x) == 1 and re.fullmatch(r"slice::fill\(LockedData::extra_data\(self,\$2\)(#\d+)?, 0\)", repr(e))]
        c.ob("frame", q.kind != "ret" or len(z) == 1, q, "the extra data is not cleared")
    ways = set()
    for q in c.paths_of(p, L + "load_next_read_size"):
        if q.kind != "ret":
            continue
        cu = cursor(q, "$2")
        R = ("CU" if cu else "NR") + "?Some.0"
        c.ob("frame", cu is not None and not after(q), q, "which position is meant is not asked, or something changes")
        inside = holds(q, {"len(MEM)": 1, R: -1, "EX": -1})
        if inside is False:
            c.ob("frame", q.ret.startswith("Err(AbslStatus(DataLoss,"), q, f"a frame beyond the memory: {q.ret[:80]}")
            ways.add((cu, "outside"))
            continue
        sizes = [t for k in list(q.state.facts) + [q.rett] for t in subterms(k) if t.op == "call" and t.a[0].endswith(("from_ne_bytes", "from_le_bytes", "from_be_bytes"))]
        if not c.ob("frame", inside is True and sizes, q, "the size is read without asking whether it is within the memory"):
            continue
        S = show(sizes[0])
        x = sliced(next((t for t in subterms(sizes[0]) if t.op == "call" and t.a[0].endswith("index")), None))
        c.ob("frame", {show(s) for s in sizes} == {S} and "from_ne_bytes" in S and x == ("MEM", {R: 1, "EX": 1, "": -4}, {R: 1, "EX": 1}), q, f"the size is read from {x}")
        zero = q.truth(re.escape(f"0=={S}"))
        A = rf"num::checked_add\(num::checked_add\(num::checked_add\(0,{re.escape(R)}\)\?Some\.0,EX\)\?Some\.0,{re.escape(n(S))}\)"
        cnt = [v for k, v in facts(q).items() if re.match(r"num::checked_add\(", k) and k.endswith(" is Some")]
        fit = next((not v for k, v in q.state.facts.items() if k.op == "lt" and re.fullmatch(rf"\(?len\(MEM\)( as u32\))?<{A}\?Some\.0", n(k))), None)
        if q.ret.startswith("Ok("):
            c.ob("frame", zero is False and fit is True and q.ret == f"Ok({S})", q, f"the size {n(q.ret)[:60]} is used though zero {zero}, within the memory {fit}")
            ways.add((cu, "ok"))
        else:
            c.ob("frame", q.ret.startswith("Err(AbslStatus(DataLoss,") and (zero or fit is False or False in cnt), q, f"{q.ret[:80]} though the size is usable")
            ways.add((cu, "zero" if zero else "large"))
    c.ob("frame", len(ways) == 8, c.fn(p, L + "load_next_read_size"), f"the ways through are {sorted(map(str, ways))}")
    for q in c.paths_of(p, L + "finish_reservation", Config(opaque=[r"zero_extra_data$"])):
        if q.kind != "ret":
            continue
        w = q.ev(r"^slice::copy_from_slice\(|^slice::fill\(|^Index::index_mut\(")
        z = [n(e) for e in q.ev(r"^LockedData::zero_extra_data\(")]
        ok = len(w) == 1 and sliced(w[0].args[0]) == ("MEM", {"$2.start": 1, "EX": 1, "": -4}, {"$2.start": 1, "EX": 1}) and re.fullmatch(r"num::to_ne_bytes\(\$3\)", n(w[0].args[1])) is not None
        c.ob("frame", ok, q, f"the size is written by {[n(e)[:120] for e in w]}")
        c.ob("frame", len(z) == 1 and re.fullmatch(r"zero_extra_data\(\S+, \$2\.start\)", z[0]) is not None, q, "what an older record left as extra data stays")
        s = sliced(q.rett)
        s = s and tuple({re.sub(r"after_zero_extra_data\.(extra_bytes_per_record)", "EX", k): v for k, v in x.items()} if isinstance(x, dict) else x.replace("after_zero_extra_data.", "") for x in s)
        c.ob("frame", s == ("MEM", {"$2.start": 1, "EX": 1}, {"$2.start": 1, "EX": 1, "$3": 1}), q, f"the space handed out is {s}")
        LW = next((x for x in ("LW", "after_zero_extra_data.LW") if ask(q, re.escape(x) + " is Some") is not None), None)
        some = ask(q, r"(after_zero_extra_data\.)?LW is Some")
        h = {k.replace("after_zero_extra_data.", ""): v for k, v in after(q).items()}
        if c.ob("frame", some is not None, q, "whether there is a wrap is not asked") and some:
            d = {"$2.start": 1, "$3": 1, "": -2}
            past = [v for k, v in q.state.facts.items() if k.op == "lt" and any(x.endswith("LW?Some.0") for x in lin(k.a[0])) and {re.sub(r".*extra_bytes_per_record$", "EX", a): b for a, b in lin(k.a[1]).items()} == {"$2.start": 1, "$3": 1, "EX": 1, "": -1}]
            past += [not v for k, v in q.state.facts.items() if k.op == "lt" and any(x.endswith("LW?Some.0") for x in lin(k.a[1])) and {re.sub(r".*extra_bytes_per_record$", "EX", a): b for a, b in lin(k.a[0]).items()} in ({"$2.start": 1, "$3": 1, "EX": 1, "": -1}, {"$2.start": 1, "$3": 1, "EX": 1, "": -2})]
            c.ob("frame", len(past) == 1 and (h.get("LW") == "None") is past[0], q, "the end before the wrap is kept though a record goes beyond it, or forgotten though none does")
        elif some is False:
            c.ob("frame", "LW" not in h or h["LW"] == "None", q, f"an end before the wrap appears: {h.get('LW')}")


def sliced(t):
    """(what, from, to) of a part of a slice"""
    if t is None or t.op != "call" or not t.a[0].endswith(("index", "index_mut")):
        return None
    r = t.a[1][1]
    if r.op != "agg":
        return None
    try:
        return n(t.a[1][0]), lin(fld(r, "start")), lin(fld(r, "end"))
    except Exception:
        return None



V, W = "volatile_ring_buffer", "non_volatile_ring_buffer"
OPQ = [r"advance_next_read_due_to_write$", r"LockedData.*::finish_reservation$", r"emplace_back$", r"return_record_refused$", r"write_header_crc32$", r"advance_next_commited_write_start$", r"finish_commit_common$",
       r"pop_front$", r"maybe_do_total_data_loss_reset$", r"per_record_crc32$", r"finish_read_common$", r"zero_extra_data$", r"LockedData.*::start_read$", r"common_consumer_start_read$", r"lock_common$", r"shutdown_common$", r"wait_for_drain$"]


def impl(p, mod, ty, trait, name):
    pat = rf"bd_buffer::<buffer::{mod}::{ty} as .*{trait}>::{name}"
    return next(f for f in p.by_id.values() if re.fullmatch(pat, f.id))


def seen(e, st, f, args, ctx):
    """note what the buffer's locked part holds when it is handed to the call that follows"""
    st.trace = st.trace + (Event("note", "seen", "seen", tuple(e.resolve(st, v) for r, v in st.store.items() if r[0] == "H" and v is not r[1]), None, ctx.line, ctx.fn.id, None),)


def cfg(*pure, drop=(), **kw):
    kw.setdefault("model", {"LockedData::maybe_do_total_data_loss_reset": seen, "LockedData::total_data_loss_reset": seen})
    return Config(pure=KEEP + [r"Queue.*::front$", r"FreeList.*::is_empty$", *pure], opaque=[o for o in OPQ if o not in drop], budget=6000, **kw)


PLACE = "calculate_next_write_start(G,start_reserve_common(G,$2)?Ok.0)"


def final(q, pat):
    """the first match of pat in what the buffer's locked part was given back as"""
    for e in reversed(q.events()):
        m = re.search(pat, n(e))
        if m:
            return m.group(0)
    return None


def producing(c):
    c.rule("reserve", "a place is handed out only if the producer holds none, the record is not refused, and it touches neither what is being read nor what is reserved; then room is made, and only then the place is taken: the next write starts after it, the wrap is noted, and the place is remembered as reserved; all under the buffer's lock")
    p = c.program("bd_buffer")
    P = re.escape(PLACE)
    for mod in (V, W):
        f = impl(p, mod, "ProducerImpl", "RingBufferProducer", "reserve")
        ways = set()
        have = r"mut_ptr::is_null\(self\.reservation\.0\)" if mod == V else r"XL\.producer\?Some\.0\.reservation is (None|Some)"
        seen = {}
        for q in c.paths_of(p, f, cfg()):
            if q.kind != "ret":
                continue
            h = ask(q, have)
            free = h if mod == V else (None if h is None else ask(q, r"XL\.producer\?Some\.0\.reservation is Some") is False)
            up = ask(q, r"Weak::upgrade\(self\.buffer\) is Some")
            err = re.match(r"Err\(AbslStatus\((\w+),", q.ret)
            err = err.group(1) if err else None
            ev = evs(q)
            if up is False:
                c.ob("reserve", err == "FailedPrecondition" and not after(q), q, f"the buffer is gone: {q.ret[:80]}")
                continue
            if not c.ob("reserve", free is not None, q, "whether the producer already holds a place is not asked"):
                continue
            if not free:
                c.ob("reserve", err == "InvalidArgument" and not after(q), q, f"a second place: {q.ret[:80]}")
                ways.add("twice")
                continue
            ok = ask(q, r"start_reserve_common\(G,\$2\) is Ok")
            if ok is False:
                c.ob("reserve", n(q.ret) == "Err(start_reserve_common(G,$2)?Err.0)" and not after(q), q, f"a refused record: {n(q.ret)[:80]}")
                ways.add("refused")
                continue
            # what must be clear: whoever reads, and the first of those who write
            cons = ask(q, r"XL\.consumer is Some")
            if mod == V:
                rd = [("XL.consumer?Some.0.reservation?Some.0", cons and ask(q, r"XL\.consumer\?Some\.0\.reservation is Some"))]
                rd.append(("Queue::front(XL.reservations)?Some.0.range", ask(q, r"Queue::front\(XL\.reservations\) is Some")))
            else:
                k = ask(q, r"XL\.consumer\?Some\.0 is Consumer")
                k = (not ask(q, r"XL\.consumer\?Some\.0 is CursorConsumer")) if k is None and ask(q, r"XL\.consumer\?Some\.0 is CursorConsumer") is not None else k
                x = "XL.consumer?Some.0?Consumer.0" if k else "Queue::front(XL.consumer?Some.0?CursorConsumer.0)"
                rd = [(x + "?Some.0", cons and ask(q, re.escape(x) + " is Some"))]
            hits = [(x, there, ask(q, rf"intersect_reservation\(G,{P},{re.escape(x)}\)(#\d+)?")) for x, there in rd]
            for x, there, hit in hits:
                c.ob("reserve", there is False or hit is not None or any(h for _, t, h in hits if t), q, f"whether the place touches {x} is not asked")
            block = ask(q, r"XL\.block_when_reserving_into_concurrent_read is Yes") or ask(q, r"XL\.block_when_reserving_into_concurrent_read is No") is False
            if any(hit for _, t, hit in hits):
                refuse = re.match(r"Err\(return_record_refused\(G,\$2,ResourceExhausted,", n(q.ret)) is not None
                aborted = block and err == "Aborted" and ask(q, r"after_wait\.shutdown_lock is Some") is True
                c.ob("reserve", (refuse and not block or aborted) and not [e for e in ev if e.startswith(("advance_next_read", "finish_reservation"))], q, f"a place someone uses: {n(q.ret)[:100]}")
                ways.add("used" if refuse else "down")
                continue
            adv = [e for e in ev if e.startswith("advance_next_read_due_to_write(")]
            if not c.ob("reserve", len(adv) == 1 and adv[0] == f"advance_next_read_due_to_write(G, BUF.common_ring_buffer.conditions, {PLACE}, $3)", q, f"room is made by {[a[:140] for a in adv]}"):
                continue
            room_ = ask(q, r"advance_next_read_due_to_write\(.*\)(#\d+)? is Ok")
            if room_ is False:
                c.ob("reserve", n(q.ret).startswith("Err(advance_next_read_due_to_write(") and not after(q) and not [e for e in ev if e.startswith("finish_reservation")], q, f"no room could be made: {n(q.ret)[:80]}")
                ways.add("no room")
                continue
            fin = [e for e in ev if e.startswith("finish_reservation(")]
            c.ob("reserve", room_ is True and fin == [f"finish_reservation(after_advance_next_read_due_to_write, {PLACE}.range, $2)"] and re.match(r"Ok\(finish_reservation\(", n(q.ret)) is not None, q, f"what is handed out is {n(q.ret)[:120]}")
            a = after(q)
            lw = ask(q, rf"{P}\.last_write_end_before_wrap is Some")
            c.ob("reserve", a.get("after_advance_next_read_due_to_write.NW") == PLACE + ".next_write_start", q, f"the next write starts at {a.get('after_advance_next_read_due_to_write.NW')}")
            c.ob("reserve", lw is not None and a.get("after_advance_next_read_due_to_write.LW") in ((PLACE + ".last_write_end_before_wrap", f"Some({PLACE}.last_write_end_before_wrap?Some.0)") if lw else (None,)), q, f"the wrap is noted as {a.get('after_advance_next_read_due_to_write.LW')}")
            if mod == V:
                put = [e for e in ev if e.startswith("Queue::emplace_back(")]
                c.ob("reserve", len(put) == 1 and re.fullmatch(rf"Queue::emplace_back\(after_finish_reservation\.extra_locked_data\.reservations, Reservation\{{committed:false,range:{P}\.range\}}\)", put[0]) is not None and "reservation:=SendPointer(Queue::emplace_back(" in a.get("self", ""), q, f"the place is remembered by {[x[:140] for x in put]}")
            else:
                c.ob("reserve", final(q, rf"producer:=after_finish_reservation\.extra_locked_data\.producer\?Some\{{0:=.*reservation:=Some\({P}\.range\)") is not None, q, "the place is not remembered")
            ways.add("ok")
        c.ob("reserve", ways == {"twice", "refused", "used", "no room", "ok"} | ({"down"} if mod == W else set()), f, f"the ways through are {sorted(ways)}")
        for q in c.paths_of(p, f, cfg()):
            for i in iterations(q):  # waiting for a reader
                w = [e for e in evs(i) if e.startswith("Condvar::wait")]
                c.ob("reserve", len(w) == 1 and w[0] == "Condvar::wait(BUF.no_consumer_reservation_condition, G)" and ask(i, r"after_wait\.shutdown_lock is Some") is False and (ask(i, r"XL\.block_when_reserving_into_concurrent_read is Yes") or ask(i, r"XL\.block_when_reserving_into_concurrent_read is No") is False), i, f"it looks again without waiting for the reader: {w}")
    c.rule("commit", "a commit of a place that was reserved makes the record readable once all reserved before it are, in the order of reservation, and gives the place back; without a reserved place it is an error")
    f = impl(p, W, "ProducerImpl", "RingBufferProducer", "commit")
    R = "XL.producer?Some.0.reservation?Some.0"
    ways = set()
    for q in c.paths_of(p, f, cfg()):
        if q.kind != "ret":
            continue
        has = ask(q, r"XL\.producer\?Some\.0\.reservation is Some")
        ev = evs(q)
        if ask(q, r"Weak::upgrade\(self\.buffer\) is Some") is False:
            c.ob("commit", q.ret.startswith("Err(AbslStatus(FailedPrecondition") and not after(q), q, f"the buffer is gone: {q.ret[:80]}")
        elif not has:
            c.ob("commit", has is False and q.ret.startswith("Err(AbslStatus(InvalidArgument") and not after(q) and not ev, q, f"nothing reserved: {q.ret[:80]}")
            ways.add("none")
        else:
            c.ob("commit", q.ret == "Ok(())" and [e for e in ev if e.startswith("advance_next_commited")] == [f"advance_next_commited_write_start(G, BUF.common_ring_buffer.conditions, {R})"] and len([e for e in ev if re.fullmatch(rf"finish_commit_common\([^,]*, {re.escape(R)}\)", e)]) == 1, q, "the record is not made readable exactly once")
            c.ob("commit", final(q, r"producer:=\S*producer\?Some\{0:=\S*\{reservation:=None") is not None or "reservation:=None" in str(after(q)) or reset_arg(q), q, "the place is not given back")
            mb = [k for k, e in enumerate(ev) if e.startswith("maybe_do_total_data_loss_reset(")]
            c.ob("commit", len(mb) == 1, q, "a reset that waits for the record stays waiting")
            c.ob("commit", "Condvar::notify_all(BUF.no_producer_reservation_condition)" in ev, q, "who waits for the reserved place stays waiting")
            ways.add("ok")
    c.ob("commit", ways == {"none", "ok"}, f, f"the ways through are {sorted(ways)}")
    f = impl(p, V, "ProducerImpl", "RingBufferProducer", "commit")
    ways = set()
    for q in c.paths_of(p, f, cfg()):
        if q.kind != "ret":
            continue
        none = ask(q, r"mut_ptr::is_null\(self\.reservation\.0\)")
        ev = evs(q)
        if none:
            c.ob("commit", q.ret.startswith("Err(AbslStatus(InvalidArgument") and not ev and not after(q), q, f"nothing reserved: {q.ret[:80]}")
            ways.add("none")
        elif ask(q, r"Weak::upgrade\(self\.buffer\) is Some") is False:
            c.ob("commit", q.ret.startswith("Err(AbslStatus(FailedPrecondition") and not after(q), q, f"the buffer is gone: {q.ret[:80]}")
        else:
            RES = r"UnsafeCell::get_mut\(mut_ptr::as_mut\(self\.reservation\.0\)\?Some\.0\.value\)(#\d+)?"
            a = after(q)
            c.ob("commit", none is False and q.ret == "Ok(())" and any(re.fullmatch(RES, k) and v.endswith("{committed:=true}") for k, v in a.items()), q, "the place is not marked as committed")
            c.ob("commit", "reservation:=SendPointer(ptr::null_mut())" in a.get("self", ""), q, "the producer keeps the place")
            c.ob("commit", len([e for e in ev if re.fullmatch(rf"finish_commit_common\([^,]*, {RES}\.range\)", e)]) == 1, q, "that there is something to read is not told")
            empty = ask(q, r"LinkedList::is_empty\(.*\.queue\)(#\d+)?|Queue::is_empty\(.*\)(#\d+)?")
            w = "Condvar::notify_all(BUF.no_reservations_condition)" in ev
            c.ob("commit", empty is not None and (w or not empty), q, "who waits for all to be committed stays waiting")
            st = [(ask(q, r"Queue::front\(\S+\) is Some"), ask(q, r"Queue::front\(\S+\)\?Some\.0\.committed"))]
            c.ob("commit", st[0][0] is False or st[0][1] is False, q, "it ends though the first place is committed")
            ways.add("ok")
        for i in iterations(q):
            e = evs(i)
            F = r"Queue::front\(\S+\.reservations\)\?Some\.0"
            adv = [k for k, x in enumerate(e) if re.fullmatch(rf"advance_next_commited_write_start\(\S+, BUF\.common_ring_buffer\.conditions, {F}\.range\)", x)]
            pop = [k for k, x in enumerate(e) if re.match(r"Queue::pop_front\(\S+\.reservations\)", x)]
            c.ob("commit", ask(i, rf"{F}\.committed") is True and len(adv) == len(pop) == 1 and len([x for x in e if x.startswith("advance_next_commited")]) == 1, i, "a place is made readable though it is not committed, or not the first, or stays")
            ways.add("each")
    c.ob("commit", ways == {"none", "ok", "each"}, f, f"the ways through are {sorted(ways)}")


def reset_arg(q):
    return any("reservation:=None" in n(e) for e in q.events())


def consuming(c):
    c.rule("read", "a consumer reads the next record once, and again only after it finished; what is being read is remembered until then; with a cursor every record read is remembered, in order, and the oldest is finished first")
    p = c.program("bd_buffer")
    f = next(x for x in p.by_id.values() if re.fullmatch(r"bd_buffer::buffer::common_ring_buffer::LockedData::<ExtraLockedData>::start_read", x.id))
    ways = set()
    k = Config(pure=KEEP, opaque=[r"advance_next_read$", r"on_total_data_loss$", r"extra_data$"], budget=6000)
    for q in c.paths_of(p, f, k):
        if q.kind != "ret":
            continue
        err = re.match(r"Err\(AbslStatus\((\w+),", q.ret)
        err = err.group(1) if err else None
        held, pend, cu = ask(q, r"\$4 is Some"), ask(q, "PENDING"), cursor(q, "$5")
        if held:
            c.ob("read", err == "InvalidArgument" and not [x for x in after(q) if x != "$1"], q, f"a second read: {q.ret[:80]}")
            ways.add("twice")
            continue
        if pend:
            c.ob("read", err == "Unavailable", q, f"a reset waits: {q.ret[:80]}")
            ways.add("pending")
            continue
        if not c.ob("read", held is False and pend is False and cu is not None, q, "whether a read is under way, or a reset waits, is not asked"):
            continue
        R = "CU" if cu else "NR"
        there = ask(q, rf"{R} is Some")
        woken = "after_wait_while" if [e for e in evs(q) if e.startswith("Condvar::wait_while(")] else None
        down = ask(q, r"after_wait_while\.shutdown_lock is Some")
        if err == "Unavailable":
            c.ob("read", there is False and ask(q, r"\$3") is False and [e for e in evs(q) if re.match(r"Sender::send\w*\(G\.readable, false\)", e)], q, "nothing to read, though there is, or without remembering that there is not")
            ways.add("empty")
            continue
        if err == "Aborted":
            c.ob("read", woken and down and there is False, q, "aborted though not shut down")
            ways.add("down")
            continue
        X = "after_wait_while." if woken else ""
        c.ob("read", there or woken and down is False and ask(q, r"\$3") is True, q, "it reads though there is nothing")
        size = rf"load_next_read_size\({'after_wait_while' if woken else 'G'},\$5\)\?Ok\.0"
        pos = (f"{X}next_cursor_read_start" if woken else "CU") + "?Some.0" if cu else f"{X}NR?Some.0"
        ex = f"{X}extra_bytes_per_record" if woken else "EX"
        got = after(q).get("$4", "")
        m = re.fullmatch(rf"Some\(Range\{{size:Add\(({size},{re.escape(ex)}|{re.escape(ex)},{size})\),start:{re.escape(pos)}\}}\)", got)
        c.ob("read", m is not None, q, f"what is remembered as being read is {got[:160]}")
        adv = [e for e in evs(q) if e.startswith("advance_next_read(")]
        c.ob("read", len(adv) == (1 if cu else 0) and all(re.match(rf"advance_next_read\(\S+, Add\(({size},{re.escape(ex)}|{re.escape(ex)},{size})\), (\$5|Yes)\)", e) for e in adv), q, f"the position moves by {[a[:100] for a in adv]}")
        rec = next((sliced(t) for t in subterms(q.rett) if t.op == "call" and t.a[0].endswith(("index", "index_mut"))), None)
        rec = rec and tuple({re.sub(r"^.*(extra_bytes_per_record|EX)$", "EX", a): b for a, b in x.items()} if isinstance(x, dict) else x for x in rec)
        sz = next((a for a in (rec[2] if rec else {}) if a.startswith("load_next_read_size")), "?")
        c.ob("read", rec is not None and rec[1] == {pos: 1, "EX": 1} and rec[2] == {pos: 1, "EX": 1, sz: 1} and re.fullmatch(size, sz) is not None and "record_data:" in q.ret, q, f"what is handed out is {rec}")
        ways.add((cu, bool(woken)))
    c.ob("read", ways >= {"twice", "pending", "empty", "down", (True, True), (True, False), (False, True), (False, False)}, f, f"the ways through are {sorted(map(str, ways))}")
    for q in c.paths_of(p, f, k):
        for i in iterations(q):
            ev = evs(i)
            c.ob("read", len([e for e in ev if e.startswith("on_total_data_loss(")]) == 1 and not after(i).get("$4"), i, "it goes on after a record of no known size without giving everything up")
    f = impl(p, V, "ConsumerImpl", "RingBufferConsumer", "finish_read")
    for mod, RES in ((V, "XL.consumer?Some.0.reservation"), (W, "XL.consumer?Some.0?Consumer.0")):
        f = impl(p, mod, "ConsumerImpl", "RingBufferConsumer", "finish_read")
        ways = set()
        for q in c.paths_of(p, f, cfg()):
            if q.kind != "ret" or ask(q, r"Weak::upgrade\(self\.buffer\) is Some") is False:
                c.ob("read", q.kind != "ret" or q.ret.startswith("Err(AbslStatus(FailedPrecondition"), q, f"the buffer is gone: {q.ret[:80]}")
                continue
            has = ask(q, re.escape(RES) + " is Some")
            ev = evs(q)
            fin = [e for e in ev if e.startswith("finish_read_common(")]
            if has:
                c.ob("read", q.ret == "Ok(())" and fin == [f"finish_read_common(G, BUF.common_ring_buffer.conditions, {RES}?Some.0)"], q, f"finishing a read does {fin}")
                g = after(q).get("G", "")
                c.ob("read", ("reservation:=None" if mod == V else "Consumer{0:=None}") in g, q, "the record stays remembered as being read, or is only forgotten after a waiting reset looked")
                c.ob("read", mod == V or "Condvar::notify_all(BUF.no_consumer_reservation_condition)" in ev, q, "who waits for the reader stays waiting")
            else:
                c.ob("read", has is False and q.ret.startswith("Err(AbslStatus(InvalidArgument") and not fin and not after(q), q, f"nothing is being read: {q.ret[:80]}")
            ways.add(has)
        c.ob("read", ways == {True, False}, f, "the ways through are not two")
    g = next(x for x in p.by_id.values() if x.id == "bd_buffer::buffer::non_volatile_ring_buffer::CursorConsumerImpl::inner_start_read")
    CQ = r"\S*extra_locked_data\.consumer\?Some\.0\?CursorConsumer\.0"
    for q in c.paths_of(p, g, cfg()):
        if q.kind != "ret":
            continue
        s = [e for e in evs(q) if "common_consumer_start_read(" in e]
        put = [e for e in evs(q) if e.startswith("Queue::")]
        ok = q.truth(r"non_volatile_ring_buffer::common_consumer_start_read\(.*\)(#\d+)? is Ok")
        c.ob("read", len(s) == 1 and s[0].endswith("($2, $3, $4, None, Yes)"), q, f"a cursor reads by {s}")
        if ok is False:
            c.ob("read", not put and "?Err.0)" in q.ret, q, "a read that failed is remembered")
        else:
            c.ob("read", ok is True and len(put) == 1 and re.fullmatch(rf"Queue::emplace_back\({CQ}, after_common_consumer_start_read\?Some\.0\)", put[0]) is not None and re.match(r"Ok\(non_volatile_ring_buffer::common_consumer_start_read\(", q.ret) is not None, q, f"the record read is remembered by {put}")
    for mod in (V, W):
        g = next(x for x in p.by_id.values() if x.id == f"bd_buffer::buffer::{mod}::ConsumerImpl::inner_start_read")
        RES = "XL.consumer?Some.0.reservation" if mod == V else "XL.consumer?Some.0?Consumer.0"
        for q in c.paths_of(p, g, cfg()):
            if q.kind != "ret":
                continue
            s = [e for e in evs(q) if re.search(r"start_read\(", e)]
            c.ob("read", len(s) == 1 and s[0].endswith(f"($1, $2, $3, {RES}, No)"), q, f"a consumer reads by {s}")
            ok = q.truth(r".*start_read\(.*\)(#\d+)? is Ok")
            kept = final(q, r"consumer:=\S*consumer\?Some\{0:=.*(reservation:=|Consumer\{0:=)after_(common_consumer_)?start_read\b")
            c.ob("read", kept is not None or ok is False, q, "what is being read is not remembered")
    f = impl(p, W, "CursorConsumerImpl", "RingBufferCursorConsumer", "advance_read_pointer")
    ways = set()
    for q in c.paths_of(p, f, cfg()):
        if q.kind != "ret":
            continue
        if ask(q, r"Weak::upgrade\(self\.buffer\) is Some") is False:
            c.ob("read", q.ret.startswith("Err(AbslStatus(FailedPrecondition"), q, f"the buffer is gone: {q.ret[:80]}")
            continue
        Q = "XL.consumer?Some.0?CursorConsumer.0"
        none = ask(q, rf"LinkedList::is_empty\({re.escape(Q)}\.queue\)(#\d+)?|Queue::is_empty\({re.escape(Q)}\)(#\d+)?")
        first = ask(q, rf"Queue::front\({re.escape(Q)}\) is Some")
        ev = evs(q)
        fin = [e for e in ev if e.startswith("finish_read_common(")]
        pop = [e for e in ev if e.startswith("Queue::pop_front(")]
        if q.ret == "Ok(())" and first is False and not fin and not pop:
            continue  # nothing was read, so there is nothing to pass
        if q.ret == "Ok(())":
            c.ob("read", len(fin) == 1 and re.fullmatch(rf"finish_read_common\(\S+, BUF\.common_ring_buffer\.conditions, Queue::front\({re.escape(Q)}\)\?Some\.0\)", fin[0]) is not None and pop == [f"Queue::pop_front({Q})"] and ev.index(pop[0]) < ev.index(fin[0]), q, f"advancing does {pop} {[x[:100] for x in fin]}")
            c.ob("read", "Condvar::notify_all(BUF.no_consumer_reservation_condition)" in ev, q, "who waits for the reader stays waiting")
            ways.add("ok")
        else:
            c.ob("read", (none or first is False) and not fin and not pop and q.ret.startswith("Err(AbslStatus(FailedPrecondition"), q, f"nothing was read: {q.ret[:80]}")
            ways.add("none")
    c.ob("read", ways == {"ok", "none"}, f, f"the ways through are {sorted(ways)}")
    c.rule("woken", "a read that waits tries again whenever something changed, and only then; it ends with a record or an error that is not a want of data")
    for mod, ty, tr in ((V, "ConsumerImpl", "RingBufferConsumer"), (W, "ConsumerImpl", "RingBufferConsumer"), (W, "CursorConsumerImpl", "RingBufferCursorConsumer")):
        f = impl(p, mod, ty, tr, "read")
        k = Config(opaque=[r"inner_start_read$"], budget=6000)
        rounds = 0
        for q in c.paths_of(p, f, k, is_async=True):
            if q.kind != "ret":
                continue
            t = [e for e in evs(q) if re.match(r"\w+::inner_start_read\(", e)]
            if ask(q, r"Weak::upgrade\(self\.buffer\) is Some") is False:
                c.ob("woken", q.ret.startswith("Err(AbslStatus(FailedPrecondition"), q, f"the buffer is gone: {q.ret[:80]}")
                continue
            un = q.truth(r".*inner_start_read\(.*\)(#\d+)?\?Err\.0\?AbslStatus\.0 is Unavailable")
            c.ob("woken", len(t) == 1 and t[0].endswith(("(G, BUF.common_ring_buffer.conditions, false)", "(self, G, BUF.common_ring_buffer.conditions, false)")) and not un and re.match(r"(Ok|Err)\(\w+::inner_start_read\(", q.ret) is not None, q, f"it ends with {n(q.ret)[:80]}")
            for i in iterations(q):
                rounds += 1
                e = evs(i)
                y = i.truth(r"Receiver::borrow(_and_update)?\(.*\)(#\d+)?")
                t = [x for x in e if re.match(r"\w+::inner_start_read\(", x)]
                un = i.truth(r".*inner_start_read\(.*\)(#\d+)?\?Err\.0\?AbslStatus\.0 is Unavailable")
                waits = [x for x in e if x.startswith("await:await(Receiver::changed(")]
                seen = any(x.startswith("Receiver::borrow_and_update(") for x in e)
                c.ob("woken", y is not None and (len(t) == 1 and un is True if y else not t) and (mod == V or len(waits) == 1) and len(waits) <= 1, i, "it tries again without waiting for a change" if not waits else "it waits though there may be something")
        c.ob("woken", rounds > 0, f, "it never tries again")


def holding(c):
    c.rule("one-consumer", "there is one consumer at a time, and for a file one producer; a cursor only where nothing is overwritten; one that is dropped makes room for the next")
    p = c.program("bd_buffer")
    for mod in (V, W):
        for name, what, val in (("register_consumer", "consumer", {V: r"Some\(ActiveConsumerData\{reservation:None\}\)", W: r"Some\(Consumer\(None\)\)"}[mod]), ("register_cursor_consumer", "consumer", r"Some\(CursorConsumer\(.*\)\)"), ("register_producer", "producer", r"Some\(ProducerData\{reservation:None\}\)")):
            f = impl(p, mod, "RingBufferImpl", "RingBuffer", name)
            if mod == V and name == "register_producer":
                for q in c.paths_of(p, f):
                    c.ob("one-consumer", re.fullmatch(r"Ok\(ProducerImpl\{buffer:Arc::downgrade\(self\),reservation:SendPointer\(ptr::null_mut\(\)\)\}\)", q.ret) is not None, q, f"a producer is {q.ret[:120]}")
                continue
            ways = set()
            for q in c.paths_of(p, f):
                if mod == V and name == "register_cursor_consumer":
                    c.ob("one-consumer", q.ret.startswith("Err(") and not after(q), q, "a cursor that is not supported")
                    continue
                o = "lock(self.common_ring_buffer.locked_data)#1"
                there = q.truth(re.escape(f"{o}.extra_locked_data.{what} is Some"))
                blk = q.truth(re.escape(f"{o}.allow_overwrite is Block"))
                blk = (not q.truth(re.escape(f"{o}.allow_overwrite is Yes"))) if blk is None and q.truth(re.escape(f"{o}.allow_overwrite is Yes")) is not None else blk
                now = q.heap(re.escape(o)).get(o)
                if there or name == "register_cursor_consumer" and blk is False:
                    c.ob("one-consumer", q.ret.startswith("Err(AbslStatus(FailedPrecondition") and now in (None, o), q, f"another {what}: {q.ret[:80]}")
                    ways.add("no")
                else:
                    good = q.ret.startswith("Ok(") and "buffer:Arc::downgrade(self)" in q.ret and (what == "producer" or f"readable:Sender::subscribe({o}.readable)" in q.ret)
                    c.ob("one-consumer", q.kind == "ret" and there is False and (name != "register_cursor_consumer" or blk) and good and re.fullmatch(rf".*\{{extra_locked_data:=.*\{{{what}:={val}\}}\}}", now or "") is not None, q, f"a new {what} is {q.ret[:100]}, remembered as {(now or '')[-80:]}")
                    ways.add("yes")
            c.ob("one-consumer", mod == V and name == "register_cursor_consumer" or ways == {"yes", "no"}, f, f"the ways through are {ways}")
    for mod, ty, what in ((V, "ConsumerImpl", "consumer"), (W, "ConsumerImpl", "consumer"), (W, "CursorConsumerImpl", "consumer"), (W, "ProducerImpl", "producer")):
        f = impl(p, mod, ty, "Drop", "drop")
        for q in c.paths_of(p, f):
            up = ask(q, r"Weak::upgrade\(self\.buffer\) is Some")
            if q.kind == "ret" and c.ob("one-consumer", up is not None, q, "whether the buffer is there is not asked") and up:
                c.ob("one-consumer", after(q).get("G") == f"G{{extra_locked_data:=XL{{{what}:=None}}}}", q, f"the place stays taken: {after(q)}")
    c.rule("locked", "a lock refuses records from when it is taken until it is dropped, locks count, a shut down buffer stays locked, and waiting for what is reserved ends only when nothing is")
    for q in c.paths_of(p, L + "lock_common"):
        a = [repr(e) for e in q.ev(r"^Atomic::(?!load)")]
        c.ob("locked", len(a) == 1 and re.match(r"Atomic::fetch_add\(self\.lock_count, 1, ", a[0]) is not None and q.ret == "LockHandleImpl{lock_count:self.lock_count}", q, f"locking does {a} and gives {q.ret}")
    f = next(x for x in p.by_id.values() if re.fullmatch(r"bd_buffer::<buffer::common_ring_buffer::LockHandleImpl as .*Drop>::drop", x.id))
    for q in c.paths_of(p, f):
        a = [repr(e) for e in q.ev(r"^Atomic::(?!load)")]
        c.ob("locked", q.kind != "ret" or len(a) == 1 and re.match(r"Atomic::fetch_sub\(self\.lock_count, 1, ", a[0]) is not None, q, f"letting go of a lock does {a}")
    for q in c.paths_of(p, L + "shutdown_common", Config(opaque=[r"lock_common$"])):
        d = ask(q, "DOWN is Some")
        ev = evs(q)
        if d:
            c.ob("locked", not [e for e in ev if e.startswith("lock_common(")] and not after(q), q, "shutting down twice locks twice")
        else:
            c.ob("locked", d is False and re.fullmatch(r"\$1\{shutdown_lock:=Some\(lock_common\(\$1\)(#\d+)?\)\}", after(q).get("$1", "")) is not None and {"Condvar::notify_all($2.data_available)", "Condvar::notify_all($2.next_read_complete)"} <= set(ev), q, f"shutting down does {ev}")
    for mod in (V, W):
        f = impl(p, mod, "RingBufferImpl", "RingBuffer", "shutdown")
        for q in c.paths_of(p, f, cfg()):
            ev = evs(q)
            o = "lock(self.common_ring_buffer.locked_data)#1"
            c.ob("locked", f"shutdown_common({o}, self.common_ring_buffer.conditions)" in ev and (mod == V or "Condvar::notify_all(self.no_consumer_reservation_condition)" in ev), q, f"shutting down does {ev}")
        f = impl(p, mod, "RingBufferImpl", "RingBuffer", "lock")
        for q in c.paths_of(p, f, cfg()):
            c.ob("locked", re.fullmatch(r"LockHandleImpl\{_lock_handle:LockedData::lock_common\(lock\(self\.common_ring_buffer\.locked_data\)#1\)(#\d+)?,buffer:Arc::downgrade\(self\)\}", q.ret) is not None, q, f"a lock is {q.ret[:120]}")
        f = impl(p, mod, "RingBufferImpl", "RingBuffer", "wait_for_drain")
        for q in c.paths_of(p, f, cfg()):
            c.ob("locked", evs(q) == ["wait_for_drain(lock(self.common_ring_buffer.locked_data)#1, self.common_ring_buffer.conditions)"], q, f"waiting for everything to be read does {evs(q)}")
        f = impl(p, mod, "LockHandleImpl", "LockHandle", "await_reservations_drained")
        cond = "no_reservations_condition" if mod == V else "no_producer_reservation_condition"
        ways = set()
        for q in c.paths_of(p, f, cfg()):
            if ask(q, r"Weak::upgrade\(self\.buffer\) is Some") is False:
                continue
            if mod == V:
                none = ask(q, r"LinkedList::is_empty\(XL\.reservations\.queue\)(#\d+)?|Queue::is_empty\(XL\.reservations\)(#\d+)?")
            else:
                pr = ask(q, r"XL\.producer is Some")
                r_ = ask(q, r"XL\.producer\?Some\.0\.reservation is Some")
                none = True if pr is False or r_ is False else False if r_ else None
            w = [e for e in evs(q) if e.startswith("Condvar::wait")]
            c.ob("locked", none is not None and len(w) == (0 if none else 1) and all(e.startswith(f"Condvar::wait(BUF.{cond}, G") for e in w), q, f"with nothing reserved {none}: {w}")
            ways.add(none)
        c.ob("locked", ways == {True, False}, f, f"the ways through are {ways}")


def losing(c):
    c.rule("lost", "when everything is given up nothing of it remains, not even in the memory, and everything starts over; this waits until nobody reads or writes, and is done then")
    p = c.program("bd_buffer")
    for q in c.paths_of(p, L + "total_data_loss_reset"):
        a = after(q)
        c.ob("lost", q.kind == "ret" and (a.get("NW"), a.get("CW"), a.get("LW"), a.get("NR")) == ("0", "None", "None", "None") and "next_cursor_read_start:=None" in a.get("self", "") and "slice::fill(MEM, 0)" in evs(q), q, f"what remains is {a}")
        c.ob("lost", any(re.match(r"call:self\.on_total_data_loss_cb\(XL\)", e) for e in evs(q)), q, "the kind of buffer is not told")
    for name, due in ((L + "maybe_do_total_data_loss_reset", None), (L + "on_total_data_loss", True)):
        ways = set()
        for q in c.paths_of(p, name, Config(opaque=[r"::total_data_loss_reset$"], model={"LockedData::total_data_loss_reset": seen})):
            pend = True if due else ask(q, "PENDING")
            r, w = ask(q, r"call:self\.has_read_reservation_cb\(XL\)(#\d+)?"), ask(q, r"call:self\.has_write_reservation_cb\(XL\)(#\d+)?")
            ev = evs(q)
            did = [k for k, e in enumerate(ev) if e.startswith("total_data_loss_reset(")]
            if not c.ob("lost", q.kind == "ret" and pend is not None, q, "whether a reset waits is not asked"):
                continue
            if not pend:
                c.ob("lost", not did and not after(q), q, "a reset though none waits")
            elif r or w:
                c.ob("lost", not did and (not due or after(q).get("self") == "self{pending_total_data_loss_reset:=true}"), q, "everything is given up under a reader or writer, or not remembered to be")
            else:
                c.ob("lost", r is False and w is False and len(did) == 1, q, "it is not given up though nobody reads or writes")
                if not due:
                    c.ob("lost", any("pending_total_data_loss_reset:=false" in n(e) or "PENDING:=false" in n(e) for e in q.events()) or "pending_total_data_loss_reset:=false" in str(after(q)) or cleared(q), q, "the reset stays waiting")
            ways.add((pend, bool(r), bool(w)))
        c.ob("lost", len(ways) == (3 if due else 4), c.fn(p, name), f"the ways through are {ways}")
    for mod in (V, W):
        f = next(x for x in p.by_id.values() if re.fullmatch(rf"bd_buffer::buffer::{mod}::RingBufferImpl::new", x.id))
        n_ = 0
        for q in c.paths_of(p, f, Config(opaque=[r"CommonRingBuffer.*::new$", r"compute_header_crc_32$"], budget=6000)):
            for e in q.ev(r"^CommonRingBuffer::new\("):
                n_ += 1
                rd, wr = closure_fn(q, e.args[11]), closure_fn(q, e.args[12])
                if not c.ob("lost", rd is not None and wr is not None, q, "who reads and who writes is not asked of the buffer"):
                    continue
                for g, what in ((rd, "read"), (wr, "write")):
                    for x in c.paths_of(p, g, Config(pure=[r"FreeList.*::is_empty$", r"LinkedList.*is_empty$"])):
                        c.ob("lost", x.kind == "ret" and busy(x, what, mod), x, f"whether someone does {what}: {x.ret[:100]}")
        c.ob("lost", n_ > 0, f, "no buffer is made")


def cleared(q):
    return any(re.search(r"pending_total_data_loss_reset:=false", show(a)) for e in q.events() for a in e.args)


def busy(x, what, mod):
    """whether the answer is the truth about a reservation of this kind"""
    def t(pat):
        for k, v in x.state.facts.items():
            if re.fullmatch(pat, show(k)):
                return v
        return None
    A = r"\$\d"
    if mod == V and what == "write":
        return re.fullmatch(rf"!\(?(IntrusiveQueueWithFreeList|LinkedList)::is_empty\({A}\.reservations(\.queue)?\)(#\d+)?\)?", x.ret) is not None or x.ret in ("true", "false") and t(rf"(IntrusiveQueueWithFreeList|LinkedList)::is_empty\({A}\.reservations(\.queue)?\)(#\d+)?") is (x.ret == "false")
    who = "consumer" if what == "read" else "producer"
    there = t(rf"{A}\.{who} is Some")
    if there is False:
        return x.ret == "false"
    if mod == W and what == "read":
        k = t(rf"{A}\.consumer\?Some\.0 is Consumer")
        k = (not t(rf"{A}\.consumer\?Some\.0 is CursorConsumer")) if k is None else k
        R = rf"{A}\.consumer\?Some\.0\?Consumer\.0" if k else None
        if not k:
            E = rf"(IntrusiveQueueWithFreeList|LinkedList)::is_empty\({A}\.consumer\?Some\.0\?CursorConsumer\.0(\.queue)?\)(#\d+)?"
            return re.fullmatch(r"!\(?" + E + r"\)?", x.ret) is not None or x.ret in ("true", "false") and t(E) is (x.ret == "false")
    else:
        R = rf"{A}\.{who}\?Some\.0\.reservation"
    v = t(R + " is Some")
    return there is True and (x.ret == ("true" if v else "false") if v is not None else re.fullmatch(R + " is Some", x.ret) is not None)


GROUPS = [reading, room, frame, producing, consuming, holding, losing]
FLOORS = {'advance': 24, 'committed': 60, 'finished': 90, 'overlap': 6, 'placed': 5, 'refused': 22, 'overwritten': 28, 'frame': 45, 'reserve': 180, 'commit': 25, 'read': 70, 'woken': 20, 'one-consumer': 18, 'locked': 12, 'lost': 40}
