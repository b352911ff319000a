"""The set of buffers follows the configuration: whole, or not at all; everyone concerned is told, and asked-for flushes are done."""
from rules import *
from c46 import n, evs, ask, after, facts

M = "bd_buffer::ring_buffer::"
LK = r"lock\(self\.buffers\)#\d+"
ITEM = r"item\(\$2\.buffer_config\)"
OPAQUE = [r"ring_buffer::RingBuffer::new$", r"resolve_\w+$", r"handle_unexpected", r"required_proto_enum"]


def own(e):
    return not re.match(r"LOOP|done:|Interest::|Callsite::|__macro_support::|Span::|un?lock:|lock:|await:|LevelFilter|MacroCallsite|DefaultCallsite", e)


def made(new):
    """the arguments of RingBuffer::new, taken apart"""
    return [n(a) for a in new.args]


def updating(c):
    c.rule("update", "an update keeps the buffers it names again, makes the others as configured, and replaces the set only after nothing can fail any more; on an error nothing was told to anyone and the set is as it was")
    c.rule("told", "everyone is told of the buffers that went and came, and the update ends only when all of that was taken up")
    p = c.program("bd_buffer")
    f = M + "Manager::update_from_config"
    TYPE = rf"error::required_proto_enum\({ITEM}\.type_,'[^']*'\)(#\d+)?"
    OLD = rf"HashMap::remove\(phi:(\w+),{ITEM}\.id\)(#\d+)?"
    kept, fresh, ends = 0, set(), set()
    for q in c.paths_of(p, f, Config(opaque=OPAQUE, budget=4000), is_async=True):
        if not c.ob("update", q.kind == "ret", q, "an update panics"):
            continue
        a = after(q)
        res = [e for e in q.trace if re.match(r"Manager::resolve_\w+\(", repr(e))]
        if n(q.ret).startswith("Err("):
            c.ob("update", not res and not [k for k in a if re.match(LK, k)], q, f"a refused update changed the set, or was told: {sorted(a)}")
            why = "type" if ask(q, TYPE + " is Ok") is False else "buffer" if [k for k, v in facts(q).items() if k.startswith("RingBuffer::new(") and k.endswith(" is Ok") and not v] else None
            c.ob("update", why is not None, q, f"an update is refused for no reason: {q.ret[:80]}")
            ends.add(why)
            continue
        up = [e for e in res if repr(e).startswith("Manager::resolve_buffer_updates(")]
        st = [e for e in res if repr(e).startswith("Manager::resolve_stream_buffer_update(")]
        if not c.ob("told", len(up) == 1 and len(st) == 1, q, f"an update is told {len(up)} times, that of the stream buffer {len(st)}"):
            continue
        vs = {show(k): v for lp in q.loops() for k, v in lp.vars.items()} if q.loops() else {}
        gone = n(up[0].args[1])
        v = vs.get(gone)
        c.ob("update", v is not None and [n(x) for x in v[0]] in (["lock(self.buffers)#1.0"],) and all(re.fullmatch(r"after_remove|" + re.escape(gone), n(x)) for x in v[1].values()), q, f"the buffers told to be gone are not those there were without those named again: {gone}")
        lp = q.loops()[0]
        c.ob("update", show(lp.src) == "$2.buffer_config" if lp.src is not None else True, q, "not all configured buffers are gone through")
        c.ob("told", n(st[0].args[1]) == "lock(self.buffers)#1.1" and n(st[0].args[2]) == "$3", q, f"the stream buffer is decided from {n(st[0].args[1])} and {n(st[0].args[2])}")
        S = r"await\(Manager::resolve_stream_buffer_update\(self,lock\(self\.buffers\)#1\.1,\$3\)(#\d+)?\)"
        ch = ask(q, S + " is Some")
        if not c.ob("told", ch is not None, q, "whether the stream buffer changed is not asked"):
            continue
        end = [v for k, v in a.items() if re.fullmatch(LK, k)]
        new = r"lock\(self\.buffers\)#1\.1" if not ch else S + r"\?Some\.0\.1"
        m = re.fullmatch(rf"\((phi:\w+),({new})\)", end[0]) if len(end) == 1 else None
        if not c.ob("update", m is not None, q, f"the set becomes {str(end)[:200]}"):
            continue
        v = vs.get(m.group(1))
        c.ob("update", v is not None and len(v[0]) == 1 and re.match(r"HashMap::(new|default|with_capacity)", n(v[0][0])) is not None, q, "the new set does not begin empty")
        c.ob("update", re.fullmatch(rf"Ok\(({new})\)", n(q.ret)) is not None, q, f"the stream buffer handed out is {n(q.ret)[:100]}")
        # waiting: after the set is replaced, on all answers
        tr = [repr(e) for e in q.trace]
        at = [i for i, e in enumerate(tr) if e.startswith("await:")]
        lock = [i for i, e in enumerate(tr) if e.startswith("lock:lock(self.buffers)")]
        acks = r"await\(Manager::resolve_buffer_updates\(.*\)(#\d+)?\)"
        want = rf"await:await\(future::join_all\(({acks}|\[{acks} \+\+ one\({S}\?Some\.0\.0\)\])\)(#\d+)?\)" if not ch else rf"await:await\(future::join_all\(\[({acks}) \+\+ one\({S}\?Some\.0\.0\)\]\)(#\d+)?\)"
        j = [i for i in at if tr[i].startswith("await:await(future::join_all(")]
        c.ob("told", len(j) == 1 and re.fullmatch(want, n(q.trace[j[0]])) is not None, q, "it does not wait for all answers")
        c.ob("told", len(lock) == 2 and all(i < lock[1] for i in at if i not in j) and bool(j) and lock[1] < j[0], q, "the set is replaced before everyone was told, or only after the answers")
        ends.add("stream" if ch else "same")
        # what each round puts into the new set
        for i in iterations(q):
            new_ = [e for e in i.trace if repr(e).startswith("RingBuffer::new(")]
            ins = [e for e in i.trace if repr(e).startswith("HashMap::insert(" + m.group(1))]
            rm = ask(i, OLD + " is Some")
            if not c.ob("update", rm is not None and ask(i, TYPE + " is Ok") is True, i, "a buffer of no known type is taken, or whether it is there already is not asked"):
                continue
            if not c.ob("update", len(ins) == 1 and re.fullmatch(ITEM + r"\.id", n(ins[0].args[1])) is not None, i, "a configured buffer is not in the set under its id"):
                continue
            if rm:
                c.ob("update", not new_ and re.fullmatch(rf"\({OLD}\?Some\.0\.0,{OLD}\?Some\.0\.1\)|{OLD}\?Some\.0", n(ins[0].args[2])) is not None, i, f"a buffer that is there is replaced: {n(ins[0].args[2])[:120]}")
                kept += 1
                continue
            if not c.ob("update", len(new_) == 1, i, f"a new buffer is made {len(new_)} times"):
                continue
            r = made(new_[0])
            sizes = ask(i, rf"MessageField::as_ref\({ITEM}\.buffer_sizes\) is Some|{ITEM}\.buffer_sizes\.0 is Some")
            B = rf"(MessageField::as_ref\({ITEM}\.buffer_sizes\)|{ITEM}\.buffer_sizes\.0)\?Some\.0(\.0)?"
            want = [ITEM + r"\.name", (B + r"\.volatile_buffer_size_bytes") if sizes else "10000", rf"Path::join\(self\.buffer_directory,{ITEM}\.id\)",
                    (B + r"\.non_volatile_buffer_size_bytes") if sizes else "100000", rf"{ITEM}\.type_ is TRIGGER|{TYPE}\?Ok\.0 is TRIGGER|true|false"] + \
                   [rf"Scope::counter_with_labels\(self\.scope,'{x}',after_insert\)(#\d+)?" for x in ("record_write", "record_write_failure", "volatile_overwrite", "record_corrupted", "total_data_loss")] + ["None"]
            bad = [(x, w) for x, w in zip(r, want) if not re.fullmatch(w, x)]
            c.ob("update", sizes is not None and len(r) == len(want) and not bad, i, f"a buffer is made of {bad[:2]}")
            if r[4] in ("true", "false"):
                t = ask(i, rf"({ITEM}\.type_|{TYPE}\?Ok\.0) is TRIGGER")
                c.ob("update", t is not None and r[4] == ("true" if t else "false"), i, "whether it may overwrite is not by its type")
            lab = [n(e) for e in i.trace if repr(e).startswith("BTreeMap::insert(")]
            c.ob("update", lab != [] and all(re.fullmatch(rf"BTreeMap::insert\(BTreeMap::new\(\), 'buffer_id', {ITEM}\.id\)", x) for x in lab), i, f"its counters are labelled {set(lab)}")
            b = re.escape(n(new_[0].res)) + r"\?Ok\.0\.0" if getattr(new_[0], "res", None) is not None else r"RingBuffer::new\(.*\)(#\d+)?\?Ok\.0\.0"
            c.ob("update", re.fullmatch(rf"\({TYPE}\?Ok\.0,{b}\)", n(ins[0].args[2])) is not None, i, "what is in the set is not the buffer made, with its type")
            fresh.add(sizes)
        # those told to be new are those made, each once
        t = n(up[0].args[2])
        c.ob("update", re.match(r"\[each \$2\.buffer_config: \{.*\}\]$", t) is not None, q, f"those told to be new are {t[:100]}")
        cases = [x for x in re.split(r"; |(?<=\{)", t[t.index("{") + 1:-2]) if " => " in x]
        x = [k.split(" => ", 1) for k in cases]
        c.ob("update", len(x) >= 2 and all(("!HashMap::remove" in k) == (v.startswith("one(")) and (not v.startswith("one(") or re.match(rf"one\(\({ITEM}\.id,\({TYPE}\?Ok\.0,RingBuffer::new\(", v)) for k, v in x)
             and all(re.match(r"!?(HashMap::remove\(|MessageField::as_ref\(|RingBuffer::new\(|error::required_proto_enum\(|item\(\$2\.buffer_config\)\.buffer_sizes)", y) for k, _ in x for y in k.strip().split(" & "))
             and sum(v.startswith("one(") for _, v in x) == len([k for k, _ in x if "!HashMap::remove" in k]) >= 1, q, f"those told to be new are not those made: {[(k[:60], v[:60]) for k, v in x]}")
    c.ob("update", kept > 0 and fresh == {True, False}, c.fn(p, f), f"no round keeps a buffer ({kept}), or makes one ({fresh})")
    c.ob("update", ends == {"type", "buffer", "same", "stream"}, c.fn(p, f), f"an update ends in {sorted(map(str, ends))}")


def telling(c):
    c.rule("told", "everyone is told of the buffers that went and came, and the update ends only when all of that was taken up")
    p = c.program("bd_buffer")
    f = M + "Manager::resolve_buffer_updates"
    BE = r"BufferEventWithResponse\{event:(.*),on_processed_tx:Some\(oneshot::channel\(\)(#\d+)?\.0\)\}"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=OPAQUE), is_async=True):
        if not c.ob("told", q.kind == "ret", q, "telling panics, or ends early"):
            continue
        c.ob("told", [show(lp.src) for lp in q.loops() if lp.src is not None] == ["$2", "$3"] and all(q.whole(lp) for lp in q.loops()), q, "not every buffer that went and came is gone through")
        r = n(q.ret)
        got = re.findall(r"=> ([^;}]*)", re.sub(r"BufferEventWithResponse\{.*?\}", "EVENT", r))
        c.ob("told", re.findall(r"each \$([23]): ", r) in (["2", "3"], ["3", "2"]) and got != [] and all(re.fullmatch(r"one\(oneshot::channel\(\)(#\d+)?\.1\)", x) for x in got), q, f"an answer is not waited for: {sorted(set(got))}")
        for lp in q.loops():
            for i in [Iter(q, tr, st) for tr, st in lp.iters]:
                s = show(lp.src)
                own_ = [n(e) for e in i.trace if own(repr(e))]
                mine = [e for e in own_ if f"item({s})" in e or e.startswith("oneshot")]
                snd = [e for e in mine if e.startswith("Sender::send(self.buffer_event_tx, ")]
                if not c.ob("told", len(snd) == 1, i, f"it is told {len(snd)} times"):
                    continue
                m = re.fullmatch(r"Sender::send\(self\.buffer_event_tx, " + BE + r"\)", snd[0])
                x = m.group(1) if m else snd[0]
                aw = [repr(e) for e in i.trace if e.kind == "await"]
                c.ob("told", len(aw) >= 1 and any("Sender::send(self.buffer_event_tx" in e for e in aw), i, "the event is not sent, only prepared")
                if s == "$2":
                    c.ob("told", x == "BufferRemoved(item($2).0)", i, f"a buffer that went is told as {x}")
                    c.ob("told", [e for e in mine if re.fullmatch(r"Atomic::store\(item\(\$2\)\.1\.1\.delete_on_drop, true, \w+\)", e)] != [], i, "the file of a buffer that went is kept for ever")
                    ways.add("gone")
                else:
                    t = ask(i, r"item\(\$3\)\.1\.0 is TRIGGER")
                    t = t if t is not None else None if ask(i, r"item\(\$3\)\.1\.0 is CONTINUOUS") is None else not ask(i, r"item\(\$3\)\.1\.0 is CONTINUOUS")
                    c.ob("told", t is not None and x == ("TriggerBufferCreated" if t else "ContinuousBufferCreated") + "(item($3).0,item($3).1.1)", i, f"a new buffer (trigger: {t}) is told as {x}")
                    c.ob("told", not [e for e in mine if "delete_on_drop" in e], i, "the file of a new buffer is to be deleted")
                    ways.add(f"new {t}")
    c.ob("told", ways == {"gone", "new True", "new False"}, c.fn(p, f), f"what is told is {sorted(ways)}")

    c.rule("stream", "there is a stream buffer exactly while streaming is asked for, a fresh one of the size configured each time, and its coming and going is told")
    f = M + "Manager::resolve_stream_buffer_update"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=OPAQUE + [r"volatile_ring_buffer::RingBufferImpl::new$"]), is_async=True):
        if not c.ob("stream", q.kind == "ret", q, "deciding panics"):
            continue
        on, there = ask(q, r"\$3"), ask(q, r"\$2 is Some")
        snd = [n(e) for e in q.trace if repr(e).startswith("Sender::send(")]
        if not c.ob("stream", on is not None and there is not None, q, "whether streaming is asked for, or already on, is not asked"):
            continue
        ways.add((on, there))
        if on == there:
            c.ob("stream", n(q.ret) == "None" and not snd, q, f"nothing changes, yet {n(q.ret)[:80]}")
            continue
        V = r"RingBufferImpl::new\('[^']*',Watch::read\(self\.stream_buffer_size_flag\)(#\d+)?,RingBufferStats\{.*\}\)(#\d+)?|RingBufferImpl::new\('[^']*',Watch::read\(self\.stream_buffer_size_flag\)(#\d+)?,\S+\)(#\d+)?"
        ev = rf"StreamBufferAdded\(({V})\)" if on else r"StreamBufferRemoved\(\$2\?Some\.0\)"
        c.ob("stream", len(snd) == 1 and re.fullmatch(r"Sender::send\(self\.buffer_event_tx, BufferEventWithResponse\{event:" + ev + r",on_processed_tx:Some\(oneshot::channel\(\)(#\d+)?\.0\)\}\)", snd[0]) is not None, q, f"told is {snd}")
        c.ob("stream", any(e.kind == "await" and "Sender::send(" in repr(e) for e in q.trace), q, "the event is not sent, only prepared")
        c.ob("stream", re.fullmatch(r"Some\(\(oneshot::channel\(\)(#\d+)?\.1," + (rf"Some\(({V})\)" if on else "None") + r"\)\)", n(q.ret)) is not None, q, f"the stream buffer becomes {n(q.ret)[:100]}")
    c.ob("stream", len(ways) == 4, c.fn(p, f), f"cases: {sorted(ways)}")

    c.rule("answered", "who handles an event answers by dropping it, whatever happens")
    for q in c.paths_of(p, "bd_buffer::<ring_buffer::BufferEventWithResponse as std::ops::Drop>::drop"):
        if q.kind == "panic":
            c.ob("answered", ask(q, r"self\.on_processed_tx is Some") is False, q, "dropping an event panics")
            continue
        there = ask(q, r"self\.on_processed_tx is Some")
        c.ob("answered", there is False or [n(e) for e in q.events(True)] == ["Sender::send(self.on_processed_tx?Some.0, ())"], q, "an event is dropped without an answer")
    for q in c.paths_of(p, M + "BufferEventWithResponse::new"):
        c.ob("answered", re.fullmatch(r"\(BufferEventWithResponse\{event:\$1,on_processed_tx:Some\(oneshot::channel\(\)(#\d+)?\.0\)\},oneshot::channel\(\)(#\d+)?\.1\)", n(q.ret)) is not None, q, f"an event is {n(q.ret)}")
    ws = {str(g).split("::{closure")[0] for g in writers(p, "on_processed_tx", "bd_buffer")}
    c.ob("answered", ws <= {M + "BufferEventWithResponse::new", "bd_buffer::<ring_buffer::BufferEventWithResponse as std::ops::Drop>::drop"}, c.fn(p, M + "BufferEventWithResponse::new"), f"the way to answer is changed by {sorted(ws)}")
    for q in c.paths_of(p, M + "Manager::buffers"):
        c.ob("answered", re.search(r"\[each " + LK + r"\.0: \{ ?=> one\(\(item\(" + LK + r"\.0\)\.0,\(item\(" + LK + r"\.0\)\.1\.0,item\(" + LK + r"\.0\)\.1\.1\)\)\)\}\]", n(q.ret)) is not None or re.fullmatch(LK + r"\.0", n(q.ret)) is not None, q, f"the buffers handed out are {n(q.ret)}")
    for q in c.paths_of(p, M + "Manager::stream_buffer"):
        t = ask(q, LK + r"\.1 is Some")
        c.ob("answered", re.fullmatch(rf"Some\({LK}\.1\?Some\.0\)" if t else "None" if t is False else LK + r"\.1", n(q.ret)) is not None, q, f"the stream buffer handed out is {n(q.ret)}")


def flushes(c):
    c.rule("flush", "a flush asked for is done for every buffer named, for all and the stream buffer if none is named, and told to be complete after that; buffers that are gone are passed over, and it goes on until nobody can ask any more")
    p = c.program("bd_buffer")
    f = M + "Manager::process_flushes"
    R = r"await\(Receiver::recv\((phi:)?\S+\)(#\d+)?\)"
    W = R + r"\?Some\.0"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=[r"RingBuffer.*::flush$"], budget=4000), is_async=True):
        c.ob("flush", q.kind == "ret" and n(q.ret) == "Ok(())" and ask(q, R + " is Some") is False, q, f"it ends though more can be asked for: {q.kind} {n(q.ret)[:80]}")
        for i in iterations(q):
            top = [e for e in i.trace]
            fl = [n(e) for e in top if re.match(r"RingBuffer::flush\(", repr(e))]
            snd = [n(e) for e in top if re.match(r"Sender::send\(", repr(e))]
            empty = ask(i, rf"0==len\({W}\.buffers\)")
            inner = [x for x in i.state.facts if re.match(r"HashMap::get\(", n(x))]
            if inner:  # a round over the ids
                there = ask(i, rf"HashMap::get\({LK}\.0,item\((HashMap::keys\({LK}\.0\)|{W}\.buffers|\[each .*\])\)\) is Some")
                if not c.ob("flush", there is not None, i, f"which buffer to flush is looked up as {[n(x)[:120] for x in inner]}"):
                    continue
                src = "keys" if any("HashMap::keys(" in n(x) or "[each lock(" in n(x) for x in inner) else "named"
                c.ob("flush", empty is (src == "keys"), i, f"the buffers flushed are the {src} though those named are none: {empty}")
                good = [e for e in fl if re.fullmatch(rf"RingBuffer::flush\(HashMap::get\({LK}\.0,item\(.*\)\)\?Some\.0\.1\)", e)]
                c.ob("flush", (len(fl) == len(good) == 1) if there else not fl, i, f"a buffer (there: {there}) is flushed by {fl}")
                ways.add((src, there))
                continue
            # a whole request
            if ask(i, R + " is Some") is not True or not any(repr(e) == "LOOP[for]" for e in top) or sum(e.kind == "done" for e in top) < 1:
                continue
            if any(repr(e).startswith("LOOP[collect]") for e in top[-1:]):
                continue
            if not c.ob("flush", empty is not None, i, "whether all are meant is not asked"):
                continue
            st = ask(i, LK + r"\.1 is Some")
            c.ob("flush", (st is None and not fl) if not empty else st is not None and (len(fl) == 1 and re.fullmatch(rf"RingBuffer::flush\({LK}\.1\?Some\.0\)", fl[0]) is not None if st else not fl), i, f"the stream buffer (there: {st}) is flushed by {fl} where all are meant: {empty}")
            tx = ask(i, rf"{W}\.completed_tx is Some")
            c.ob("flush", tx is not None and (len(snd) == 1 and re.fullmatch(rf"Sender::send\({W}\.completed_tx\?Some\.0, \(\)\)", snd[0]) is not None if tx else not snd), i, f"that the flush is complete is told {snd}")
            pos = [k for k, e in enumerate(top) if re.match(r"Sender::send\(", repr(e))]
            c.ob("flush", not pos or all(k < pos[0] for k, e in enumerate(top) if e.kind in ("loop", "done", "lock") or re.match(r"RingBuffer::flush\(", repr(e))), i, "it is told to be complete before it is")
            ways.add(("request", empty, bool(st), tx))
    c.ob("flush", {("keys", True), ("keys", False), ("named", True), ("named", False)} <= ways and {("request", e, s, t) for e in (True, False) for s in (True, False) for t in (True, False) if e or not s} <= ways, c.fn(p, f), f"cases: {sorted(map(str, ways))}")
    for name, want in (("new", r"BuffersWithAck\{buffers:\$1,completed_tx:\$2\}"), ("new_all_buffers", r"BuffersWithAck\{buffers:\[\],completed_tx:\$1\}")):
        for q in c.paths_of(p, M + "BuffersWithAck::" + name):
            c.ob("flush", re.fullmatch(want, n(q.ret)) is not None, q, f"a request is {n(q.ret)}")
    for q in c.paths_of(p, M + "RingBuffer::flush", Config(opaque=[r"aggregate_ring_buffer::RingBufferImpl .*::flush$"])):
        c.ob("flush", [n(e) for e in q.events(True)] == ["RingBuffer::flush(self.buffer)"], q, "a flush does not reach the buffer")


def one(c):
    c.rule("file", "a file that is damaged is deleted and made again, once; any other failure is told; the file goes with the buffer only if it was taken out of the configuration")
    p = c.program("bd_buffer")
    f = M + "RingBuffer::new"
    MB = r"RingBuffer::make_buffer\(\$1,\$2,Path::to_str\(\$3\)\?Some\.0,\$4,\$5,\$8,\$9,\$10,\$6,\$7,\$11\)"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=[r"make_buffer$", r"handle_unexpected"])):
        if not c.ob("file", q.kind == "ret", q, "making a buffer panics"):
            continue
        ev = [n(e) for e in q.events(True)]
        mk_ = [e for e in ev if e.startswith("RingBuffer::make_buffer(")]
        rm = [e for e in ev if re.match(r"fs::|File::", e)]
        if ask(q, r"Path::to_str\(\$3\) is Some") is False:
            c.ob("file", n(q.ret).startswith("Err(") and not mk_ and not rm, q, "a file of no name is used")
            ways.add("name")
            continue
        c.ob("file", all(e.replace(", ", ",") == mk_[0].replace(", ", ",") and re.fullmatch(MB, e.replace(", ", ",")) for e in mk_), q, f"the buffer is made of {mk_}")
        ok = ask(q, MB + r"#1 is Ok")
        lost = ask(q, MB + r"#1\?Err\.0 is AbslStatus") and ask(q, MB + r"#1\?Err\.0\?AbslStatus\.0 is DataLoss")
        RB = r"RingBuffer\{buffer:" + MB + r"#%d\?Ok\.0,delete_on_drop:Atomic::new\(false\),filename:\$3\}"
        if ok:
            c.ob("file", re.fullmatch(r"Ok\(\(" + RB % 1 + r",false\)\)", n(q.ret)) is not None and len(mk_) == 1 and not rm, q, f"a buffer that is fine is not simply used: {rm}")
            ways.add("fine")
        elif lost:
            c.ob("file", len(mk_) == 2 and rm == ["fs::remove_file($3)"] and [e for e in ev if re.match(r"fs::|RingBuffer::make", e)][1] == rm[0], q, f"a damaged file: {[e[:60] for e in ev]}")
            ok2 = ask(q, MB + r"#2 is Ok")
            c.ob("file", ok2 is not None and re.fullmatch(r"Ok\(\(" + RB % 2 + r",true\)\)" if ok2 else r"Err\(BufferCreation\(\$3," + MB + r"#2\?Err\.0\)\)", n(q.ret)) is not None, q, f"a file made again becomes {n(q.ret)[:100]}")
            ways.add(f"again {ok2}")
        else:
            c.ob("file", lost is not None and len(mk_) == 1 and not rm and re.fullmatch(r"Err\(BufferCreation\(\$3," + MB + r"#1\?Err\.0\)\)", n(q.ret)) is not None, q, f"a buffer that failed otherwise: {rm}, {n(q.ret)[:100]}")
            ways.add("failed")
    c.ob("file", ways == {"name", "fine", "again True", "again False", "failed"}, c.fn(p, f), f"cases: {sorted(ways)}")
    for q in c.paths_of(p, M + "RingBuffer::make_buffer", Config(opaque=[r"aggregate_ring_buffer::RingBufferImpl::new$"])):
        ev = [e for e in q.events(True) if "RingBufferImpl::new(" in repr(e)]
        t = ask(q, r"\$5")
        if not c.ob("file", q.kind == "ret" and len(ev) == 1 and t is not None and len(ev[0].args) == 8, q, "no one buffer is made"):
            continue
        a = [n(x) for x in ev[0].args]
        c.ob("file", a[:4] == ["$1", "$2", "$3", "$4"] and a[4] == "Yes" and a[5] == ("Yes" if t else "Block"), q, f"the buffer is made of {a[:6]}")
        v, w = ({k: x for k, x in re.findall(r"(\w+):(Some\(\$\d+\)|\$\d+)", y)} for y in a[6:])
        c.ob("file", v == {"records_overwritten": "Some($6)", "records_refused": "Some($10)", "records_written": "Some($9)"} and w == {"records_corrupted": "Some($7)", "total_data_loss": "Some($8)", "records_written": "$11"}, q, f"counted are {v} {w}")
        c.ob("file", re.sub(r"#\d+$", "", n(q.ret)) == n(ev[0]).replace(", ", ",") or n(q.ret).startswith("RingBufferImpl::new("), q, "what is made is not what is handed out")
    d = "bd_buffer::<ring_buffer::RingBuffer as std::ops::Drop>::drop"
    for q in c.paths_of(p, d, Config(opaque=[r"handle_unexpected"])):
        t = ask(q, r"Atomic::load\(self\.delete_on_drop,\w+\)(#\d+)?")
        rm = [n(e) for e in q.events(True) if re.match(r"fs::|File::", repr(e))]
        c.ob("file", q.kind == "ret" and t is not None and rm == (["fs::remove_file(self.filename)"] if t else []), q, f"dropping a buffer (to be deleted: {t}) does {rm}")
    us = {g.id.split("::{closure")[0] for g in p.by_id.values() if g.kind != "std" and not p.helper_of(g, {f, d, M + "Manager::resolve_buffer_updates"}) and "delete_on_drop" in str(g.blocks) and "::test" not in g.id and "_test" not in g.id and "Debug" not in g.id}
    c.ob("file", not us, c.fn(p, f), f"whether a file is to be deleted is dealt with in {sorted(us)}")

    c.rule("reading", "who reads a whole buffer first keeps writers out and has memory flushed, and keeps them out while it reads; a record read is copied before its place is given back; a cursor's records stay until passed")
    cf = Config(opaque=[r"aggregate_ring_buffer::RingBufferImpl .*RingBuffer>::\w+$"])
    ok = 0
    for q in c.paths_of(p, M + "RingBuffer::new_consumer", cf):
        ev = [n(e) for e in q.events(True)]
        want = ["RingBuffer::lock(self.buffer)", "LockHandle::await_reservations_drained(RingBuffer::lock(self.buffer)#1)", "RingBuffer::flush(self.buffer)", "RingBuffer::register_consumer(self.buffer)"]
        c.ob("reading", q.kind == "ret" and ev[:4] == want, q, f"before reading it does {ev}")
        if ask(q, r"RingBuffer::register_consumer\(self\.buffer\)#1 is Ok"):
            c.ob("reading", n(q.ret) == "Ok(Consumer{_buffer:self,_lock_handle:RingBuffer::lock(self.buffer)#1,consumer:RingBuffer::register_consumer(self.buffer)#1?Ok.0})", q, f"the reader is {n(q.ret)}")
            ok += 1
        else:
            c.ob("reading", n(q.ret).startswith("Err("), q, "no reader, and no error")
    c.ob("reading", ok == 1, c.fn(p, M + "RingBuffer::new_consumer"), "nobody can read")
    for q in c.paths_of(p, M + "RingBuffer::create_continous_consumer", cf):
        t = ask(q, r"RingBuffer::register_cursor_consumer\(self\.buffer\)#1 is Ok")
        c.ob("reading", t is not None and (n(q.ret) == "Ok(CursorConsumer{_buffer:self,cursor_consumer:RingBuffer::register_cursor_consumer(self.buffer)#1?Ok.0})" if t else n(q.ret).startswith("Err(")), q, f"the cursor is {n(q.ret)}")
    for q in c.paths_of(p, M + "RingBuffer::new_thread_local_producer", cf):
        t = ask(q, r"RingBuffer::register_producer\(self\.buffer\)#1 is Ok")
        c.ob("reading", t is not None and (n(q.ret) == "Ok(RingBuffer::register_producer(self.buffer)#1?Ok.0)" if t else n(q.ret).startswith("Err(")), q, f"the producer is {n(q.ret)}")
    S = r"RingBufferConsumer::start_read(self.consumer,false)#1"
    for q in c.paths_of(p, M + "Consumer::try_read"):
        s, g = ask(q, re.escape(S) + " is Ok"), ask(q, r"RingBufferConsumer::finish_read\((self\.consumer|after_start_read)\)#1 is Ok")
        ev = [n(e) for e in q.trace if e.kind == "call"]
        if s is False:
            c.ob("reading", n(q.ret) == f"Err({S}?Err.0)" and len(ev) == 1, q, "nothing to read is not told")
            continue
        c.ob("reading", s is True and g is not None and sum("finish_read(" in e for e in ev) == 1 and (n(q.ret) == f"Ok({S}?Ok.0)" if g else n(q.ret).startswith("Err(")), q, f"a record read: {ev}, {n(q.ret)}")
    for ty, tr, name, call in (("Consumer", "RingBufferConsumer", "read", "read"), ("CursorConsumer", "RingBufferCursorConsumer", "read", "read"), ("CursorConsumer", "RingBufferCursorConsumer", "advance_read_cursor", "advance_read_pointer")):
        x = "consumer" if ty == "Consumer" else "cursor_consumer"
        for q in c.paths_of(p, M + f"{ty}::{name}", is_async=name == "read"):
            r = f"{tr}::{call}(self.{x})#1"
            r = f"await({r})" if name == "read" else r
            t = ask(q, re.escape(r) + " is Ok")
            c.ob("reading", t is not None and (n(q.ret) in (f"Ok({r}?Ok.0)", "Ok(())") if t else n(q.ret).startswith("Err(")) and sum(e.kind == "call" and repr(e).startswith(tr) for e in q.trace) == 1, q, f"{name} gives {n(q.ret)}")


GROUPS = [updating, telling, flushes, one]
FLOORS = {"update": 20, "told": 15, "stream": 8, "answered": 5, "flush": 20, "file": 15, "reading": 12}
