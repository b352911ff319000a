"""The two-level buffer: what was written to memory gets to the file, whole and in order, or is dropped for a reason."""
from rules import *
import json
from c46 import n, evs, ask, after, facts

A = "bd_buffer::buffer::aggregate_ring_buffer::"
I = "bd_buffer::<buffer::aggregate_ring_buffer::RingBufferImpl as buffer::RingBuffer>::"
REG = [r"::register_(consumer|producer|cursor_consumer)$"]
VOL, NON = "self.shared_data.volatile_buffer", "self.shared_data.non_volatile_buffer"


def flushing(c):
    c.rule("flush-loop", "the flush thread takes each record from memory, reserves its size in the file, copies it whole, commits, and only then finishes the read; it drops one only if the file cannot take it, and ends only on shutdown")
    p = c.program("bd_buffer")
    f = A + "SharedData::flush_thread_func"
    READ = r"RingBufferConsumer::start_read\((phi:)?\S+, ?true\)(#\d+)?"
    KEPT = {"Unavailable", "InvalidArgument"}
    ways = set()

    def step(q, goes_on):
        ev = [e for e in evs(q) if re.match(r"RingBuffer(Consumer|Producer)::|slice::|\w+::copy|Atomic::", e)]
        read = ask(q, READ + " is Ok")
        down = ask(q, r"Atomic::load\(self\.shutdown_flush_thread,\w+\)(#\d+)?")
        R = r"RingBufferConsumer::start_read\((phi:)?consumer,true\)(#\d+)?\?Ok\.0"
        RES = rf"RingBufferProducer::reserve\((phi:)?producer,\(len\({R}\) as u32\),true\)(#\d+)?"
        took = ask(q, RES + " is Ok")
        why = None
        if took is False:
            k = [(x, v) for x, v in facts(q).items() if re.fullmatch(RES + r"\?Err\.0\?AbslStatus\.0 is \w+", x)]
            yes = [x.rsplit(" ", 1)[1] for x, v in k if v]
            no = {x.rsplit(" ", 1)[1] for x, v in k if not v}
            why = yes[0] if yes else "other" if KEPT <= no or ask(q, RES + r"\?Err\.0 is AbslStatus") is False else None
            if not c.ob("flush-loop", why is not None, q, "why there is no place is not asked"):
                return
        if goes_on:
            if not c.ob("flush-loop", down is False and read is True, q, "it goes on though it is to stop, or there is no record"):
                return
            if not c.ob("flush-loop", took is not None, q, "a record is passed without having asked for a place of its size in the file"):
                return
            c.ob("flush-loop", ev.count("RingBufferConsumer::finish_read(after_start_read)") == 1 and ev[-1] == "RingBufferConsumer::finish_read(after_start_read)" and ask(q, r"RingBufferConsumer::finish_read\(after_start_read\)(#\d+)? is Ok") is not False, q, "the read is not finished exactly once, and last")
            cp = [e for e in ev if re.search(r"copy|slice::", e)]
            cm = [e for e in ev if e.startswith("RingBufferProducer::commit(")]
            if took:
                c.ob("flush-loop", len(cp) == 1 and re.fullmatch(rf"slice::(copy|clone)_from_slice\({RES}\?Ok\.0, {R}\)", cp[0]) is not None and len(cm) == 1 and cm == ["RingBufferProducer::commit(after_reserve)"]
                     and ev.index(cp[0]) < ev.index(cm[0]), q, f"what is committed is not the whole record: {cp} {cm}")
                ways.add("written")
            else:
                c.ob("flush-loop", why in KEPT and not cp and not cm, q, f"a record that found no place ({why}) is dropped though the file could take it later")
                ways.add("dropped")
            return
        c.ob("flush-loop", down is True or read is False or took is False and why not in KEPT, q, f"it ends though it is not to stop: read {read}, place {took} {why}")
        c.ob("flush-loop", not [e for e in ev if re.search(r"finish_read|commit", e)] or down is True, q, "the record it ends at counts as flushed")
        ways.add("stop" if down else "no record" if read is False else "no place")

    for q in c.paths_of(p, f, Config(opaque=REG)):
        if q.kind == "ret":
            step(q, False)
            regs = [n(e) for e in q.trace if re.match(r"RingBuffer::register", repr(e))]
            c.ob("flush-loop", sorted(regs) == ["RingBuffer::register_consumer(self.volatile_buffer)", "RingBuffer::register_producer(self.non_volatile_buffer)"], q, f"it moves records from and to {regs}")
        elif q.kind == "panic":
            err = [k for k, v in facts(q).items() if k.endswith(" is Ok") and not v]
            c.ob("flush-loop", err != [], q, "the flush thread panics though nothing failed")
        for i in iterations(q):
            step(i, True)
    c.ob("flush-loop", ways == {"written", "dropped", "stop", "no record", "no place"}, c.fn(p, f), f"the ways through are {sorted(ways)}")


def making(c):
    c.rule("made", "a buffer is made only if its file's space, without the header, is at least its memory; file and memory have the sizes and modes asked for, and the flush thread runs on them before anyone uses them")
    p = c.program("bd_buffer")
    f = A + "RingBufferImpl::new"
    fn = c.fn(p, f)
    b = json.dumps(fn.blocks)
    ty = set(re.findall(r"size_of::?<([^<>]*)>", b)) | set(re.findall(r'size_of[^"]{0,40}?::<([^<>]*)>', b))
    c.ob("made", any(t.endswith("FileHeader") for t in ty) and all(t.endswith("FileHeader") for t in ty), fn, f"the space compared is that without {sorted(ty)}")
    NV = r"(RingBufferImpl::new\((cat\(\$1,'-non-volatile'\)|\S+?),\$3,\$4,\$6,Yes,\$5,\$8\)(#\d+)?)"
    NVE = r"(RingBufferImpl::new\((cat\(\$1,'-non-volatile'\)|\S+?), \$3, \$4, \$6, Yes, \$5, \$8\))"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=REG + [r"non_volatile_ring_buffer::RingBufferImpl::new$", r"::volatile_ring_buffer::RingBufferImpl::new$", r"flush_thread_func$"])):
        if not c.ob("made", q.kind == "ret", q, "making a buffer panics"):
            continue
        small = ask(q, r"\$4<4")
        less = [v for k, v in q.state.facts.items() if k.op == "lt" and re.fullmatch(r"Sub\(\$4,4\)<\$2|\(\$4-4\)<\$2", n(k))]
        less += [not v for k, v in q.state.facts.items() if k.op == "lt" and n(k) == "$4<Add($2,4)"]
        new = [n(e) for e in q.events(True) if re.search(r"::new\(cat|::spawn\(", n(e))]
        if n(q.ret).startswith("Err(AbslStatus(InvalidArgument"):
            c.ob("made", (small is True or less == [True]) and not new, q, "sizes that fit are refused")
            ways.add("small" if small else "less")
            continue
        c.ob("made", small is False and less == [False], q, "a buffer is made of a file that is smaller than its memory")
        nv = [e for e in new if re.fullmatch(NVE, e)]
        if not c.ob("made", len(nv) == 1, q, f"the file is made otherwise than asked for: {new}"):
            continue
        if ask(q, NV + " is Ok") is False:
            c.ob("made", re.fullmatch(r"Err\(" + NV + r"\?Err\.0\)", n(q.ret)) is not None, q, "that there is no file is not told")
            ways.add("file")
            continue
        SH = rf"SharedData\{{allow_overwrite:\$6,non_volatile_buffer:{NV}\?Ok\.0,shutdown_flush_thread:Atomic::new\(false\),volatile_buffer:(RingBufferImpl::new\((cat\(\$1,'-volatile'\)|\S+?),\$2,\$7\)(#\d+)?)\}}"
        sp = next((e for e in new if "::spawn(" in e), None)
        if not c.ob("made", sp is not None and re.search(SH, sp) is not None, q, f"the flush thread is not run on the two buffers made: {sp}"):
            continue
        if n(q.ret).startswith("Err("):
            c.ob("made", ask(q, r"Builder::spawn\(.*\)(#\d+)? is Ok") is False, q, "it is refused though all was made")
            ways.add("thread")
            continue
        r = n(q.ret)
        c.ob("made", re.search(r"shared_data:" + SH, r) is not None and re.search(r"flush_thread:Some\(Builder::spawn\(", r) is not None and r.endswith("shutdown_lock_handle:Mutex::new(None)})") or "shutdown_lock_handle:default(" in r or "shutdown_lock_handle:Mutex::default(" in r, q,
             "the buffer is not of the two buffers made and the thread")
        ways.add("made")
    c.ob("made", ways == {"small", "less", "file", "thread", "made"}, fn, f"the ways through are {sorted(ways)}")
    clo = [g for g in p.by_id.values() if re.fullmatch(re.escape(f) + r"::\{closure#\d+\}", g.id)]
    runs = 0
    for g in clo:
        for q in c.paths_of(p, g, Config(opaque=[r"flush_thread_func$"])):
            e = [n(x) for x in q.events(True) if "flush_thread_func" in repr(x)]
            runs += bool(e and e == ["SharedData::flush_thread_func($1.cloned_shared_data)"] or len(e) == 1 and re.fullmatch(r"SharedData::flush_thread_func\(\$1\.\w+\)", e[0]) is not None)
    c.ob("made", runs == 1, fn, "the thread does not run the flush loop")
    us = {g.id.split("::{closure")[0] for g in p.users(c.fn(p, A + "SharedData::flush_thread_func"))}
    c.ob("made", us == {f}, fn, f"the flush loop is also run by {sorted(us - {f})}")


def parts(c):
    c.rule("parts", "producers write to memory and consumers read from the file; a flush waits until memory has drained, a drain until the file has; the lock keeps writers out of memory")
    p = c.program("bd_buffer")
    cf = Config(opaque=REG + [r"::wait_for_drain$", r"volatile_ring_buffer::RingBufferImpl as .*RingBuffer>::(shutdown|lock)$"])
    for name, to in (("register_consumer", NON), ("register_cursor_consumer", NON), ("register_producer", VOL), ("wait_for_drain", NON), ("flush", VOL), ("lock", VOL)):
        call = "wait_for_drain" if name == "flush" else name
        for q in c.paths_of(p, I + name, cf):
            ev = [n(e) for e in q.events(True)]
            c.ob("parts", q.kind == "ret" and len(ev) == 1 and re.fullmatch(rf"[\w:<>]*::{call}\({re.escape(to)}\)", ev[0]) is not None and (n(q.ret) == "()" or n(q.ret).split("#")[0] == ev[0]), q, f"{name} does {ev}")
    for q in c.paths_of(p, A + "RingBufferImpl::non_volatile_buffer"):
        c.ob("parts", n(q.ret) == NON, q, f"the file's buffer is {q.ret}")


def shutting(c):
    c.rule("shutdown", "shutting down first keeps new writes out and waits for those under way, then, where overwriting is allowed, for memory to reach the file, and only then stops the thread and both buffers; once only, and dropping the buffer waits for the thread")
    p = c.program("bd_buffer")
    cf = Config(opaque=[r"::wait_for_drain$", r"volatile_ring_buffer::RingBufferImpl as .*RingBuffer>::(shutdown|lock)$"])
    ways = set()
    f = I + "shutdown"
    for q in c.paths_of(p, f, cf):
        if not c.ob("shutdown", q.kind == "ret", q, "shutting down panics"):
            continue
        ev = [n(e) for e in q.events(True)]
        core = [e for e in ev if not re.match(r"(un)?lock:", e)]
        again = ask(q, r"lock\(self\.shutdown_lock_handle\)#1 is Some")
        if not c.ob("shutdown", again is not None and ev[:1] == ["lock:lock(self.shutdown_lock_handle)"], q, "whether it is shut down already is not asked first, under the lock"):
            continue
        if again:
            c.ob("shutdown", core == [] and not after(q), q, f"it is shut down again: {core}")
            ways.add("again")
            continue
        block = ask(q, r"self\.shared_data\.allow_overwrite is Block")
        block = block if block is not None else None if ask(q, r"self\.shared_data\.allow_overwrite is Yes") is None else not ask(q, r"self\.shared_data\.allow_overwrite is Yes")
        if not c.ob("shutdown", block is not None, q, "whether the file can always take what memory holds is not asked"):
            continue
        want = [f"RingBuffer::lock({VOL})", f"LockHandle::await_reservations_drained(RingBuffer::lock({VOL})#1)"] + ([] if block else [f"RingBuffer::wait_for_drain({VOL})"]) + \
               ["STORE", f"RingBuffer::shutdown({VOL})", f"RingBuffer::shutdown({NON})"]
        got = [re.sub(r"Atomic::store\(self\.shared_data\.shutdown_flush_thread, true, \w+\)", "STORE", e) for e in core]
        c.ob("shutdown", got == want or got == want[:-2] + [want[-1], want[-2]], q, f"shutting down does {got}")
        c.ob("shutdown", after(q).get("lock(self.shutdown_lock_handle)#1") == f"Some(RingBuffer::lock({VOL})#1)", q, "the lock that keeps writers out is not kept")
        ways.add("block" if block else "flush")
    c.ob("shutdown", ways == {"again", "block", "flush"}, c.fn(p, f), f"the ways through are {sorted(ways)}")
    d = "bd_buffer::<buffer::aggregate_ring_buffer::RingBufferImpl as std::ops::Drop>::drop"
    for q in c.paths_of(p, d, Config(opaque=[r"aggregate_ring_buffer::RingBufferImpl as .*RingBuffer>::shutdown$"])):
        ev = [n(e) for e in q.events(True)]
        if q.kind == "panic":
            c.ob("shutdown", "RingBuffer::shutdown(self)" in ev, q, "dropping the buffer does not stop its thread")
            continue
        c.ob("shutdown", ev == ["RingBuffer::shutdown(self)", "JoinHandle::join(self.flush_thread?Some.0)"], q, f"dropping the buffer does {ev}")
    # the flag is set by nothing else
    for g in p.by_id.values():
        if g.kind == "std" or "_test::" in g.id or g.id.split("::{closure")[0] == f:
            continue
        b = json.dumps(g.blocks) if "aggregate_ring_buffer" in g.id else ""
        if "shutdown_flush_thread" in b and re.search(r"Atomic\w*::(store|swap|fetch_\w+|compare_exchange\w*)", b):
            c.ob("shutdown", p.helper_of(g, c.fn(p, f)) if hasattr(p, "helper_of") else False, g, "the flush thread is stopped by something else than a shutdown")


GROUPS = [flushing, making, parts, shutting]
FLOORS = {"flush-loop": 15, "made": 10, "parts": 7, "shutdown": 10}
