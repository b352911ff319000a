"""C47: a damaged buffer file is noticed."""
import json

from c46 import *

N = "bd_buffer::buffer::non_volatile_ring_buffer::"
HEAD = ("next_write_start", "committed_write_start", "last_write_end_before_wrap", "next_read_start")


def s(x):
    """c46's names, with the file, its map and its header"""
    x = n(x)
    i = x.find("OpenOptions::open(")
    while i >= 0:
        x = x[:i] + "OPEN" + x[close(x, i + 17) + 1:]
        i = x.find("OpenOptions::open(")
    x = x.replace("OPEN#1?Ok.0", "FILE").replace("MmapMut::map_mut(FILE)#1?Ok.0", "MAP").replace("File::metadata(FILE)#1?Ok.0", "META")
    return x.replace("mut_ptr::as_mut(slice::as_mut_ptr(MAP))?Some.0", "HEADER").replace("non_volatile_ring_buffer::", "")


def said(q, pat):
    for k, v in q.state.facts.items():
        if re.fullmatch(pat, s(k)):
            return v
    return None


def either(a, b):
    return rf"({a}=={b}|{b}=={a})"


def checksum(c):
    c.rule("checksum", "the checksum of the header covers each of its four positions, that of a record everything behind the space for the checksum itself, and nothing of an earlier one is in it")
    p = c.program("bd_buffer")
    for q in c.paths_of(p, N + "compute_header_crc_32", Config(opaque=["do_crc32$"])):
        ev = [e for e in q.events() if e.name == "non_volatile_ring_buffer::do_crc32" and e.kind == "call"]
        if not c.ob("checksum", len(ev) == 1 and q.kind == "ret" and q.ret == f"non_volatile_ring_buffer::do_crc32({show(ev[0].args[0])})#1", q, "the checksum of the header is not one"):
            continue
        m = dict(re.findall(r"(\w+)=(\$\d)\b", show(ev[0].args[0])))
        g = closure_fn(q, ev[0].args[0])
        k = 0
        for x in c.paths_of(p, g, Config(opaque=[r"Hash.*::hash$", r"Hasher.*::(update|write\w*)$"])):
            k += 1
            h = [show(e.args[0]) for e in x.events() if re.search(r"::(hash|update|write\w*)$", e.name)]
            got = [m.get(a[3:]) for a in h if a.startswith("$1.")]
            c.ob("checksum", x.kind == "ret" and len(h) == len(got) == 4 and set(got) == {"$1", "$2", "$3", "$4"}, x, f"the checksum of the header covers {h}")
        c.ob("checksum", k > 0, q, "what the checksum covers is unknown")
    for q in c.paths_of(p, N + "do_crc32"):
        ev = [e for e in q.events() if e.kind in ("call", "opaque") or e.name.startswith(("call:", "Hasher"))]
        names = ["over" if e.name.startswith("call:") else e.name.split("::")[-1] for e in ev if e.name.startswith(("call:", "Hasher"))]
        c.ob("checksum", q.kind == "ret" and "over" in names and names.count("finalize") == 1 and (names.index("over") < names.index("finalize")) and ("reset" in names and (names.index("reset") > names.index("finalize") or names.index("reset") < names.index("over")) or "new" in names), q, f"one checksum is mixed with another: {names}")
        c.ob("checksum", q.ret.startswith("Hasher::finalize("), q, f"the checksum is {q.ret[:80]}")
    for q in c.paths_of(p, N + "per_record_crc32", Config(opaque=["do_crc32$"])):
        up = [e for e in q.events() if e.name == "Hasher::update"]
        ok = len(up) == 1 and q.kind == "ret" and q.ret.startswith("non_volatile_ring_buffer::do_crc32(")
        if c.ob("checksum", ok, q, "the checksum of a record is not one"):
            m = re.fullmatch(r"Index::index\(MEM,Range\{end:(.*),start:(.*)\}\)", n(up[0].args[1]))
            r = up[0].args[1]
            rng = [x for x in subterms(r) if x.op == "agg" and show(x).startswith("Range{")]
            a, b = (lin(fld(rng[0], "start")), lin(fld(rng[0], "end"))) if rng else ({}, {})
            c.ob("checksum", m is not None and a == {"$2.start": 1, "$3": 1} and b == {"$2.start": 1, "$2.size": 1}, q, f"the checksum of a record covers {n(r)[:120]}")


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    out, work = [], [t]
    while work:
        x = work.pop()
        if id(x) in seen or not hasattr(x, "op"):
            continue
        seen.add(id(x))
        out.append(x)
        st = list(x.a)
        while st:
            y = st.pop()
            if hasattr(y, "op"):
                work.append(y)
            elif isinstance(y, (tuple, list)):
                st.extend(y)
    return out


CHANGES = (r"advance_next_read_due_to_write", r"advance_next_commited_write_start", r"finish_read_common", r"maybe_do_total_data_loss_reset", r"advance_next_read", r"on_total_data_loss", r"total_data_loss_reset")


def header(c):
    c.rule("header", "the checksum in the header is that of the positions in it whenever the lock is given back, however they changed")
    p = c.program("bd_buffer")
    for q in c.paths_of(p, N + "write_header_crc32", Config(opaque=["worker$"])):
        ev = [e for e in evs(q) if "write_header_crc32_worker(" in e]
        c.ob("header", q.kind == "ret" and ev == ["non_volatile_ring_buffer::write_header_crc32_worker(XL, NW, CW, LW, NR)"], q, f"the checksum is of {ev}")
    for q in c.paths_of(p, N + "write_header_crc32_worker", Config(opaque=["compute_header_crc_32$"])):
        a = {n(k): n(v) for k, v in q.heap(".*").items()}
        c.ob("header", q.kind == "ret" and a.get("NonNull::as_mut($1.crc32.0)") == "non_volatile_ring_buffer::compute_header_crc_32($2,$3,$4,$5)#1", q, f"the header gets {a}")
    f = next(x for x in p.by_id if re.search(r"non_volatile_ring_buffer::ExtraLockedData::on_total_data_loss$", x))
    for q in c.paths_of(p, f, Config(opaque=["compute_header_crc_32$", "worker$"])):
        c.ob("header", q.kind == "ret" and evs(q) == ["non_volatile_ring_buffer::write_header_crc32_worker($1, 0, None, None, None)"] or evs(q) == ["non_volatile_ring_buffer::write_header_crc32_worker(self, 0, None, None, None)"], q, f"when everything is given up the header gets the checksum of {evs(q)}")
    # every function of this kind of buffer that changes a position, directly or through the part common to both
    from c46 import OPQ
    keep = [o for o in OPQ if not any(re.search(o, "LockedData::" + x) for x in ())]
    own = [g for g in p.by_id.values() if g.kind != "std" and "non_volatile_ring_buffer" in g.id and "{closure" not in g.id and "test" not in g.id]
    n_ = 0
    for g in own:
        if re.search(r"(RingBufferImpl::new|write_header_crc32\w*|compute_header_crc_32|do_crc32|per_record_crc32|on_total_data_loss|::_)$", g.id):
            continue
        body = json.dumps(g.blocks)
        if not re.search(r"::(" + "|".join(CHANGES) + r")\b|::(next_write_start|committed_write_start|last_write_end_before_wrap|next_read_start)\b", body):
            continue
        k = cfg(r"NonNull.*as_ref$")
        for q in c.paths_of(p, g, k):
            if q.kind != "ret":
                continue
            for tr, q_ in [(list(q.trace), q)] + [(list(i.trace), i) for i in iterations(q)]:
                ev = [n(e) for e in tr]
                last = max([j for j, e in enumerate(ev) if re.match(r"(" + "|".join(CHANGES) + r")\(", e)], default=None)
                if last is None:
                    continue
                n_ += 1
                # refused for the sake of a reader: nothing was changed but by a reset, which has a checksum of its own
                if q_ is q and q.ret.startswith("Err(") and re.match(r"advance_next_read_due_to_write\(", ev[last]):
                    continue
                c.ob("header", any(re.match(r"(non_volatile_ring_buffer::)?write_header_crc32\(", e) for e in ev[last + 1:]), q_, f"after {ev[last][:60]} the header keeps the checksum of what was")
            # positions written here
            w = [j for j, e in enumerate(q.trace) if re.match(r"finish_reservation\(", n(e))]
            if w:
                n_ += 1
                c.ob("header", any(re.match(r"(non_volatile_ring_buffer::)?write_header_crc32\(", n(e)) for e in q.trace[w[-1] + 1:]), q, "after a place was taken the header keeps the checksum of what was")
    c.ob("header", n_ > 0, p.by_id[N + "write_header_crc32"], "no position ever changes")
    for path, ty, pat in (("common_ring_buffer::", "u32", 3), ("non_volatile_ring_buffer::", "FileHeader", 1), ("aggregate_ring_buffer::", "FileHeader", 1)):
        got = []
        for g in p.by_id.values():
            if g.kind != "std" and path in g.id and "test" not in g.id and not g.id.endswith("::_"):
                got += [(g, t.split("::")[-1]) for t in re.findall(r"\{std::mem::size_of::<([\w:]+)>\}", json.dumps(g.blocks))]
        c.ob("header", len(got) >= pat and all(t == ty for _, t in got), got[0][0] if got else p.by_id[N + "write_header_crc32"], f"sizes are those of {[t for _, t in got]}")


def record(c):
    c.rule("record", "a record is committed with its own checksum and returned only if it still has it; one that has not is counted and passed, and the next is tried; without a cursor the checksum of what was read is wiped, so that it is never read again")
    p = c.program("bd_buffer")
    f = impl(p, W, "ProducerImpl", "RingBufferProducer", "commit")
    ways = set()
    R = "XL.producer?Some.0.reservation?Some.0"
    for q in c.paths_of(p, f, cfg()):
        if q.kind != "ret" or not q.ret.startswith("Ok"):
            continue
        y = ask(q, r".*per_record_crc32_check is Yes")
        y = (lambda v: None if v is None else not v)(ask(q, r".*per_record_crc32_check is No")) if y is None else y
        ev = evs(q)
        cr = [j for j, e in enumerate(ev) if re.search(r"per_record_crc32\(", e) and not e.startswith(("slice", "Slice", "note", "maybe"))]
        wr = [j for j, e in enumerate(ev) if "copy_from_slice(" in e and not e.startswith(("note", "maybe", "write"))]
        if not c.ob("record", y is not None, q, "whether records have checksums is not asked"):
            continue
        if not y:
            c.ob("record", not wr, q, "a checksum is written where there is no space for it")
        else:
            ok = len(cr) == len(wr) == 1
            if c.ob("record", ok, q, f"the record is committed without its checksum: {ev}"):
                a = q.events()
                m = re.search(r"per_record_crc32\((?:G|after_\w+), (.*), len\(finish_commit_common\(.*\)(#\d+)?\)\)", ev[cr[0]])
                c.ob("record", m is not None and m.group(1) == R, q, f"the checksum is that of {ev[cr[0]][:200]}")
                c.ob("record", re.search(r"copy_from_slice\(finish_commit_common\(.*\)(#\d+)?, num::to_ne_bytes\((non_volatile_ring_buffer::)?per_record_crc32\(", ev[wr[0]]) is not None, q, f"what is written is {ev[wr[0]][:200]}")
                unl = [j for j, e in enumerate(ev) if e.startswith("unlock:")]
                c.ob("record", all(j > wr[0] for j in unl), q, "the checksum is written after the record can be read")
        ways.add(y)
    c.ob("record", ways == {True, False}, f, f"the ways through are {ways}")
    f = p.by_id[N + "common_consumer_start_read"]
    k = Config(pure=KEEP, opaque=[r"LockedData.*::start_read$", r"finish_read_common$", r"write_header_crc32$", r"per_record_crc32$", r"zero_extra_data$", r"::from_\w\we?_bytes$"], budget=6000)
    S = r"start_read\(\$1,\$2,\$3,\$4,\$5\)(#\d+)?"
    CRC = rf"per_record_crc32\((\$1|after_start_read),after_start_read\?Some\.0,len\({S}\?Ok\.0\.extra_space\)\)(#\d+)?"
    SUM = rf"num::from_ne_bytes\(TryInto::try_into\({S}\?Ok\.0\.extra_space\)(#\d+)?(\?Ok\.0)?\)(#\d+)?"
    ways = set()

    def one(q, kind):
        ev = [s(e) for e in q.trace if e.kind != "loop"]
        y = said(q, r"after_start_read\.extra_locked_data\.per_record_crc32_check is Yes")
        y = (lambda v: None if v is None else not v)(said(q, r"after_start_read\.extra_locked_data\.per_record_crc32_check is No")) if y is None else y
        cur = said(q, r"\$5 is Yes")
        cur = (lambda v: None if v is None else not v)(said(q, r"\$5 is No")) if cur is None else cur
        eq = said(q, either(CRC, SUM))
        st = [e for e in ev if e.startswith("start_read(")]
        z = [j for j, e in enumerate(ev) if e.startswith("zero_extra_data(")]
        ld = [j for j, e in enumerate(ev) if "from_ne_bytes(" in e]
        c.ob("record", st == ["start_read($1, $2, $3, $4, $5)"] or not st and kind == "err", q, f"what is read is {st}")
        if kind == "err":
            return
        if not c.ob("record", y is not None, q, "whether records have checksums is not asked"):
            return
        if y:
            if not c.ob("record", eq is (kind == "ok") and cur is not None, q, "a record is returned though its checksum is wrong" if kind == "ok" else "a record is passed though its checksum is right"):
                return
            c.ob("record", len(z) == (0 if cur else 1) and (cur or re.fullmatch(r"zero_extra_data\((\$1|after_\w+), after_start_read\?Some\.0\.start\)", ev[z[0]])), q, "the checksum is not wiped" if not cur else "the checksum of what a cursor read is wiped")
            c.ob("record", not z or ld and ld[0] < z[0], q, "the checksum is wiped before it is looked at")
        else:
            c.ob("record", kind == "ok", q, "a record without a checksum is passed")
        fin = [e for e in ev if e.startswith("finish_read_common(")]
        cnt = ask(q, r"after_\w+\.stats\.records_corrupted is Some")
        inc = [e for e in ev if re.match(r"Counter::inc\(after_\w+\.stats\.records_corrupted\?Some\.0\)", e)]
        if kind == "ok":
            c.ob("record", not fin and not inc, q, "a record is returned and passed")
        else:
            c.ob("record", cnt is not None and len(inc) == (1 if cnt else 0), q, "a damaged record is not counted")
            c.ob("record", fin == ([] if cur else ["finish_read_common($1, $2, after_start_read?Some.0)"]), q, f"the damaged record is not passed: {fin}")
            c.ob("record", n(after(q).get("$4", "")) == "None", q, f"what is remembered as being read is {after(q).get('$4')}")
        ways.add((kind, y, cur))

    for q in c.paths_of(p, f, k):
        if q.kind != "ret":
            continue
        ok = re.fullmatch(rf"Ok\({S}\?Ok\.0\.record_data\)", s(q.ret))
        c.ob("record", ok is not None or re.fullmatch(rf"Err\({S}\?Err\.0\)", s(q.ret)) is not None, q, f"what is returned is {s(q.ret)[:120]}")
        one(q, "ok" if ok else "err")
        for i in iterations(q):
            one(i, "damaged")
    c.ob("record", ways == {("ok", True, True), ("ok", True, False), ("ok", False, None), ("damaged", True, True), ("damaged", True, False)}, f, f"the ways through are {sorted(map(str, ways))}")
    for q in c.paths_of(p, L + "zero_extra_data", Config(opaque=[r"::extra_data$"])):
        ev = evs(q)
        c.ob("record", q.kind == "ret" and any(re.fullmatch(r"slice::fill\(extra_data\(.*, \$2\)(#\d+)?, 0\)|slice::fill\(extra_data\(.*,\$2\)(#\d+)?, 0\)", e) for e in ev), q, f"what is wiped: {ev}")


def opening(c):
    c.rule("opening", "a file is used only if it has the size asked for, the version and size it says, and the checksum its positions have; one of another size becomes a new one; nobody else may have it open; the positions and the memory are those of the file")
    p = c.program("bd_buffer")
    f = next(x for x in p.by_id if re.fullmatch(N + "RingBufferImpl::new", x))
    ways = {}
    for q in c.paths_of(p, f, Config(opaque=[r"CommonRingBuffer.*::new$", r"compute_header_crc_32$"], budget=6000)):
        if q.kind != "ret":
            continue
        ev = [s(e) for e in q.events()]
        same = said(q, either(r"\$3", r"len\(META\)"))
        err = re.match(r"Err\(AbslStatus\((\w+),'?([^')]*)", s(q.ret))
        crc = said(q, either(r"HEADER\.crc32", rf"compute_header_crc_32\({','.join('HEADER.' + h for h in HEAD)}\)(#\d+)?".replace(".", r"\.").replace(r"\(#\d", r"(#\d")))
        if err and err.group(1) == "DataLoss":
            # as the rest, which need not be listed: something about the file is wrong
            new = said(q, either(r"compute_header_crc_32\(0,None,None,None\)#1", r"compute_header_crc_32\(0,None,None,None\)#2"))
            c.ob("opening", said(q, r"1==HEADER\.version") is False or said(q, r"\$3==HEADER\.size|HEADER\.size==\$3") is False or crc is False or new is False, q, "a file is given up though nothing is wrong with it")
            c.ob("opening", same is True or new is False, q, "a file of another size is given up")
            ways["lost"] = ways.get("lost", 0) + 1
        elif err:
            c.ob("opening", err.group(1) == "InvalidArgument" and not (said(q, r"1==HEADER\.version") is False or said(q, r"\$3==HEADER\.size|HEADER\.size==\$3") is False or crc is False), q, f"that the file cannot be used is a {err.group(1)}")
            ways["err"] = ways.get("err", 0) + 1
        else:
            c.ob("opening", said(q, r"\$3<4") is False, q, "a file with no space for a header is used")
            op = [s(e) for e in q.events() if e.name.startswith("OpenOptions::") or e.name == "File::options"]
            o = [show(a) for e in q.events() if e.name == "OpenOptions::open" for a in e.args]
            want = {"read": "true", "write": "true", "create": "true"}
            got = dict(re.findall(r"OpenOptions::(\w+)\(.*?, (true|false)\)$", "\n".join(repr(e) for e in q.events() if e.name.startswith("OpenOptions::")), re.M))
            c.ob("opening", all(got.get(k) == v for k, v in want.items()) and got.get("truncate", "false") == "false" and len(o) == 2 and o[1] == "$2", q, f"the file is opened with {got}")
            lk = said(q, r"FileExt::try_lock_exclusive\(FILE\)(#\d+)? is Ok")
            i = [j for j, e in enumerate(ev) if e.startswith(("FileExt::try_lock_exclusive(", "FileExt::lock_exclusive("))]
            j_ = [j for j, e in enumerate(ev) if e.startswith(("File::set_len(", "MmapMut::map_mut("))]
            c.ob("opening", lk is True and i and i[0] < min(j_, default=0), q, "the file is used without being locked")
            sl = [e for e in ev if e.startswith("File::set_len(")]
            if not c.ob("opening", same is not None, q, "the size of the file is not asked"):
                continue
            cr = [e for e in q.events() if e.name == "CommonRingBuffer::new" and e.kind == "call"]
            if not c.ob("opening", len(cr) == 1, q, "no buffer is made"):
                continue
            a = [s(x) for x in cr[0].args]
            yes = said(q, r"\$6 is Yes")
            yes = (lambda v: None if v is None else not v)(said(q, r"\$6 is No")) if yes is None else yes
            c.ob("opening", re.fullmatch(r"Index(Mut)?::index(_mut)?\(MAP,RangeFrom\{start:4\}\)", a[1]) is not None, q, f"the memory is {a[1][:80]}")
            c.ob("opening", yes is not None and a[6] == ("4" if yes else "0"), q, f"the space for checksums is {a[6]}")
            if same:
                c.ob("opening", not sl, q, "a file of the right size is resized")
                c.ob("opening", said(q, r"1==HEADER\.version") is True and said(q, r"\$3==HEADER\.size|HEADER\.size==\$3") is True, q, "a file of another version or size is used")
                crc = rf"compute_header_crc_32\(HEADER\.{',HEADER.'.join(HEAD)}\)(#\d+)?".replace(",HEADER.", r",HEADER\.")
                c.ob("opening", said(q, either(r"HEADER\.crc32", crc)) is True, q, "a file whose positions do not have their checksum is used")
                c.ob("opening", a[2:6] == ["HEADER." + h for h in HEAD] and "crc32:SendSyncNonNull(HEADER.crc32)" in a[7], q, f"the positions are {a[2:6]}, the checksum {a[7]}")
            else:
                c.ob("opening", sl == ["File::set_len(FILE, $3)"], q, f"a file of another size is resized by {sl}")
                st = cr[0]
                c.ob("opening", a[2:6] == ["0", "None", "None", "None"] and re.search(r"crc32:SendSyncNonNull\(compute_header_crc_32\(0,None,None,None\)(#\d+)?\)", a[7]) is not None, q, f"a new file starts with {a[2:6]}, {a[7]}")
                w = [v for k, v in q.heap(".*").items() if "as_mut_ptr" in k]
                c.ob("opening", header_of(q) is not None, q, "a new file has no version or not its size")
            c.ob("opening", re.search(r"on_total_data_loss", a[10]) is not None, q, "the header is not told when everything is given up")
            c.ob("opening", a[8] == "$4" and "block_when_reserving_into_concurrent_read:$5" in a[7] and "per_record_crc32_check:$6" in a[7] and "producer:None" in a[7] and "consumer:None" in a[7], q, f"what was asked for is not what is made: {a[7][:200]}")
            ways[(same, yes)] = ways.get((same, yes), 0) + 1
    c.ob("opening", {"lost", "err", (True, True), (True, False), (False, True), (False, False)} <= set(ways), p.by_id[f], f"the ways through are {sorted(map(str, ways))}")


def header_of(q):
    """the header a new file is given, by what its place holds in the end"""
    for r, v in q.state.store.items():
        t = s(show(q.e.resolve(q.state, v)))
        if "version:=1" in t and "size:=$3" in t or re.search(r"FileHeader\{.*size:\$3,version:1", t):
            return t
    return None


GROUPS = [checksum, header, record, opening]
FLOORS = {'checksum': 5, 'header': 25, 'record': 100, 'opening': 40}
