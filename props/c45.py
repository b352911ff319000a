"""What the client counted reaches its files, is uploaded from them, and goes only once it arrived."""
from rules import *

F = "bd_client_stats::file_manager::"
U = "bd_client_stats::stats::Flusher::"
CR = ("bd_client_stats", "bd_client_stats_store", "bd_stats_common")
DIR = "static:bd_client_stats::file_manager::STATS_DIRECTORY"
INDEX = "static:bd_client_stats::file_manager::PENDING_AGGREGATION_INDEX_FILE"
GOT = "await(Inner::get_initialized(await(Mutex::lock(self.inner)#1))#1)"
OPQ = [r"get_initialized$", r"write_index$", r"compressed_protobuf$"]


def n(x):
    """names for what the rules speak of: I the initialized part, FIRST and LAST the entries of its index"""
    x = x if isinstance(x, str) else show(x) if not hasattr(x, "name") else repr(x)
    x = x.replace(GOT + "?Ok.0", "I").replace(f"Path::join({DIR},", "file(").replace(f"file({INDEX})", "INDEXFILE").replace(DIR, "DIR")
    x = x.replace("phi:*I.index", "I.index")
    x = re.sub(r"Index::index(_mut)?\(I\.index,0\)|VecDeque::(front|front_mut|get)\(I\.index(,0)?\)\?Some\.0", "FIRST", x)
    x = re.sub(r"VecDeque::(back|back_mut)\(I\.index\)\?Some\.0", "LAST", x)
    x = re.sub(r"VecDeque::(front|front_mut|get)\(I\.index(,0)?\) is Some", "ANY", x)
    x = re.sub(r"VecDeque::(back|back_mut)\(I\.index\) is Some|VecDeque::back_mut\(I\.index\) is Some", "ANY", x)
    return x.replace("phi:*FIRST", "FIRST").replace("phi:*LAST", "LAST")


def evs(q, deep=False):
    return [n(e) for e in q.events(deep)]


def facts(q):
    out = {}
    for k, v in q.state.facts.items():
        if out.setdefault(n(k), v) != v:
            out["CONTRADICTION"] = True
    return out


def ask(fs, pat):
    """what is known of a condition, or None"""
    for k, v in fs.items():
        if re.fullmatch(pat, k):
            return v
        if re.fullmatch(pat, "!" + k) or k.startswith("!") and re.fullmatch(pat, k[1:]):
            return not v
    return None


def empty(fs):
    a, z = ask(fs, "ANY"), ask(fs, r"0==len\(I\.index\)|VecDeque::is_empty\(I\.index\)")
    return (not a) if a is not None else z


def impossible(fs):
    """an index both empty and not"""
    a, z = ask(fs, "ANY"), ask(fs, r"0==len\(I\.index\)|VecDeque::is_empty\(I\.index\)")
    return "CONTRADICTION" in fs or a is not None and z is not None and a == z


def ended(fs, who):
    s = ask(fs, rf"MessageField::is_some\({who}\.period_end\)|{who}\.period_end(\.0)? is Some")
    e = ask(fs, rf"MessageField::is_none\({who}\.period_end\)|{who}\.period_end(\.0)? is None")
    return s if s is not None else None if e is None else not e


def locked(c, rule, q, fs):
    """under the lock, initialized; None if the initialization failed"""
    ok = ask(fs, re.escape(GOT) + " is Ok")
    ev = [repr(e) for e in q.events(False)]
    if ok is False:
        c.ob(rule, q.kind == "ret" and q.ret.startswith("Err(") and not [e for e in ev if re.match(r"FileSystem::|VecDeque::p|InitializedInner", e)], q, "files are touched though nothing could be initialized")
        return None
    lk, un = [i for i, e in enumerate(ev) if e.startswith("Mutex::lock(")], [i for i, e in enumerate(ev) if e.startswith("unlock:")]
    fsx = [i for i, e in enumerate(ev) if re.match(r"FileSystem::|VecDeque::p|InitializedInner::|Inner::", e)]
    return c.ob(rule, ok is True and len(lk) == 1 and (q.kind != "ret" or len(un) == 1) and all(lk[0] < i and (not un or i < un[0]) for i in fsx), q, "the files are touched without the lock")


def io(ev):
    return [e for e in ev if re.match(r"FileSystem::|VecDeque::(p|remove|clear|drain|truncate|insert|swap|retain|append|extend)\w*\(|InitializedInner::write_index|VecDeque::rotate", e)]


def failed(fs):
    """the operations that failed on this path"""
    return [k for k, v in fs.items() if re.match(r"await\((FileSystem::(?!read_file)\w+|InitializedInner::write_index)\(", k) and k.endswith(" is Ok") and v is False]


def start(c):
    c.rule("start", "the index is read once; if it is missing or cannot be read, the directory is emptied and one begins with an empty index; a start that failed leaves everything as it was, to be tried again")
    p = c.program(*CR)
    fs_ = r"self\?NotInitialized\.0\?Some\.0"
    R = rf"await\(FileSystem::read_file\({fs_},INDEXFILE\)(#\d+)?\)"
    P = rf"file::read_compressed_protobuf\({R}\?Ok\.0\)(#\d+)?"
    ways = set()
    f = c.fn(p, F + "Inner::get_initialized")
    for q in c.paths_of(p, f, Config(opaque=[r"compressed_protobuf$"])):
        fs, ev = facts(q), [e for e in evs(q) if e.startswith("FileSystem::")]
        first = ask(fs, "self is NotInitialized")
        first = (not ask(fs, "self is Initialized")) if first is None and ask(fs, "self is Initialized") is not None else first
        if not c.ob("start", first is not None, q, "whether one began already is not asked"):
            continue
        if not first:
            c.ob("start", q.ret == "Ok(self?Initialized.0)" and not ev, q, f"one begins again: {q.ret[:100]}")
            ways.add("again")
            continue
        if q.kind != "ret":
            c.ob("start", ask(fs, r"self\?NotInitialized\.0 is Some") is False and not ev, q, "starting panics")
            continue
        now = q.heap("self").get("self")
        rd, ps = ask(fs, R + " is Ok"), ask(fs, P + " is Ok")
        if not c.ob("start", rd is not None and (not rd or ps is not None), q, "the index is not read"):
            continue
        good = rd and ps
        rm, mk_ = [ask(fs, rf"await\(FileSystem::{k}\({fs_},DIR\)(#\d+)?\) is Ok") for k in ("remove_dir", "create_dir")]
        c.ob("start", [re.match(r"FileSystem::(\w+)", e).group(1) for e in ev] == ["read_file"] + ([] if good else ["remove_dir"] + (["create_dir"] if rm else [])), q, f"starting does {[e[:60] for e in ev]}")
        if not good and not (rm and mk_):
            c.ob("start", q.ret.startswith("Err(") and now is None, q, "a start that failed cannot be tried again")
            ways.add("failed")
            continue
        idx = rf"{P}\?Ok\.0\.pending_files|(std::convert::)?(From::from|Into::into)\({P}\?Ok\.0\.pending_files\)(#\d+)?" if good else r"default\('[^']*PendingAggregationIndex'\)\.pending_files|\[\]|VecDeque::new\(\)|default\('[^']*VecDeque[^']*'\)"
        c.ob("start", re.fullmatch(rf"Ok\(InitializedInner\{{file_system:{fs_},index:({idx})\}}\)", n(q.ret)) is not None and now is not None and n(now).startswith("Initialized("), q, f"it begins with {n(q.ret)[:200]}")
        ways.add("read" if good else "new")
    c.ob("start", ways == {"again", "failed", "read", "new"}, f, f"the ways through are {sorted(ways)}")
    for q in c.paths_of(p, F + "FileManager::new"):
        if q.kind == "ret" and q.ret.startswith("Ok("):
            c.ob("start", "NotInitialized(Some($1))" in q.ret, q, f"a manager is made as {q.ret[:120]}")


def index(c):
    c.rule("index", "the index written to its file is the whole index; an entry is removed only after its file is, so that no file is left behind without entry; nothing is said to be done before the index with it is written")
    p = c.program(*CR)
    for q in c.paths_of(p, F + "InitializedInner::write_index", Config(opaque=[r"compressed_protobuf$"])):
        w = [n(e) for e in q.ev(r"^FileSystem::")]
        m = re.match(r"FileSystem::write_file\(self\.file_system, INDEXFILE, file::write_compressed_protobuf\(PendingAggregationIndex\{pending_files:self\.index(,special_fields:default\('[^']*'\)\.special_fields)?\}\)(#\d+)?\)", w[0]) if len(w) == 1 else None
        ok = ask(facts(q), r"await\(FileSystem::write_file\(.*\)(#\d+)?\) is Ok")
        whole = all(q.whole(lp) for lp in q.loops())
        c.ob("index", q.kind == "ret" and m is not None and whole and not q.heap("self"), q, f"what is written as index is {[x[:200] for x in w]}")
        c.ob("index", (ok is None and q.ret.startswith("await(FileSystem::write_file(")) or ok is not None and q.ret.startswith("Ok(" if ok else "Err("), q, "an index that could not be written passes for written, or the other way round")
    # every change of the index anywhere
    muts = 0
    for fn in ("get_or_create_snapshot", "remove_empty_snapshot", "write_snapshot", "get_or_create_pending_upload", "complete_pending_upload"):
        for q in c.paths_of(p, F + "FileManager::" + fn, Config(opaque=OPQ)):
            for x in [q] + [Iter(q, t, s) for lp in q.loops() for t, s in lp.iters]:
                fs = facts(x)
                if impossible(fs):
                    continue
                ev = evs(x)
                ch = [i for i, e in enumerate(ev) if re.match(r"VecDeque::(?!front|back|len|is_empty|iter|get)\w+\(I", e)]
                muts += len(ch)
                wr = [i for i, e in enumerate(ev) if e.startswith("InitializedInner::write_index(I)")]
                err = x.kind == "ret" and x.ret.startswith("Err(")
                if ch and x.kind in ("ret", "iter"):
                    c.ob("index", err or bool(wr) and wr[-1] > ch[-1] and not failed(fs), x, "the index changes and is not written")
                c.ob("index", x.kind not in ("ret", "iter") or err or not failed(fs), x, f"what failed is passed over: {failed(fs)[:1]}") if wr else None
                for i in ch:
                    m = re.match(r"VecDeque::(pop_front|pop_back|push_back)\(I", ev[i])
                    if not c.ob("index", m is not None, x, f"the index changes by {ev[i][:60]}"):
                        continue
                    if m.group(1) == "pop_front":
                        d = [j for j, e in enumerate(ev) if re.match(r"FileSystem::delete_file\(I\.file_system, file\(FIRST\.name\)\)", e)]
                        c.ob("index", bool(d) and d[-1] < i and ask(fs, r"await\(FileSystem::delete_file\(I\.file_system,file\(FIRST\.name\)\)(#\d+)?\) is Ok"), x, "an entry goes before its file does")
                    if m.group(1) == "pop_back":
                        c.ob("index", fn == "remove_empty_snapshot", x, "the latest entry is removed")
    c.ob("index", muts >= 8, c.fn(p, F + "FileManager::get_or_create_snapshot"), f"only {muts} changes of the index are found")


def current(c):
    c.rule("window", "counting goes on in the latest file unless it is waiting to be uploaded or its window is over, which closes it; a new file begins now under a name of its own, at most as many as configured are kept, the oldest going first")
    c.rule("kept", "what a file holds is read before it is written anew; the name in it is that of the file; what is written goes into the file it was read from")
    p = c.program(*CR)
    f = c.fn(p, F + "FileManager::get_or_create_snapshot")
    NOW = r"TimeProvider::now\(self\.time_provider\)(#\d+)?"
    OLD = rf"Add::add\(TimestampExt::to_offset_date_time\(LAST\.period_start\)(#\d+)?,Watch::read\(self\.max_aggregation_window_per_file\)(#\d+)?\)"
    MAX = r"Watch::read\(self\.max_aggregated_files\)(#\d+)?"
    LEN = r"(TryFrom::try_from|TryInto::try_into)?\(?len\(I\.index\)\)?(\?Ok\.0)?"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=OPQ)):
        fs = facts(q)
        if not locked(c, "window", q, fs):
            continue
        emp = empty(fs)
        if q.kind != "ret":
            c.ob("window", impossible(fs) or any(v is False and re.match(r"(TryFrom::try_from|TryInto::try_into)\(len\(I\.index\)\) is Ok|VecDeque::back\((\[|upd_by).* is Some", k) for k, v in fs.items()), q, "preparing a file panics")
            continue
        if impossible(fs):
            continue
        if emp is None:
            c.ob("window", False, q, "whether there is a file is not asked")
            continue
        end = ended(fs, "LAST")
        late = ask(fs, rf"{NOW}<{OLD}")
        late = (not late) if late is not None else ask(fs, rf"{OLD}<={NOW}|{NOW}>={OLD}")
        if not emp and not c.ob("window", end is not None and (end or late is not None), q, "whether the latest file is waiting, or its window over, is not asked"):
            continue
        new = emp or end or late
        ev = evs(q)
        done = [e for e in io(ev)]
        err = q.ret.startswith("Err(")
        heap = {n(k): n(v) for k, v in q.heap(r".*").items()}
        closed = [k for k, v in heap.items() if re.search(r"period_end:=", v) and k != "I"]
        if not new:
            c.ob("window", not [e for e in done if not e.startswith("FileSystem::read_file(I.file_system, file(LAST.name))")] and not closed and not err, q, f"a file in use is not gone on with: {[e[:60] for e in done]}")
        else:
            if late and not end and not emp:
                c.ob("window", any(re.search(rf"period_end:=OffsetDateTimeExt::into_proto\({NOW}\)", heap[k]) for k in closed), q, "a file whose window is over is not closed")
            full = ask(fs, rf"{LEN}<{MAX}")
            full = (not full) if full is not None else ask(fs, rf"{MAX}<={LEN}")
            if not c.ob("window", full is not None, q, "how many files there are is not compared with how many there may be"):
                continue
            pops = [e for e in done if e.startswith("VecDeque::pop_front(I")]
            dels = [e for e in done if e.startswith("FileSystem::delete_file")]
            fail = failed(fs)
            if fail:
                c.ob("window", err, q, "what failed is passed over")
                ways.add("failed")
                continue
            c.ob("window", (len(pops), len(dels)) == ((1, 1) if full and not emp else (0, 0)), q, f"with room: {not full}, what goes is {[e[:60] for e in done]}")
            push = [e for e in done if e.startswith("VecDeque::push")]
            c.ob("window", len(push) == 1 and re.match(rf"VecDeque::push_back\(I\w*(\.index|_\w+\(.*\))?.*PendingFile\{{name:Tracked::upload_uuid\(\)(#\d+)?,period_end:(default\('[^']*'\)\.period_end|MessageField::none\(\)),period_start:OffsetDateTimeExt::into_proto\({NOW}\)(#\d+)?", push[0]) is not None, q, f"a new file is {[e[:200] for e in push]}")
        rd = [e for e in ev if e.startswith("FileSystem::read_file")]
        # what is handed out
        m = re.fullmatch(r"Ok\(StatsUploadRequestHandle\{index:(.*?),stats_upload_request:(.*)\}\)", n(q.ret))
        if not c.ob("kept", m is not None, q, f"what is handed out is {n(q.ret)[:150]}"):
            continue
        RD = r"await\(FileSystem::read_file\(I\.file_system,file\(LAST\.name\)\)(#\d+)?\)"
        PB = rf"file::read_compressed_protobuf\({RD}\?Ok\.0\)(#\d+)?"
        if not new:
            ok = ask(fs, RD + " is Ok")
            ok = ask(fs, PB + " is Ok") if ok else ok
            if not c.ob("kept", ok is not None and len(rd) == 1, q, "the file in use is not read"):
                continue
            nm = r"LAST\.name"
            c.ob("kept", re.fullmatch(r"(Add|Sub|\w+::\w+)\(len\(I\.index\),-?1\)", m.group(1)) is not None, q, f"the file to write to is number {m.group(1)}")
            if ok:
                c.ob("kept", re.fullmatch(rf"{PB}\?Ok\.0", m.group(2)) is not None, q, f"what a file held is not what is gone on with: {m.group(2)[:120]}")
                ways.add("going on")
                continue
            ways.add("unreadable")
        else:
            c.ob("kept", not rd, q, "a new file is read")
            c.ob("kept", re.fullmatch(r"len\((I\.index|upd_by\(VecDeque::pop_front\(I\.index\)(#\d+)?,0\))\)", m.group(1)) is not None, q, f"the file to write to is number {m.group(1)}")
            nm = r"(VecDeque::back\(\[.* \+\+ one\(PendingFile\{name:)?Tracked::upload_uuid\(\)(#\d+)?(,.*\}\)\]\)\?Some\.0\.name)?"
            ways.add(("new", "empty" if emp else "ended" if end else "late"))
        c.ob("kept", re.match(r"StatsUploadRequest\{", m.group(2)) is not None and re.search(rf"(^|[,{{])upload_uuid:({nm})[,}}]", m.group(2)) is not None and re.search(r"snapshot:(default\('[^']*'\)\.snapshot|\[\]|Vec::new\(\))[,}]", m.group(2)) is not None, q, f"a file begins as {m.group(2)[:300]}")
    c.ob("window", ways == {"failed", "going on", "unreadable", ("new", "empty"), ("new", "ended"), ("new", "late")}, f, f"the ways through are {sorted(map(str, ways))}")
    f = c.fn(p, F + "FileManager::write_snapshot")
    done = 0
    for q in c.paths_of(p, f, Config(opaque=OPQ)):
        fs = facts(q)
        if not locked(c, "kept", q, fs):
            continue
        x = io(evs(q))
        m = re.match(r"FileSystem::write_file\(I\.file_system, file\(Index::index\(I\.index,\$2\.index\)\.name\), file::write_compressed_protobuf\(\$2\.stats_upload_request\{snapshot:=\[\$3\]\}\)(#\d+)?\)", x[0]) if len(x) == 1 else None
        if q.kind != "ret":
            continue
        ok = ask(fs, r"await\(FileSystem::write_file\(.*\)(#\d+)?\) is Ok")
        c.ob("kept", m is not None, q, f"what is written is {[e[:200] for e in x]}")
        c.ob("kept", q.ret.startswith("await(FileSystem::write_file(") if ok is None else q.ret.startswith("Ok(" if ok else "Err("), q, "a file that could not be written passes for written")
        done += 1
    c.ob("kept", done >= 1, f, "no file is written")
    for q in c.paths_of(p, F + "StatsUploadRequestHandle::snapshot"):
        e = q.truth(re.escape("0==len(self.stats_upload_request.snapshot)"))
        c.ob("kept", q.kind == "ret" and e is not None and (q.ret == "None" if e else re.fullmatch(r"Some\((Vec::remove\(self\.stats_upload_request\.snapshot,0\)(#\d+)?|Index::index\(self\.stats_upload_request\.snapshot,0\))\)", q.ret) is not None), q, f"what a file held is {q.ret[:100]}")
    f = c.fn(p, F + "FileManager::remove_empty_snapshot")
    for q in c.paths_of(p, f, Config(opaque=OPQ)):
        fs = facts(q)
        if not locked(c, "kept", q, fs) or q.kind != "ret":
            continue
        x = io(evs(q))
        c.ob("kept", [e.split("(")[0] for e in x] == ["VecDeque::pop_back", "InitializedInner::write_index"], q, f"removing a file that was never written does {[e[:60] for e in x]}")


def pending(c):
    c.rule("handed-over", "what is uploaded is the oldest file, closed before it goes out so that nothing is added to it any more, with its window as in the index; a file that cannot be read is removed and the next one tried; only files old enough go when asked so")
    c.rule("removed", "a file is removed exactly if its own upload arrived; an answer for another leaves all as they are")
    p = c.program(*CR)
    f = c.fn(p, F + "FileManager::get_or_create_pending_upload")
    NOW = r"TimeProvider::now\(self\.time_provider\)(#\d+)?"
    OLD = rf"Add::add\(TimestampExt::to_offset_date_time\(FIRST\.period_start\)(#\d+)?,Watch::read\(self\.max_aggregation_window_per_file\)(#\d+)?\)"
    RD = r"await\(FileSystem::read_file\(I\.file_system,file\(FIRST\.name\)\)(#\d+)?\)"
    PB = rf"file::read_compressed_protobuf\({RD}\?Ok\.0\)(#\d+)?"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=OPQ)):
        if q.kind == "ret" and locked(c, "handed-over", q, facts(q)) is None:
            continue
        for x in [q] + [Iter(q, t, s) for lp in q.loops() for t, s in lp.iters]:
            fs, ev = facts(x), evs(x)
            if impossible(fs):
                continue
            emp = empty(fs)
            if x.kind not in ("ret", "iter"):
                c.ob("handed-over", emp or any(re.search(r"snapshot", k) for k in fs), x, "preparing an upload panics")
                continue
            if not c.ob("handed-over", emp is not None, x, "whether there is a file is not asked"):
                continue
            done, err = io(ev), x.kind == "ret" and x.ret.startswith("Err(")
            if emp:
                c.ob("handed-over", x.ret == "Ok(None)" and not done, x, "without files something is uploaded")
                ways.add("none")
                continue
            only = ask(fs, r"\$2")
            early = ask(fs, rf"{NOW}<{OLD}|{OLD}>{NOW}")
            if not c.ob("handed-over", only is not None and (not only or early is not None), x, "how old the file is is not asked"):
                continue
            if only and early:
                c.ob("handed-over", x.ret == "Ok(None)" and not done, x, "a file that is not old enough is uploaded")
                ways.add("early")
                continue
            end = ended(fs, "FIRST")
            if not c.ob("handed-over", end is not None, x, "whether the file is closed is not asked"):
                continue
            if failed(fs) and err:
                ways.add("failed")
                continue
            heap = {n(k): n(v) for k, v in x.heap(r".*").items()}
            closed = [v for k, v in heap.items() if re.search(rf"period_end:=OffsetDateTimeExt::into_proto\({NOW}\)", v)]
            wr = [i for i, e in enumerate(ev) if e.startswith("InitializedInner::write_index(I)")]
            rd = [i for i, e in enumerate(ev) if e.startswith("FileSystem::read_file(I.file_system, file(FIRST.name))")]
            if not c.ob("handed-over", len(rd) == 1, x, "the oldest file is not read"):
                continue
            if not end:
                into = [i for i, e in enumerate(ev) if e.startswith("OffsetDateTimeExt::into_proto(")]
                c.ob("handed-over", bool(closed) and bool(wr) and bool(into) and into[-1] < wr[0] < rd[0], x, "a file goes out without being closed, in the index too, before")
            else:
                c.ob("handed-over", not closed, x, "a closed file is closed again")
            good = ask(fs, RD + " is Ok")
            good = ask(fs, PB + " is Ok") if good else good
            if not c.ob("handed-over", good is not None, x, "what is in the file is not looked at"):
                continue
            rest = [e for e in done if not e.startswith("InitializedInner::write_index") and not e.startswith("FileSystem::read_file")]
            if not good:
                c.ob("handed-over", (x.kind == "iter") and [e.split("(")[0] for e in rest] == ["FileSystem::delete_file", "VecDeque::pop_front"] and "file(FIRST.name)" in rest[0], x, f"a file that cannot be read: {[e[:60] for e in rest]}, then {x.ret[:60] if x.kind == 'ret' else 'the next'}")
                ways.add("unreadable")
                continue
            none = ask(fs, rf"0==len\({PB}\?Ok\.0\.snapshot\)")
            if none is None and ask(fs, rf"1==len\({PB}\?Ok\.0\.snapshot\)"):
                none = False
            agg = r"Some\(Aggregated\(Aggregated\{period_end:(FIRST\.period_end|OffsetDateTimeExt::into_proto\(.*?\)(#\d+)?),period_start:FIRST\.period_start(,special_fields:[^}]*)?\}\)\)"
            hp = " ".join(f"{k}={v}" for k, v in heap.items()) + " " + n(x.ret)
            c.ob("handed-over", x.kind == "ret" and re.match(rf"Ok\(Some\({PB}\?Ok\.0", n(x.ret)) is not None and not rest, x, f"a file that could be read: {n(x.ret)[:120] if x.kind == 'ret' else 'the next one'}")
            if none is False:
                m = re.search(rf"occurred_at:={agg}", hp)
                c.ob("handed-over", m is not None and m.group(1).startswith("FIRST" if end else "Offset"), x, "the window of the upload is not that of the file")
            else:
                c.ob("handed-over", none is not None, x, "what is in the file is not looked at")
            ways.add(("out", end))
    c.ob("handed-over", ways == {"none", "early", "failed", "unreadable", ("out", True), ("out", False)}, f, f"the ways through are {sorted(map(str, ways))}")
    f = c.fn(p, F + "FileManager::complete_pending_upload")
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=OPQ)):
        fs = facts(q)
        if not locked(c, "removed", q, fs):
            continue
        emp, same = empty(fs), ask(fs, r"\$2==FIRST\.name|FIRST\.name==\$2")
        if q.kind != "ret":
            c.ob("removed", same is True and not emp and ended(fs, "FIRST") is False or impossible(fs), q, "an answer panics")
            continue
        done = io(evs(q))
        if not c.ob("removed", emp is not None and (emp or same is not None), q, "whose answer it is is not asked"):
            continue
        if emp or not same:
            c.ob("removed", not done and q.ret == "Ok(())", q, f"an answer for another file does {[e[:60] for e in done]}")
            ways.add("other")
        elif failed(fs):
            c.ob("removed", q.ret.startswith("Err("), q, "what failed is passed over")
        else:
            c.ob("removed", [e.split("(")[0] for e in done] == ["FileSystem::delete_file", "VecDeque::pop_front", "InitializedInner::write_index"] and "file(FIRST.name)" in done[0] and q.ret == "Ok(())", q, f"an upload that arrived does {[e[:60] for e in done]}")
            ways.add("own")
    c.ob("removed", ways == {"other", "own"}, f, f"the ways through are {sorted(ways)}")


def disk(c):
    c.rule("disk", "files are read, written and removed within the directory given; removing what is not there is no error, any other failure is told")
    p = c.program(*CR)
    for fn, call, args in (("read_file", r"fs::read", ""), ("write_file", r"fs::write", r"(, ?\$3)"), ("delete_file", "fs::remove_file", ""), ("remove_dir", "fs::remove_dir_all", ""), ("create_dir", r"fs::create_dir(_all)?", "")):
        f = next((g for g in p.by_id.values() if re.fullmatch(rf"bd_client_stats::<file_manager::RealFileSystem as file_manager::FileSystem>::{fn}", g.id)), None)
        if not c.ob("disk", f is not None, None, f"{fn} of the real file system is not found"):
            continue
        ways = set()
        for q in c.paths_of(p, f, is_async=True):
            ev = [repr(e) for e in q.trace if e.name.startswith("fs::") or re.match(r"(tokio::)?fs::|File::|OpenOptions", repr(e))]
            m = re.match(rf"{call}\(Path::join\(self\.directory,\$2\){args}\)", ev[0].replace(", ", ",")) if len(ev) == 1 else None
            if not c.ob("disk", q.kind == "ret" and m is not None, q, f"{fn} does {[e[:100] for e in ev]}"):
                continue
            ok = next((v for k, v in q.state.facts.items() if re.fullmatch(rf"await\({call}\(.*\)(#\d+)?\) is Ok", show(k))), None)
            gone = next((v for k, v in q.state.facts.items() if re.search(r"kind.* is NotFound|NotFound==|==NotFound", show(k))), None)
            exp = "Ok(" if ok or (gone and fn in ("delete_file", "remove_dir")) else "Err("
            c.ob("disk", ok is not None and q.ret.startswith(exp), q, f"{fn}: worked {ok}, not there {gone}: {q.ret[:60]}")
            ways.add((ok, gone if ok is False else None))
        want = {(True, None), (False, True), (False, False)} if fn in ("delete_file", "remove_dir") else {(True, None), (False, None)}
        c.ob("disk", ways == want, f, f"the ways through are {sorted(map(str, ways))}")


def merged(c):
    c.rule("merged", "every metric counted since is added to what the file holds: counters by their value, histograms by their values, new ones as they are, none twice; a metric of another kind than in the file is reported; an empty file is not written")
    c.rule("all-metrics", "what is read from a file is every metric in it whose kind is known, under its name and labels; what is written is every metric")
    p = c.program(*CR)
    f = c.fn(p, U + "merge_delta_snapshot_to_disk")
    G = "await(FileManager::get_or_create_snapshot(self.file_manager)#1)"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=[r"FileManager::", r"inc_by$", r"merge_from$", r"to_proto$", r"from_proto$", r"handle_unexpected", r"Counter::get$", r"SnapshotHelper::into_proto$"])):
        if not c.ob("merged", q.kind == "ret", q, "merging panics"):
            continue
        fm = [e for e in q.ev(r"^FileManager::", deep=False)]
        if q.decide(mk("is", next((e.res for e in q.trace if repr(e).startswith("await:") and "get_or_create_snapshot" in repr(e)), fm[0].res), "Ok")) is False or q.truth(re.escape(G) + " is Ok") is False:
            c.ob("merged", q.ret.startswith("Err(") and len(fm) == 1, q, "no file could be had, and it is not told")
            continue
        lps = [lp for lp in q.loops() if lp.src is not None and show(lp.src) == "$2.metrics"]
        if not c.ob("merged", len(lps) == 1 and q.whole(lps[0]), q, "not every metric counted since is gone through"):
            continue
        lp = lps[0]
        names = [k if isinstance(k, str) else show(k) for k in lp.vars]
        var = [k for k in names if k.endswith(".metrics") or "metrics" in k or "snapshot" in k]
        if not c.ob("merged", len(var) == 1, q, f"what is built up is {names}"):
            continue
        V = var[0]
        b, _ = carried(q, lp, re.escape(V))
        begin = [show(x) for x in (b if isinstance(b, (list, tuple)) else [b])]
        REQ = re.escape(f"{G}?Ok.0.stats_upload_request.snapshot")
        had = [q.truth(rf"0==len\({REQ}\)"), q.truth(rf".*{REQ}.*\.snapshot_type is Some")]
        if had[0] is False and had[1]:
            c.ob("merged", len([1 for l2 in q.loops() if l2.src is not None and re.search(rf"{REQ}.*Metrics\.0\.metric$", show(l2.src)) and q.whole(l2)]) == 1 and not any("default(" in x for x in begin), q, f"what the file held is not what is begun with: {begin}")
        else:
            c.ob("merged", had[0] is True or had[1] is False, q, "what the file holds is not looked at")
            c.ob("merged", all(re.fullmatch(r"default\('[^']*'\)|HashMap::new\(\)|\{\}", x) for x in begin), q, f"without anything in the file one begins with {begin}")
        it = r"item\(\$2\.metrics\)"
        for tr, st in lp.iters:
            i = Iter(q, tr, st)
            S_ = re.escape(V)
            X = rf"HashMap::get(_mut)?\({S_},{it}\.0\)\?Some\.0"
            have = i.truth(rf"HashMap::get(_mut)?\({S_},{it}\.0\) is Some")
            skip = len([e for e in q.trace if not repr(e).startswith("x")])
            did = [repr(e) for e in i.trace if re.match(r"(Counter::(inc|inc_by)|Histogram::(merge_from|observe)|HashMap::(insert|remove|clear|retain)|error::handle_unexpected)\(", repr(e)) and "item($2.metrics)" in repr(e) or repr(e).startswith("error::handle_unexpected(")]
            if not c.ob("merged", have is not None, i, "whether the file has the metric already is not asked"):
                continue
            if not have:
                c.ob("merged", len(did) == 1 and re.fullmatch(rf"HashMap::insert\({S_}, {it}\.0, {it}\.1\)", did[0]) is not None, i, f"a new metric: {did}")
                ways.add("new")
                continue
            k = []
            for who in (rf"{it}\.1", X):
                t = i.truth(rf"{who} is Counter")
                t = (not i.truth(rf"{who} is Histogram")) if t is None and i.truth(rf"{who} is Histogram") is not None else t
                k.append(t)
            if not c.ob("merged", None not in k, i, "the kinds are not looked at"):
                continue
            exp = r"error::handle_unexpected\(Err\(.*" if k[0] != k[1] else rf"Counter::inc_by\({X}\?Counter\.0, Counter::get\({it}\.1\?Counter\.0\)(#\d+)?\)" if k[0] else rf"Histogram::merge_from\({X}\?Histogram\.0, {it}\.1\?Histogram\.0\)"
            c.ob("merged", len(did) == 1 and re.fullmatch(exp, did[0]) is not None, i, f"a metric the file has: {[d[:150] for d in did]}")
            ways.add(tuple(k))
        none = q.truth(rf"0==len\({re.escape(V)}\)")
        if not c.ob("merged", none is not None and len(fm) == 2, q, "an empty file is written, or no file at all"):
            continue
        if none:
            c.ob("merged", repr(fm[1]).startswith("FileManager::remove_empty_snapshot(self.file_manager)"), q, f"an empty file is {fm[1]!r:.60}")
        else:
            c.ob("merged", re.match(rf"FileManager::write_snapshot\(self\.file_manager, {re.escape(G)}\?Ok\.0.*, SnapshotHelper::into_proto\(SnapshotHelper\{{metrics:{re.escape(V)}\}}\)(#\d+)?\)", repr(fm[1])) is not None, q, f"what is written is {repr(fm[1])[:200]}")
            c.ob("merged", q.ret.startswith("await(FileManager::write_snapshot(") or q.truth(r"await\(FileManager::write_snapshot\(.*\)(#\d+)?\) is Ok") is q.ret.startswith("Ok("), q, "a failed write is not told")
        ways.add("empty" if none else "written")
    c.ob("merged", ways == {"new", (True, True), (True, False), (False, True), (False, False), "empty", "written"}, f, f"the ways through are {sorted(map(str, ways))}")
    f = c.fn(p, "bd_client_stats::stats::SnapshotHelper::new")
    M = r"\$1\?Some\.0\.snapshot_type\?Some\.0\?Metrics\.0\.metric"
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=[r"from_proto$"])):
        if not c.ob("all-metrics", q.kind == "ret", q, "reading a file's metrics panics"):
            continue
        has = q.truth(r"\$1 is Some") and q.truth(r"\$1\?Some\.0\.snapshot_type is Some")
        lps = [lp for lp in q.loops() if lp.src is not None and re.fullmatch(M, show(lp.src))]
        if not has:
            c.ob("all-metrics", re.fullmatch(r"SnapshotHelper\{metrics:(default\('[^']*'\)|HashMap::new\(\))\}", q.ret) is not None, q, f"of no metrics comes {q.ret}")
            ways.add("none")
            continue
        ways.add("some")
        if not c.ob("all-metrics", len(lps) == 1 and q.whole(lps[0]) and re.fullmatch(r"SnapshotHelper\{metrics:(phi:\S+)\}", q.ret) is not None, q, f"not every metric in the file is gone through: {q.ret[:100]}"):
            continue
        for tr, st in lps[0].iters:
            i = Iter(q, tr, st)
            it = rf"item\({M}\)"
            D = rf"MetricData::from_proto\({it}\.data\?Some\.0\)(#\d+)?"
            data = i.truth(rf"{it}\.data is Some")
            known = i.truth(D + " is Some") if data else data
            ins = [repr(e) for e in i.trace if repr(e).startswith("HashMap::insert(phi:") and "item(" in repr(e)]
            if not c.ob("all-metrics", known is not None, i, "whether the metric's kind is known is not asked"):
                continue
            if not known:
                c.ob("all-metrics", not ins, i, "a metric of unknown kind is taken")
                ways.add("unknown")
                continue
            c.ob("all-metrics", len(ins) == 1 and re.fullmatch(rf"HashMap::insert\(phi:\S+?, Id(::new\(|\{{labels:)(.*), ?{D}\?Some\.0\)", ins[0]) is not None and re.search(rf"labels:(collect:BTreeMap\()?{it}\.tags\)?,name:{it}\.name\}}|Id::new\({it}\.name,(collect:BTreeMap\()?{it}\.tags", ins[0]) is not None, i, f"a metric of the file is taken as {[x[:250] for x in ins]}")
            ways.add("known")
    c.ob("all-metrics", ways == {"none", "some", "unknown", "known"}, f, f"the ways through are {sorted(ways)}")
    f = c.fn(p, "bd_client_stats::stats::SnapshotHelper::into_proto")
    for q in c.paths_of(p, f, Config(opaque=[r"to_proto$"])):
        r = re.sub(r",?special_fields:default\('[^']*'\)\.special_fields,?", "", q.ret)
        m = re.search(r"Metrics\(MetricsList\{metric:\[each self\.metrics: \{[^}]*=> one\(Metric\{(.*?)\}\)\}\]", r) or re.search(r"metric:\[each self\.metrics: (?:\{=> )?one\((?:Metric\{)(.*)\}\)", r)
        body = m.group(1) if m else ""
        c.ob("all-metrics", q.kind == "ret" and m is not None and re.search(r"data:Some\(MetricData::to_proto\(item\(self\.metrics\)\.1\)(#\d+)?\)", body) is not None and re.search(r"name:item\(self\.metrics\)\.0\.name", body) is not None and re.search(r"tags:(collect:\w+\()?.*item\(self\.metrics\)\.0\.labels", body) is not None, q, f"what is written is {r[:400]}")


def uploads(c):
    c.rule("one-upload", "at most one upload is under way; a flush that was asked for is answered after what was counted is in the file; an upload whose answer never comes counts as failed")
    c.rule("as-is", "a file goes out under its own name, once; if the upload arrived its file is removed and the next old one goes out, else it stays; a failure is reported and nothing else happens")
    p = c.program(*CR)
    f = c.fn(p, U + "periodic_flush")
    ways = set()
    for q in c.paths_of(p, f, Config(opaque=[r"flush_to_disk$", r"upload_from_disk$", r"pending_upload_completion$"])):
        c.ob("one-upload", q.kind == "ret" and any("ComponentShutdown::cancelled(" in repr(e) for e in q.trace if e.kind == "await"), q, "the loop ends other than for shutdown")
        lp = q.loops()[0] if q.loops() else None
        if not c.ob("one-upload", lp is not None, q, "there is no loop"):
            continue
        rx = [k if isinstance(k, str) else show(k) for k in lp.vars if "ticker" not in (k if isinstance(k, str) else show(k)) and not re.search(r"self\.(flush_rx|shutdown)", k if isinstance(k, str) else show(k))]
        if not c.ob("one-upload", len(rx) == 1, q, f"what is carried along is {rx}"):
            continue
        R = re.escape(rx[0])
        b, after = carried(q, lp, R)
        c.ob("one-upload", all(show(x) == "None" for x in (b if isinstance(b, (list, tuple)) else [b])), q, "it begins with an upload under way")
        for no, (tr, st) in enumerate(lp.iters):
            i = Iter(q, tr, st)
            ev = [repr(e) for e in i.trace]
            aw = [x for x in ev if x.startswith("await:")]
            if not aw:
                c.ob("one-upload", False, i, "nothing is waited for")
                continue
            first = aw[0]
            did = [x for x in ev if re.match(r"Flusher::(flush_to_disk|upload_from_disk|process_pending_upload_completion)\(|Sender::send\(|\w+::send\(", x)]
            go = after.get(no) if isinstance(after, dict) else None
            go = show(go) if go is not None else rx[0]
            busy = i.truth(R + " is Some")
            if "Ticker::tick(self.upload_ticker)" in first:
                busy = busy is True  # without an upload under way the variable is None, and nothing is asked of it
                if busy:
                    c.ob("one-upload", not did and (go == rx[0] or go.startswith("Some(")), i, f"while an upload is under way: {[d[:60] for d in did]}, then {go[:60]}")
                else:
                    c.ob("one-upload", len(did) == 1 and re.match(r"Flusher::upload_from_disk\(.*, false\)", did[0]) is not None and re.match(r"await\(Flusher::upload_from_disk\(", go) is not None, i, f"an upload begins by {[d[:60] for d in did]}, then {go[:60]}")
                ways.add(("upload", busy))
            elif "Ticker::tick(self.flush_ticker)" in first:
                c.ob("one-upload", [d.split("(")[0] for d in did] == ["Flusher::flush_to_disk"] and go in (rx[0], "None", f"Some({rx[0]}?Some.0)"), i, f"a flush does {[d[:60] for d in did]}, then {go[:60]}")
                ways.add("flush")
            elif "Receiver::recv(" in first:
                T = r"await\(Receiver::recv\(phi:self\.flush_rx\)(#\d+)?\)\?Some\.0"
                wants = i.truth(T + " is Some")
                ok = [d.split("(")[0] for d in did] == ["Flusher::flush_to_disk"] + (["Sender::send"] if wants else [])
                c.ob("one-upload", ok and wants is not None and (not wants or re.match(rf"Sender::send\({T}\?Some\.0, \(\)\)", did[1]) is not None) and go in (rx[0], "None", f"Some({rx[0]}?Some.0)"), i, f"a flush that was asked for does {[d[:60] for d in did]}")
                fl = [x for x, e in enumerate(ev) if e.startswith("await:await(Flusher::flush_to_disk")]
                sn = [x for x, e in enumerate(ev) if e.startswith("Sender::send(")]
                c.ob("one-upload", len(fl) == 1 and (not sn or fl[0] < sn[0]), i, "the answer comes before the flush is over")
                ways.add(("asked", wants))
            elif re.match(rf"await:await\({R}\?Some\.0\)", first):
                ok = i.truth(rf"await\({R}\?Some\.0\) is Ok")
                m = re.match(r"Flusher::process_pending_upload_completion\(.*, (await\(.*\?Ok\.0|UploadResponse\{.*\})\)$", did[0]) if len(did) == 1 else None
                c.ob("one-upload", ok is not None and m is not None and (re.fullmatch(rf"await\({R}\?Some\.0\)\?Ok\.0", m.group(1)) if ok else re.search(r"success:false", m.group(1))) is not None and re.match(r"await\(Flusher::process_pending_upload_completion\(", go) is not None, i, f"an answer ({ok}) does {[d[-120:] for d in did]}, then {go[:60]}")
                ways.add(("answer", ok))
            else:
                c.ob("one-upload", False, i, f"something else is waited for: {first[:80]}")
    c.ob("one-upload", ways == {("upload", True), ("upload", False), "flush", ("asked", True), ("asked", False), ("answer", True), ("answer", False)}, f, f"the ways through are {sorted(map(str, ways))}")
    f = c.fn(p, U + "process_pending_upload_completion")
    for q in c.paths_of(p, f, Config(opaque=[r"upload_from_disk$", r"FileManager::", r"handle_unexpected"])):
        ok = q.truth(r"\$2\.success")
        ev = [repr(e) for e in q.trace if re.match(r"FileManager::|Flusher::", repr(e))]
        if not c.ob("as-is", q.kind == "ret" and ok is not None, q, "whether the upload arrived is not asked"):
            continue
        if ok:
            c.ob("as-is", len(ev) == 2 and re.match(r"FileManager::complete_pending_upload\(self\.file_manager, \$2\.uuid\)", ev[0]) is not None and re.match(r"Flusher::upload_from_disk\(self, true\)", ev[1]) is not None and q.ret.startswith("await(Flusher::upload_from_disk("), q, f"an upload that arrived: {[e[:80] for e in ev]}, {q.ret[:60]}")
            c.ob("as-is", any(repr(e).startswith("await:await(FileManager::complete_pending_upload") for e in q.trace), q, "the file is not removed")
        else:
            c.ob("as-is", not ev and q.ret == "None", q, f"an upload that failed: {[e[:80] for e in ev]}")
    f = c.fn(p, U + "upload_from_disk")
    ways = set()
    P = r"await\(FileManager::get_or_create_pending_upload\(self\.file_manager,\$2\)(#\d+)?\)"
    for q in c.paths_of(p, f, Config(opaque=[r"process_pending_upload$", r"FileManager::", r"handle_unexpected"])):
        ok, some = q.truth(P + " is Ok"), q.truth(P + r"\?Ok\.0 is Some")
        ev = [repr(e) for e in q.trace if re.match(r"Flusher::|error::handle", repr(e))]
        if not c.ob("as-is", q.kind == "ret" and ok is not None and (not ok or some is not None), q, "what is to be uploaded is not asked for"):
            continue
        if not ok or not some:
            c.ob("as-is", q.ret == "None" and [e.split("(")[0] for e in ev] == ([] if ok else ["error::handle_unexpected"]), q, f"without a file: {[e[:80] for e in ev]}")
        else:
            m = len(ev) >= 1 and re.match(rf"Flusher::process_pending_upload\(self, {P}\?Ok\.0\?Some\.0\)", ev[0])
            s = q.truth(r"await\(Flusher::process_pending_upload\(.*\)(#\d+)?\) is Ok")
            c.ob("as-is", bool(m) and s is not None and (len(ev) == 1 and re.fullmatch(r"await\(Flusher::process_pending_upload\(.*\)(#\d+)?\)\?Ok\.0", q.ret) is not None if s else len(ev) == 2 and ev[1].startswith("error::handle_unexpected(") and q.ret == "None"), q, f"a file to upload: {[e[:80] for e in ev]}, {q.ret[:80]}")
        ways.add((ok, some))
    c.ob("as-is", len(ways) == 3, f, f"the ways through are {sorted(map(str, ways))}")
    f = c.fn(p, U + "process_pending_upload")
    T = r"Tracked::new\(\$2\.upload_uuid,\$2\)(#\d+)?"
    for q in c.paths_of(p, f, Config(opaque=[r"Tracked.*::new$"])):
        sd = q.ev(r"^Sender::send\(")
        ok = q.truth(r"await\(Sender::send\(.*\)(#\d+)?\) is Ok")
        c.ob("as-is", q.kind == "ret" and len(sd) == 1 and re.match(rf"Sender::send\(self\.data_flush_tx, StatsUploadRequest\({T}\.0\)\)", repr(sd[0])) is not None, q, f"what is sent is {[repr(e)[:160] for e in sd]}")
        c.ob("as-is", ok is not None and re.fullmatch(rf"Ok\(Some\({T}\.1\)\)" if ok else r"Ok\(None\)", q.ret) is not None, q, f"sent {ok}: {q.ret[:100]}")
    f = c.fn(p, U + "flush_to_disk")
    for q in c.paths_of(p, f, Config(opaque=[r"create_delta_snapshot$", r"merge_delta_snapshot_to_disk$", r"handle_unexpected", r"start_timer$"])):
        d, m = q.ev(r"^Flusher::create_delta_snapshot\("), q.ev(r"^Flusher::merge_delta_snapshot_to_disk\(")
        ok = q.truth(r"await\(Flusher::merge_delta_snapshot_to_disk\(.*\)(#\d+)?\) is Ok")
        h = q.ev(r"^error::handle_unexpected\(")
        c.ob("as-is", q.kind == "ret" and len(d) == 1 and len(m) == 1 and re.match(r"Flusher::merge_delta_snapshot_to_disk\(self, Flusher::create_delta_snapshot\(self\)(#\d+)?\)", repr(m[0])) is not None and ok is not None and len(h) == (0 if ok else 1), q, f"a flush does {[repr(e)[:80] for e in d + m + h]}")


GROUPS = [start, index, current, pending, disk, merged, uploads]
FLOORS = {"start": 20, "index": 20, "window": 20, "kept": 15, "handed-over": 30, "removed": 8, "disk": 15, "merged": 40, "all-metrics": 8, "one-upload": 12, "as-is": 12}
