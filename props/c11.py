"""Watched configuration: every reported replacement is loaded and published; failures become 'no config'."""
from rules import *

W = "bd_runtime_config::loader::WatchedFileLoader"
ST = "bd_runtime_config::loader::WatchedFileLoaderState"


def same_state(q, g, kept, flag):
    """Nothing behind the lock is different from before, its flag being set."""
    v = q.x.heap().get(g)
    return v is None or fld(v, flag) in (TRUE, fld(g, flag)) and all(fld(v, k) is fld(g, k) for k in kept)


def one_load(c, rule, q, evs, path, stats, conv):
    """Decides one load among evs: (ok, value published)."""
    reads = [e for e in evs if re.search(r"^fs::read_to_string\(|^fs::read\(", repr(e))]
    cb = [e for e in evs if repr(e).startswith("StatsCallbacks::on_")]
    cv = [e for e in evs if repr(e).startswith("call:" + conv + "(")]
    if not c.ob(rule, len(reads) == 1 and show(reads[0].args[0]) == path, q, "the file is not read exactly once"):
        return None
    ok1 = q.decide(mk("is", reads[0].res, "Ok"))
    ps = [e for e in evs if re.search(r"^serde_yaml::from_(str|slice)\(", repr(e))]
    ok2 = None
    if ok1:
        if not c.ob(rule, len(ps) == 1 and ps[0].args[0] is fld(downcast(reads[0].res, "Ok"), "0"), q, "what is parsed is not what was read"):
            return None
        ok2 = q.decide(mk("is", ps[0].res, "Ok"))
    want = "on_io_failure" if ok1 is False else ("on_deserialize_success" if ok2 else "on_deserialize_failure")
    c.ob(rule, len(cb) == 1 and cb[0].path.endswith(want) and show(cb[0].args[0]) == stats and (ok1 is False or ok2 is not None), q,
         f"a load is not counted exactly once as {want}")
    val = some(fld(downcast(ps[0].res, "Ok"), "0")) if ok2 else NONE
    c.ob(rule, len(cv) == 1 and cv[0].args[0] is val, q, "the configuration converted is not what the file holds (or none)")
    return cv[0].res if len(cv) == 1 else None


def starting(c):
    p = c.program("bd_runtime_config")
    snd, rcv = field(p, W, r"watch::Sender<"), field(p, W, r"watch::Receiver<")
    c.rule("load", "each load reads and parses the file once, counts its outcome once, and converts the parsed value or none")
    c.rule("watch-first", "the directory is watched before the first load, so no replacement in between is missed")
    c.rule("published", "what the first load gives is the first snapshot, and snapshots are read from where reloads are sent")
    c.rule("shutdown", "the first shutdown stops the watcher and waits for the task outside the lock; later ones do nothing")
    c.rule("start-errors", "a loader is refused only when watching fails")
    c.task = None
    for q in c.paths_of(p, f"{W}::<ConfigType>::new_loader"):
        w = q.ev(r"^Watcher::watch\(")
        mk_ = q.ev(r"^notify::recommended_watcher\(")
        good = bool(mk_) and bool(w) and all(q.decide(mk("is", e.res, "Ok")) for e in mk_ + w)
        if known_variant(q.rett) == "Err":
            c.ob("start-errors", q.kind == "ret" and not good and not q.has(r"^tokio::spawn"), q, "refused although watching works")
            continue
        if not c.ob("start-errors", q.kind == "ret" and good, q, "started although watching failed, or panics"):
            continue
        c.ob("watch-first", len(w) == 1 and show(w[0].args[1]) == "$1" and q.before(r"^Watcher::watch\(", r"^fs::read"), q,
             "the file is loaded before its directory is watched")
        v = one_load(c, "load", q, q.events(), "$2", "$4", r"$3")
        ch = [e for e in q.ev(r"^watch::channel\(") if v is not None and e.args[0] is v]
        t = q.ev(r"^tokio::spawn\(")
        L = q.rett.a[3][0]
        c.ob("published", len(ch) == 1 and fld(L, snd) is fld(ch[0].res, "0") and fld(L, rcv) is fld(ch[0].res, "1"), q,
             "the first snapshot is not the first load, or readers look at another channel")
        mp = q.ev(r"^mpsc::channel\(")
        if not c.ob("published", len(t) == 1 and t[0].args[0].op == "agg" and len(mp) == 1, q, "no single reload task"):
            continue
        a = t[0].args[0]
        cap = [(n, x) for n, x in zip(a.a[2], a.a[3])]
        vals = {show(x): n for n, x in cap}
        c.ob("published", show(mp[0].res) + ".1" in vals and show(L) in vals and "$2" in vals and "$3" in vals and "$4" in vals
             and show(mp[0].res) + ".0" in show(mk_[0].args[0]), q, "the reload task does not work on this loader's channel, file and callbacks")
        c.task = (a.a[0][1], {"rx": vals.get(show(mp[0].res) + ".1"), "loader": vals.get(show(L)), "file": vals.get("$2"),
                              "conv": vals.get("$3"), "stats": vals.get("$4")})
        lk = [v for k, v in q.x.heap().items() if "join_handle" in show(v)]
        c.ob("shutdown", bool(lk) and all(re.search(r"\b" + field(p, ST, r"^bool$") + r":=?true", show(v)) is None for v in lk) and any(re.search(r"\b" + field(p, ST, r"^bool$") + r":=?false", show(v)) or field(p, ST, r"^bool$") in show(v) for v in lk), q, "a loader starts as if it were shut down")
        c.ob("published", bool(lk) and any(show(t[0].res) in show(v) for v in lk), q, "the task is not kept to be joined at shutdown")


def reloading(c):
    p = c.program("bd_runtime_config")
    snd = field(p, W, r"watch::Sender<")
    c.rule("reload", "each reported replacement leads to one load whose outcome is published; nothing else reloads")
    c.rule("keeps-going", "the task ends only when the loader is shut down or the watcher fails")
    if not c.task:
        raise Anchor("reload task")
    body, cap = c.task
    f = p.fns.get(body)
    if f is None:
        raise Anchor(f"reload task body {body}")
    e = Engine(p, Config())
    for q in c.paths_of(p, f, is_async=False):
        evs = q.events(deep=False)
        rv = q.ev(r"^await:await\(Receiver::recv\(", deep=False)
        last = rv[-1].res if rv else None
        if q.kind == "ret":
            none = last is not None and q.decide(mk("is", last, "Some")) is False
            fail = last is not None and q.decide(mk("is", fld(downcast(last, "Some"), "0"), "Ok")) is False
            c.ob("keeps-going", none or fail, q, "the reload task ends while the loader is live")
        else:
            s = q.ev(r"^Sender::send\(", deep=False)
            c.ob("keeps-going", bool(s) and q.decide(mk("is", s[-1].res, "Ok")) is False, q, "the reload task can panic")
        for lp in q.loops():
            for tr, st in lp.iters:
                it = Iter(q, tr, st)
                rv = [x for x in tr if repr(x).startswith("await:await(Receiver::recv(")]
                if not c.ob("reload", len(rv) == 1, q, "an iteration does not wait for exactly one event"):
                    continue
                kind = fld(fld(downcast(fld(downcast(rv[0].res, "Some"), "0"), "Ok"), "0"), "kind")
                mod = it.decide(mk("is", kind, "Modify"))
                name = mod and it.decide(mk("is", fld(downcast(kind, "Modify"), "0"), "Name"))
                ren = renamed(it, fld(downcast(fld(downcast(kind, "Modify"), "0"), "Name"), "0")) if name else False
                if ren is None:
                    ren = any(repr(x).startswith("fs::read") for x in tr)
                if not ren:
                    c.ob("reload", not any(re.search(r"^(fs::|Sender::send)", repr(x)) for x in tr), q, "reloads although nothing was replaced")
                    continue
                v = one_load(c, "reload", it, tr, f"$1.{cap['file']}", f"$1.{cap['stats']}", f"$1.{cap['conv']}")
                s = [x for x in tr if re.search(r"^Sender::send(_replace|_modify)?\(", repr(x))]
                c.ob("reload", len(s) == 1 and v is not None and show(s[0].args[0]) == f"$1.{cap['loader']}.{snd}" and s[0].args[1] is v, q,
                     "the loaded configuration is not published")


def renamed(it, mode):
    for m in ("Both", "Any"):
        r = it.decide(mk("is", mode, m))
        if r is not None:
            return r
    return None


def stopping(c):
    p = c.program("bd_runtime_config")
    c.rule("shutdown", "the first shutdown stops the watcher and waits for the task outside the lock; later ones do nothing")
    wf, jf, sf = field(p, ST, r"Watcher"), field(p, ST, r"JoinHandle"), field(p, ST, r"^bool$")
    mx = field(p, W, r"Mutex<")
    ids = [f for f in p.by_id.values() if re.search(r"WatchedFileLoader<.*> as loader::Loader<.*>>::shutdown$", f.id)]
    for f in ids or [c.fn(p, "WatchedFileLoader::shutdown")]:
        for q in c.paths_of(p, f, is_async=True):
            lk = q.ev(r"^lock:")
            if not c.ob("shutdown", len(lk) == 1, q, "the shutdown state is not decided in one critical section"):
                continue
            g = lk[0].res
            was = q.decide(fld(g, sf))
            aw = q.ev(r"^await:")
            if was:
                c.ob("shutdown", q.kind == "ret" and not aw and same_state(q, g, (wf, jf), sf), q, "a second shutdown does something")
                continue
            c.ob("shutdown", was is False, q, "does not look at whether shutdown already happened")
            had = q.decide(mk("is", fld(g, jf), "Some"))
            v = q.x.heap().get(g)
            c.ob("shutdown", v is not None and fld(v, sf) is TRUE and fld(v, wf) is NONE and fld(v, jf) is NONE, q,
                 "the watcher is not dropped, or the shutdown is not remembered")
            if had is False:
                c.ob("shutdown", q.kind == "panic" or not aw, q, "waits for nothing")
                continue
            c.ob("shutdown", len(aw) == 1 and show(g) in show(aw[0].args[0]) and q.before(r"^unlock:", r"^await:")
                 and (q.kind == "ret" or q.decide(mk("is", aw[0].res, "Ok")) is False), q, "does not wait for the task after releasing the lock")


def delivered(c):
    p = c.program("bd_runtime_config")
    c.rule("delivered", "every event the watcher reports reaches the reload task, waiting for room when the task is busy")
    fs = [f for f in p.by_id.values() if f.kind == "fn" and re.search(r"as notify::EventHandler>::handle_event$", f.id)]
    if not fs:
        raise Anchor("event handler")
    for f in fs:
        for q in c.paths_of(p, f):
            s = q.ev(r"^(Sender::(blocking_send|send)|UnboundedSender::send)\(")
            ok = len(s) == 1 and show(s[0].args[0]).startswith("self.") and show(s[0].args[1]) == "$2"
            c.ob("delivered", q.kind in ("ret", "panic") and ok, q, "an event is not handed on, or may be dropped when many arrive")


def reading(c):
    p = c.program("bd_runtime_config")
    rcv = field(p, W, r"watch::Receiver<")
    c.rule("read", "readers get the channel reloads are published on")
    for f in [f for f in p.by_id.values() if f.id.endswith("as loader::Loader<ConfigType>>::snapshot_watch") and "Watched" in f.id]:
        for q in c.paths_of(p, f):
            c.ob("read", q.ret == f"self.{rcv}", q, "another channel")


def counted(c):
    p = c.program("bd_runtime_config", "bd_server_stats")
    c.rule("counted", "each outcome of a load has a counter of its own, raised once")
    used = {}
    for f in [f for f in p.by_id.values() if re.search(r"loader::Stats as loader::StatsCallbacks>::on_\w+$", f.id)]:
        for q in c.paths_of(p, f, Config(opaque=[r"::inc(_by)?$"])):
            e = [x for x in q.events() if re.match(r"\w+::(inc|inc_by)\(", repr(x))]
            if c.ob("counted", q.kind == "ret" and len(e) == 1 and (len(e[0].args) == 1 or show(e[0].args[1]) == "1"), q, "an outcome is not counted once"):
                used.setdefault(show(e[0].args[0]), set()).add(f.id)
    c.ob("counted", all(len(v) == 1 for v in used.values()), "bd_runtime_config::loader::Stats", "two outcomes share a counter")
    for q in c.paths_of(p, "bd_runtime_config::loader::Stats::new", Config(opaque=[r"Scope::counter$"])):
        names = re.findall(r"Scope::counter\(\$1,'([^']*)'\)", q.ret)
        c.ob("counted", len(set(names)) >= len(used), q, f"the counters are named {names}")


GROUPS = [counted, starting, reloading, delivered, stopping, reading]
FLOORS = {"counted": 4, "delivered": 1, "load": 4, "published": 4, "reload": 4, "keeps-going": 1, "shutdown": 3, "watch-first": 1, "start-errors": 2}
