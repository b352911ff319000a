"""A killed client makes no connection, and stays killed for the time it was told."""
from rules import *
from apiloop import API, NET, rounds

FILE = "Path::join(self.sdk_directory,'client_kill_until')"
READ = r"await\(Api::read_kill_file\(self\)#1\)"
KEEP = [r"::Api::read_kill_file$", r"::Api::write_kill_file$", r"::Api::set_client_killed$"]


def key_hash(c, p):
    qs = c.paths_of(p, f"{API}::hash_api_key")
    return {q.ret for q in qs}


def sticky(c):
    p = c.program("bd_api")
    c.rule("sticky", "the mark that the client is killed is only ever set, and starts out unset")
    n = field(p, API, r"^bool$")
    ws = writers(p, n, "bd_api")
    for fid, sts in ws.items():
        for s in sts:
            c.ob("sticky", s[0] == "=" and s[2] == ["use", {"k": {"ty": "bool", "v": True}}], fid, f"{n} is written with something other than true")
    c.ob("sticky", len(ws) > 0, API, "nothing marks the client killed")
    for q in c.paths_of(p, f"{API}::new", Config(opaque=[r"Stats::new$"])):
        if q.ret.startswith("Ok("):
            made = q.e.resolve(q.state, fld(q.rett, "0"))
            c.ob("sticky", show(fld(made, n)) == "false", q, f"a client starts with the mark {show(fld(made, n))}")
        else:
            c.ob("sticky", q.kind == "ret" and q.ret.startswith("Err("), q, "a client is not made, without an error")
    for q in c.paths_of(p, f"{API}::set_client_killed"):
        c.ob("sticky", q.kind == "ret" and show(fld(q.e.resolve(q.state, next((v for k, v in q.x.heap().items() if show(k) == "self"), mk("sym", "self"))), n)) == "true"
             and len(q.ev(r"^UnexpectedErrorHandler::disable\(")) == 1, q, "being killed is not marked, or error reporting goes on")


def silent(c):
    c.rule("silent", "a killed client opens no stream and sends nothing: it waits for the shutdown")
    c.rule("killed-by-refusal", "a client the server refuses to authenticate is killed for the time configured for that, and then waits like any killed client")
    p, qs, its, ends = rounds(c)
    n = field(p, API, r"^bool$")
    un = field(p, API, "UnauthenticatedKillDuration")
    for i in its + ends:
        net = i.ev(NET)
        dead = i.truth(rf"(self|phi:_1\.self).*\.{n}")
        if net:
            c.ob("silent", dead is False, i, "the network is used without the client being known not to be killed")
        if dead:
            c.ob("silent", not net and i.kind == "ret" and i.ret == "Ok(())" and len(i.ev(r"^await:await\(ComponentShutdown::cancelled\(")) == 1, i, "a killed client does not wait for the shutdown")
        elif dead is None:
            c.ob("silent", False, i, "a round does not ask whether the client is killed")
        w = i.ev(r"^Api::wait_for_handshake\(")
        if not w:
            continue
        r = f"await({show(w[0].res)})"
        ref = i.truth(re.escape(r) + r"\?Ok\.0 is Unauthenticated")
        kill = i.ev(r"^Api::write_kill_file\(")
        if ref:
            c.ob("killed-by-refusal", i.kind == "iter" and len(kill) == 1 and re.fullmatch(rf"Watch::read\(.*\.{un}\)(#\d+)?", show(kill[0].args[1])) is not None and not i.ev(r"^Api::handle_responses\("), i,
                 "a client refused by the server is not killed for the time configured")
        else:
            c.ob("killed-by-refusal", not kill, i, "a client is killed without the server having refused it")


def written(c):
    p = c.program("bd_api")
    c.rule("recorded", "killing the client marks it killed before anything can fail, and records until when and for which API key in the kill file")
    hs = key_hash(c, p)
    c.ob("recorded", len(hs) == 1 and re.search(r"[(,](str::as_bytes\()?self\.api_key\)?[,)]", re.sub(r"\b(?!hashed\b|str::as_bytes\b)[\w:]+\(self\.api_key\)", "_", next(iter(hs)))) and not re.search(r"Random|#\d", next(iter(hs))), f"{API}::hash_api_key", "the hash is not determined by the API key")
    now = r"TimeProvider::now\(self\.time_provider\)(#\d+)?"
    for q in c.paths_of(p, f"{API}::write_kill_file", Config(opaque=KEEP)):
        mark = q.idx(r"^Api::set_client_killed\(self\)")
        aw = q.idx(r"^await:")
        w = q.ev(r"^fs::write\(")
        if not c.ob("recorded", len(mark) == 1 and (not aw or mark[0] < aw[0]) and len(w) == 1, q, "the client is not marked killed first, or nothing is recorded"):
            continue
        path, data = (re.sub(r"upd_by\(Api::set_client_killed\(self\)(#\d+)?,0\)", "self", show(a)) for a in w[0].args)
        c.ob("recorded", path == FILE and re.fullmatch(r"file::write_compressed_protobuf\(ClientKillFile\{.*\}\)(#\d+)?", data) is not None
             and re.search(rf"kill_until:OffsetDateTimeExt::into_proto\((Add::add\({now},\$2\)|Add::add\(\$2,{now}\))\)", data) is not None
             and f"api_key_hash:{next(iter(hs))}," in data, q, "what is recorded is not the hash of the API key and the time until which the client is killed")
    for q in c.paths_of(p, f"{API}::read_kill_file"):
        r = q.ret
        if q.truth(r"await\(fs::try_exists\(" + re.escape(FILE) + r"\)(#\d+)?\)\?Ok\.0") is False:
            c.ob("recorded", r == "Ok(None)", q, "a missing kill file is not reported as missing")
        elif r.startswith("Ok("):
            c.ob("recorded", re.fullmatch(r"Ok\(Some\(file::read_compressed_protobuf\(await\(fs::read\(" + re.escape(FILE) + r"\)(#\d+)?\)\?Ok\.0\)(#\d+)?\?Ok\.0\)\)", r) is not None, q, "the kill file is not read back as written")


def at_start(c):
    p = c.program("bd_api")
    c.rule("still-killed", "at start, a kill file for this API key whose time has not passed kills the client and stays")
    c.rule("revived", "at start, a kill file whose time has passed, or which is for another API key, is removed and does not kill the client")
    c.rule("told-to", "at start without a usable kill file, the client is killed exactly if the configuration says so, for the time it says")
    c.rule("order", "the cached configuration is loaded before the kill is decided, and the kill is decided before the first connection")
    hs = key_hash(c, p)
    gen = field(p, API, "GenericKillDuration")
    now = r"TimeProvider::now\(self\.time_provider\)(#\d+)?"
    until = rf"TimestampExt::to_offset_date_time\({READ}\?Ok\.0\?Some\.0\.kill_until\)(#\d+)?"
    for q in c.paths_of(p, f"{API}::maybe_kill_client", Config(opaque=KEEP, pure=[r"TimeProvider::now$", r"Watch.*::read$", "to_offset_date_time$"])):
        if q.kind != "ret":
            c.ob("told-to", False, q, f"start ends in {q.kind}")
            continue
        some = q.truth(READ + r"\?Ok\.0 is Some")
        if q.truth(READ + " is Ok") is False:
            some = False
        rm, mark, wr = q.ev(r"^fs::remove_file\("), q.ev(r"^Api::set_client_killed\("), q.ev(r"^Api::write_kill_file\(")
        if some:
            live = q.truth(rf"{now}<{until}")
            if live is None and q.truth(rf"{until}<{now}"):
                live = False
            h = next(iter(hs))
            same = q.truth(rf"{READ}\?Ok\.0\?Some\.0\.api_key_hash=={re.escape(h)}|{re.escape(h)}=={READ}\?Ok\.0\?Some\.0\.api_key_hash")
            if live and same:
                c.ob("still-killed", len(mark) == 1 and not rm and not wr, q, "an unexpired kill is not carried on, or its record is lost")
            else:
                c.ob("revived", (live is False or same is False) and not mark and not wr and len(rm) == 1 and FILE in show(rm[0].args[0]), q, "an expired kill, or one of another API key, is carried on or not removed")
        else:
            z = q.truth(rf"Duration::is_zero\(Watch::read\(self\.{gen}\)(#\d+)?\)")
            c.ob("told-to", some is False and z is not None and not mark and not rm and (len(wr) == (0 if z else 1)) and (z or re.fullmatch(rf"Watch::read\(self\.{gen}\)(#\d+)?", show(wr[0].args[1])) is not None), q,
                 "without a kill file the client is not killed exactly as configured")
    for q in c.paths_of(p, f"{API}::start", Config(opaque=KEEP + [r"::maintain_active_stream$", r"::maybe_kill_client$"])):
        pipes = field(p, API, "ConfigurationUpdate")
        lps = [lp for lp in q.loops() if show(lp.src or sym("?")) == f"self.{pipes}"]
        ok_ = len(lps) == 1 and q.whole(lps[0]) and all(len(Iter(q, tr, st).ev(r"^await:await\(ConfigurationUpdate::try_load_persisted_config\(")) == 1 for tr, st in lps[0].iters)
        c.ob("order", ok_ and q.before(r"^LOOP", r"^Api::maybe_kill_client\(") and q.before(r"^await:await\(Api::maybe_kill_client\(", r"^Api::maintain_active_stream\("), q,
             "the configuration is not loaded, then the kill decided, then the connection made")


GROUPS = [sticky, silent, written, at_start]
FLOORS = {"sticky": 2, "silent": 40, "killed-by-refusal": 40, "recorded": 4, "still-killed": 1, "revived": 1, "told-to": 2, "order": 1}
