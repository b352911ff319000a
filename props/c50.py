"""An upload of logs: let through at the configured rate, tried again as often as configured, and answered by what became of it."""
from rules import *
from c46 import n, evs, ask, after, facts

S = "bd_logger::service::"
R = S + "ratelimit::"
WATCH = r"Watch::read\({}\)(#\d+)?"


def impl(p, ty, trait, fn):
    """the function of the type's implementation of the trait"""
    pat = rf"bd_logger::<service::{ty} as {trait}>::{fn}"
    m = [f for f in p.by_id.values() if re.fullmatch(pat, f.id)]
    if len(m) != 1:
        raise Anchor(f"{len(m)} functions {pat}")
    return m[0]


def rate(c):
    c.rule("rate", "a request is let through while something is left of the period's bytes, and takes its bytes from them; what is not let through waits until the next period begins, and then asks again; all clones share one state")
    p = c.program("bd_logger")
    f = impl(p, r"ratelimit::RateLimit<\w+>", r"tower::Service<\w+>", "call")
    L = r"lock\(self\.shared_state\)#\d+"
    NUM, PER = WATCH.format(L + r"\.rate\.num"), WATCH.format(L + r"\.rate\.per")
    SIZE = r"RequestSized::per_request_size\(\$2\)(#\d+)?"
    kinds = set()

    def turn(q, granted):
        """one attempt to get a permit"""
        new = ask(q, rf"{L}\.sleep_until<Instant::now\(\)(#\d+)?")
        if new is None:
            # asked the other way round: the period may begin again at its very end
            o = ask(q, rf"Instant::now\(\)(#\d+)?<{L}\.sleep_until")
            new = None if o is None else not o
        if not c.ob("rate", new is not None, q, "whether the period is over is not asked"):
            return
        lim = ask(q, rf"{L}\.state is Limited")
        if lim is None:
            r = ask(q, rf"{L}\.state is Ready")
            lim = None if r is None else not r
        start = NUM if new else rf"{L}\.state\?Ready\.(rem|0)"
        if not granted:
            c.ob("rate", new is False and lim is True, q, "a request waits although something is left, or the period is over")
            c.ob("rate", not [k for k in after(q) if re.fullmatch(L, k)], q, "a request that is not let through changes the state")
            kinds.add("wait")
            return
        if not c.ob("rate", new or lim is False, q, "a request is let through although nothing is left"):
            return
        fits = ask(q, rf"{SIZE}<{start}")
        a = [v for k, v in after(q).items() if re.fullmatch(L, k)]
        if not c.ob("rate", fits is not None and len(a) == 1, q, f"what a request takes is not decided by what is left: {sorted(facts(q))} {a}"):
            return
        st = rf"(Ready\{{(rem|0):=?Sub\({start},{SIZE}\)\}}|{L}\.state\?Ready\{{(rem|0):=Sub\({start},{SIZE}\)\}})" if fits else "Limited"
        until = rf"(Add::add|Add|Instant::add)\(Instant::now\(\)(#\d+)?,Duration::unsigned_abs\({PER}\)\)"
        want = rf"{L}\{{(sleep_until:={until},state:={st}|state:={st},sleep_until:={until})\}}" if new else rf"{L}\{{state:={st}\}}"
        c.ob("rate", re.fullmatch(want, a[0]) is not None, q, f"after a request ({'new' if new else 'same'} period, {'less' if fits else 'not less'} than what is left) the state is {a[0][:260]}")
        kinds.add(("new" if new else "same", fits))

    for q in c.paths_of(p, f, Config(opaque=[], budget=4000), is_async=True):
        if not c.ob("rate", q.kind == "ret", q, "a request panics"):
            continue
        calls = [e for e in q.events(True) if repr(e).startswith("Service::call(")]
        c.ob("rate", len(calls) == 1 and n(calls[0].args[0]).startswith("self.inner") and show(calls[0].args[1]) == "$2", q, f"the request is not handed on once, as it is: {calls}")
        c.ob("rate", re.fullmatch(r"await\(Service::call\(self\.inner,\$2\)(#\d+)?\)", n(q.ret)) is not None, q, f"the answer is {n(q.ret)[:100]}, not the answer to the request")
        aw = [repr(e) for e in q.trace if repr(e).startswith("await:")]
        c.ob("rate", len(aw) >= 1 and aw[-1].startswith("await:await(Service::call("), q, "the request is not tried last")
        turn(q, True)
        for i in iterations(q):
            tr = [n(e) for e in i.trace]
            w = [x for x in tr if x.startswith("await:")]
            c.ob("rate", len(w) == 1 and re.fullmatch(rf"await:await\(time::sleep_until\({L}\.sleep_until\)(#\d+)?\)", w[0]) is not None, i, f"it waits for {w}")
            lk, ul, at = [k for k, x in enumerate(tr) if x.startswith("lock:")], [k for k, x in enumerate(tr) if x.startswith("unlock:")], [k for k, x in enumerate(tr) if x.startswith("await:")]
            c.ob("rate", len(lk) == len(ul) and all(u < a for u in ul for a in at), i, "it waits holding the lock")
            turn(i, False)
    c.ob("rate", kinds >= {"wait", ("new", True), ("new", False), ("same", True), ("same", False)}, f, f"cases not there: {kinds}")
    f = impl(p, r"ratelimit::RateLimit<\w+>", r"std::clone::Clone", "clone")
    for q in c.paths_of(p, f, Config(opaque=[])):
        c.ob("rate", n(q.ret) == "RateLimit{inner:self.inner,shared_state:self.shared_state}", q, f"a clone is {n(q.ret)[:120]}")
    f = impl(p, r"ratelimit::RateLimitLayer", r"tower::Layer<\w+>", "layer")
    for q in c.paths_of(p, f, Config(opaque=[])):
        c.ob("rate", n(q.ret) == "RateLimit{inner:$2,shared_state:self.state_with_sleep}", q, f"a layer is {n(q.ret)[:120]}")
    f = impl(p, r"UploadRequest", r"service::ratelimit::RequestSized", "per_request_size")
    SUM = r"sum\(\[each self\.log_upload\.logs: \{ => one\(len\(item\(self\.log_upload\.logs\)\)\)\}\]\)"
    for q in c.paths_of(p, f, Config(opaque=[])):
        fit = [v for k, v in facts(q).items() if re.fullmatch(rf"\w+::(try_into|try_from)\({SUM}\) is Ok", k)]
        c.ob("rate", (fit == [True] and q.kind == "ret" and re.fullmatch(rf"\w+::(try_into|try_from)\({SUM}\)\?Ok\.0", n(q.ret)) is not None) or (fit == [False] and q.kind != "ret"), q, f"the size of a request is {n(q.ret)[:160]}")
    # the rate is what is configured
    f = R + "Rate::new"
    for q in c.paths_of(p, f, Config(opaque=[])):
        if n(q.ret).startswith("Ok("):
            c.ob("rate", re.fullmatch(r"Ok\(Rate\{num:ConfigLoader::register_watch\(\$1\)#\d+\?Ok\.0,per:ConfigLoader::register_watch\(\$1\)#\d+\?Ok\.0\}\)", n(q.ret)) is not None, q, f"the rate is {n(q.ret)[:120]}")


def builder(c):
    c.rule("whole", "an upload is one request to the rate limit, below it is tried again, and below that sent; attempts begin at none")
    p = c.program("bd_logger")
    REG = r"ConfigLoader::register_watch\(\$3\)#\d+\?Ok\.0"
    SC = r"Scope::scope\(\$4,'uploader'\)(#\d+)?"
    RATE = rf"Rate\{{num:{REG},per:{REG}\}}"
    LAYER = rf"RateLimitLayer\{{state_with_sleep:Mutex::new\(SharedState\{{rate:{RATE},sleep_until:Instant::now\(\)(#\d+)?,state:Ready\{{(rem|0):Watch::read\({REG}\)(#\d+)?\}}\}}\)\}}"
    POL = rf"RetryPolicy\{{attempts:0,backoff:None,backoff_provider:BackoffProvider\{{initial_backoff:{REG},max_backoff:{REG}\}},max_retries:{REG},retry_limit_exceeded:Scope::counter\({SC},'retry_limit_exceeded'\)(#\d+)?,retry_limit_exceeded_dropped_logs:Scope::counter\({SC},'retry_limit_exceeded_dropped_logs'\)(#\d+)?\}}"
    UP = rf"Uploader\{{data_upload_tx:\$1,scope:{SC},shutdown:\$2\}}"
    ok = 0
    for q in c.paths_of(p, S + "new", Config(opaque=[])):
        if n(q.ret).startswith("Err("):
            c.ob("whole", any(k.startswith("ConfigLoader::register_watch") and not v for k, v in facts(q).items()), q, "refused for no reason")
            continue
        c.ob("whole", re.fullmatch(rf"Ok\(ServiceBuilder::service\(ServiceBuilder::retry\(ServiceBuilder::layer\(ServiceBuilder::boxed_clone\(ServiceBuilder::new\(\)(#\d+)?\)(#\d+)?,{LAYER}\)(#\d+)?,{POL}\)(#\d+)?,{UP}\)(#\d+)?\)", n(q.ret)) is not None, q, f"the service is {n(q.ret)[:900]}")
        ok += 1
    c.ob("whole", ok == 1, S + "new", "no service is made")
    for q in c.paths_of(p, S + "UploadRequest::new", Config(opaque=[])):
        c.ob("whole", re.fullmatch(r"UploadRequest\{log_upload:\$1,uuid:Tracked::upload_uuid\(\)(#\d+)?\}", n(q.ret)) is not None, q, f"a request is {n(q.ret)[:120]}")
    for q in c.paths_of(p, impl(p, "UploadRequest", "std::clone::Clone", "clone"), Config(opaque=[])):
        c.ob("whole", n(q.ret) == "UploadRequest{log_upload:self.log_upload,uuid:self.uuid}", q, f"a request tried again is {n(q.ret)[:120]}, not the same, under the same name")
    for q in c.paths_of(p, impl(p, "RetryPolicy", r"tower::retry::Policy<.*>", "clone_request"), Config(opaque=[])):
        c.ob("whole", re.fullmatch(r"Some\((\$2|UploadRequest\{log_upload:\$2\.log_upload,uuid:\$2\.uuid\})\)", n(q.ret)) is not None, q, f"a request is kept to be tried again as {n(q.ret)[:120]}")


def retry(c):
    c.rule("again", "only a failed upload is tried again, after a pause, as long as fewer attempts than configured were made; otherwise, if it failed, it and its logs are counted as given up; what succeeded or was canceled is neither")
    p = c.program("bd_logger")
    f = impl(p, "RetryPolicy", r"tower::retry::Policy<.*>", "retry")
    MAX = WATCH.format(r"self\.max_retries")
    END = r"self\.retry_limit_exceeded"
    kinds = set()
    PROV = r"self\.backoff_provider\."
    BUILD = r"ExponentialBackoffBuilder::"
    INI = rf"{BUILD}with_initial_interval\({BUILD}(new|default)\(\)(#\d+)?,Duration::unsigned_abs\({WATCH.format(PROV + 'initial_backoff')}\)\)(#\d+)?"
    MAXI = rf"{BUILD}with_max_interval\({INI},Duration::unsigned_abs\({WATCH.format(PROV + 'max_backoff')}\)\)(#\d+)?"
    NEW = rf"{BUILD}build\({BUILD}with_max_elapsed_time\({MAXI},None\)(#\d+)?\)(#\d+)?"
    for q in c.paths_of(p, f, Config(opaque=[], budget=4000)):
        ok = ask(q, r"\$3 is Ok")
        fail = ask(q, r"\$3\?Ok\.0 is Failure")
        if fail is None:
            # told from the others
            o = [ask(q, rf"\$3\?Ok\.0 is {v}") for v in ("Success", "Canceled")]
            fail = False if True in o else True if o == [False, False] else None
        if ok is False:
            fail = False
        tx = [n(e) for e in q.trace]
        inc = [x for x in tx if re.match(rf"Counter::\w+\({END}", x)]
        if not c.ob("again", fail is not None, q, "whether the upload failed is not asked"):
            continue
        if not fail:
            c.ob("again", q.kind == "ret" and n(q.ret) == "None" and not inc and not after(q), q, f"an upload that did not fail is tried again, or counted: {n(q.ret)[:60]} {inc} {sorted(after(q))}")
            kinds.add("fine")
            continue
        more = ask(q, rf"self\.attempts<{MAX}")
        if not c.ob("again", more is not None, q, "whether attempts are left is not asked"):
            continue
        if not more:
            c.ob("again", q.kind == "ret" and n(q.ret) == "None" and len(inc) == 2 and f"Counter::inc(self.retry_limit_exceeded)" in inc and any(re.fullmatch(r"Counter::inc_by\(self\.retry_limit_exceeded_dropped_logs, len\(\$2\.log_upload\.logs\)\)", x) for x in inc), q, f"an upload given up is not counted, once, with its logs: {inc}")
            kinds.add("given up")
            continue
        had = ask(q, r"self\.backoff is Some")
        if had is None:
            o = ask(q, r"self\.backoff is None")
            had = None if o is None else not o
        b = r"self\.backoff\?Some\.0" if had else NEW
        nx = rf"Backoff::next_backoff\({b}\)(#\d+)?"
        got = ask(q, nx + " is Some")
        if not c.ob("again", had is not None and got is not None, q, f"the next pause is not from the backoff there is, or a new one as configured: {[x for x in tx if 'next_backoff' in x][:1]}"):
            continue
        if not got:
            # a backoff without an end always has a next pause
            c.ob("again", q.kind == "panic", q, "a failed upload is not tried again")
            continue
        c.ob("again", not inc, q, "an upload tried again is counted as given up")
        a = after(q).get("self", "")
        keep = r"backoff:=self\.backoff\?Some\{0:=after_next_backoff\}" if had else r"backoff:=Some\(after_next_backoff\)"
        c.ob("again", re.fullmatch(rf"self\{{attempts:=Add\((self\.attempts,1|1,self\.attempts)\),{keep}\}}", a) is not None, q, f"after another attempt the policy is {a[:160]}")
        kinds.add(("again", had))
        m = re.fullmatch(rf"Some\(coroutine<retry>\((\w+)=({nx}\?Some\.0)\)\)", n(q.ret))
        if not c.ob("again", m is not None, q, f"the pause is {n(q.ret)[:160]}"):
            continue
        cands = [g for g in p.by_id.values() if g.id.startswith(f.id + "::{closure") and g.meta.get("coroutine", True)]
        hit = 0
        for g in cands:
            for w in c.paths_of(p, g, Config(opaque=[])):
                s = [n(e) for e in w.trace if repr(e).startswith("await:")]
                hit += w.kind == "ret" and s != [] and all(re.fullmatch(rf"await:await\(time::sleep\(\$1\.{m.group(1)}\)(#\d+)?\)", x) for x in s)
        c.ob("again", hit >= 1, q, "the pause is not waited for")
    c.ob("again", kinds >= {"fine", "given up", ("again", True), ("again", False)}, f, f"cases not there: {kinds}")


def sending(c):
    c.rule("sent", "what is sent has the request's name, logs and buffer; the answer is success only if the server said so, canceled only on a shutdown or when nobody takes uploads, and otherwise failure, also when the answer is lost; attempts and failures are counted, each once")
    p = c.program("bd_logger")
    f = impl(p, "Uploader", r"tower::Service<.*>", "call")
    B = r"\$2\.log_upload\.buffer_id"
    REQ = rf"LogUploadRequest\{{buffer_uuid:{B},logs:\$2\.log_upload\.logs,special_fields:default\([^()]*\)\.special_fields,upload_uuid:\$2\.uuid\}}"
    T = rf"Tracked::new\(\$2\.uuid, ?{REQ}\)(#\d+)?"
    SEND = rf"Sender::send\(self\.data_upload_tx,LogsUploadRequest\({T}\.0\)\)(#\d+)?"
    ANS = rf"await\({T}\.1\)"
    CTR = lambda x: rf"Counter::inc\(Scope::counter_with_labels\(self\.scope,'{x}',after_insert\)(#\d+)?\)"
    seen = set()
    for q in c.paths_of(p, f, Config(opaque=[], budget=4000), is_async=True):
        if not c.ob("sent", q.kind == "ret", q, "sending panics"):
            continue
        tx = [n(e) for e in q.trace]
        sent = ask(q, rf"await\({SEND}\) is Ok")
        ans = ask(q, ANS + " is Ok")
        good = ask(q, ANS + r"\?Ok\.0\.success")
        down = [x for x in tx if re.match(r"await:await\(ComponentShutdown::cancelled\(", x)]
        at = [x for x in tx if x.startswith("await:")]
        new = [x for x in tx if x.startswith("Tracked::new(")]
        c.ob("sent", len(new) == 1 and re.fullmatch(T, new[0]) is not None, q, f"what is sent is {str(new)[:300]}")
        lab = [x for x in tx if x.startswith("BTreeMap::insert(")]
        c.ob("sent", all(re.fullmatch(rf"BTreeMap::insert\(BTreeMap::new\(\), 'buffer_id', {B}\)", x) for x in lab), q, f"the counters are labelled {lab}")
        c.ob("sent", len([x for x in tx if re.fullmatch(CTR("log_upload_attempt"), x)]) == 1, q, "an attempt is not counted once")
        fails = len([x for x in tx if re.match(r"Counter::inc", x)]) - 1
        if ans is True and good is not None and not down:
            want = "Success" if good else "Failure"
        elif ans is False and not down:
            want = "Failure"
        elif down or sent is False:
            want = "Canceled"
        else:
            want = None
        c.ob("sent", want is not None and n(q.ret) == f"Ok({want})", q, f"an upload (taken: {sent}, answered: {ans}, success: {good}, shutdown: {bool(down)}) is {n(q.ret)[:80]}")
        c.ob("sent", fails == (1 if want == "Failure" else 0) and (want != "Failure" or any(re.fullmatch(CTR("log_upload_failure"), x) for x in tx)), q, f"{fails} failures are counted for {want}")
        c.ob("sent", len(at) == len(set(at)) and len(at) <= 2, q, f"it waits for more than the upload, the answer and the shutdown: {len(at)}")
        c.ob("sent", any(x.startswith("ComponentShutdown::cancelled(self.shutdown") for x in tx), q, "a shutdown is not listened to")
        seen.add((want, sent, ans, bool(down)))
    c.ob("sent", len([x for x in seen if x[0] == "Canceled"]) >= 3, f, f"a shutdown is not listened to both while sending and while waiting for the answer: {seen}")
    c.ob("sent", {x[0] for x in seen} == {"Canceled", "Failure", "Success"}, f, f"cases not there: {seen}")


GROUPS = [rate, builder, retry, sending]
FLOORS = {"rate": 20, "whole": 5, "again": 8, "sent": 30}
