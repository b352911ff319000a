"""gRPC calls: what goes out, what comes back, and how an end is told."""
from rules import *
from c46 import n, facts
from c53 import chain
from c59 import own, known

G = "bd_grpc::"
CODES = {"Ok": 0, "Unknown": 2, "InvalidArgument": 3, "NotFound": 5, "FailedPrecondition": 9, "Internal": 13, "Unavailable": 14, "Unauthenticated": 16}
SAFE = [  # what cannot fail, of what is unwrapped
    r"HeaderValue::from_str\(urlencoding::encode\(.*\)\)", r"HeaderValue::from_str\((to_string|ToString::to_string)\(.*\)\)", r"HeaderValue::from_str\('\d+'\)",
    r"TryInto::try_into\('(deflate|snappy)'\)", r"HeaderValue::try_from\('(deflate|snappy)'\)", r"Builder::body\(.*\)", r"Builder::build\(.*\)",
    r"Encoder::compress_vec\(.*\)", r"await\(Semaphore::acquire\(self\.concurrency\)\)", r"TryInto::try_into\(\$3\)", r"await\(Sender::send\(mpsc::channel\(\d+\)\.0,.*\)\)",
]
SAFE_SOME = [r"Uri::(scheme|authority)\(self\.address\)", r"Frame::data_ref\(.*\)"]


def m(x):
    """names, without the numbers of calls"""
    return re.sub(r"#\d+", "", n(x))


def asked(q, pat, want=None):
    v = {v for k, v in q.state.facts.items() if re.fullmatch(pat, m(k))}
    return v.pop() if len(v) == 1 else None


def dead(q):
    """a path ended by a thing that cannot fail, failing"""
    return q.kind == "panic" and any(v is False and any(re.fullmatch(rf"{s} is Ok", m(k)) for s in SAFE) or v is False and any(re.fullmatch(rf"{s} is Some", m(k)) for s in SAFE_SOME) for k, v in q.state.facts.items())


def fn(p, name):
    f = p.by_id.get(name)
    if f is None:
        raise Anchor(f"{name} is missing")
    return f


def runs(c, rule, name, cfg=None, is_async=False, unused=None):
    """the paths of a function that can be taken"""
    p = c.program("bd_grpc")
    out = []
    for q in c.paths_of(p, fn(p, name), cfg or Config(budget=60000), is_async=is_async):
        if dead(q) or q.kind == "panic" and unused and asked(q, unused) is False:
            continue
        if c.ob(rule, q.kind == "ret" and not q.why, q, f"{name} ends with {q.kind} {q.why}"):
            out.append(q)
    return out


def built(t):
    """what a builder was told, first to last: ([(what, arguments)], where it started)"""
    while t.op == "fld" or t.op not in ("call",):
        t = t.a[0] if t.a and hasattr(t.a[0], "op") else None
        if t is None:
            return [], ""
    out = []
    while t.op == "call" and re.search(r"Builder(::<.*>)?::\w+$", t.a[0]) and t.a[1]:
        out.append((t.a[0].split("::")[-1], [m(a) for a in t.a[1][1:]]))
        t = t.a[1][0]
        if t.op == "fld":
            break
    return out[::-1], m(t)


def headers(steps):
    return {a[0]: a[1] for f, a in steps if f == "header"}


def status_headers(c, rule, q, steps, code, message):
    """what a status is written as"""
    want = {"'content-type'": "'application/grpc'", "'grpc-status'": code}
    if message:
        want["'grpc-message'"] = f"HeaderValue::from_str(urlencoding::encode({message}))?Ok.0"
    hs = [a for f, a in steps if f == "header"]
    c.ob(rule, len(hs) == len(want) and headers(steps) == want, q, f"says {hs}, wanted {want}")


def codes(c):
    c.rule("code", "every code is written as gRPC's number for it, and that number is read as it; any other is Unknown")
    c.rule("status", "a status is written as its code and, if it has one, its message in a form every header can hold; a response is read as the code and message it has")
    c.rule("error", "an error is answered with what it is: timeouts as an internal status, a status as itself, what the caller sent wrong as a bad request, the rest as a server error")
    p = c.program("bd_grpc")
    seen = {}
    for q in runs(c, "code", G + "Code::to_int"):
        k = [m(x).split(" is ")[1] for x, v in q.state.facts.items() if v and " is " in m(x)]
        c.ob("code", len(k) == 1 and m(q.ret) == str(CODES.get(k[0])), q, f"{k} is written as {m(q.ret)}")
        seen.update(dict.fromkeys(k))
    c.ob("code", set(seen) == set(CODES), None, f"codes written: {sorted(seen)}")
    for q in runs(c, "code", G + "Code::from_string"):
        t = [re.sub(r"\$1==|==\$1|'", "", m(x)) for x, v in q.state.facts.items() if v]
        no = {re.sub(r"\$1==|==\$1|'", "", m(x)) for x, v in q.state.facts.items() if not v}
        name = m(q.ret)
        c.ob("code", t == [str(CODES.get(name))] or name == "Unknown" and not t and {str(v) for k, v in CODES.items() if k != "Unknown"} <= no or name == "Unknown" and t == ["2"], q, f"{t} is read as {name}")
    for q in runs(c, "status", G + "Status::into_response_with_body", Config(opaque=[r"Code::to_int$"])):
        steps, base = built(q.rett)
        there = asked(q, r"self\.message is Some")
        c.ob("status", base == "Response::builder()" and there is not None and steps[-1:] == [("body", ["$2"])], q, f"a response is {m(q.ret)[:200]}")
        status_headers(c, "status", q, steps, "Code::to_int(self.code)", "self.message?Some.0" if there else None)
    H = r"HeaderMap::get\(\$1,'grpc-%s'\)"
    for q in c.paths_of(p, fn(p, G + "Status::from_headers"), Config(opaque=[r"Code::from_string$"])):
        there = asked(q, H % "status" + " is Some")
        if q.kind == "panic" and there is False:
            continue  # the callers ask, see below
        text = asked(q, rf"HeaderValue::to_str\({H % 'status'}\?Some\.0\) is Ok")
        msg = asked(q, H % "message" + " is Some")
        ok = asked(q, rf"HeaderValue::to_str\({H % 'message'}\?Some\.0\) is Ok") if msg else False
        w = "HeaderValue::to_str(HeaderMap::get($1,'grpc-%s')?Some.0)?Ok.0"
        code = w % "status" if text else r"default('T')"
        c.ob("status", q.kind == "ret" and text is not None and msg is not None and ok is not None and m(q.ret) in (f"Status{{code:Code::from_string({x}),message:{'Some(' + w % 'message' + ')' if ok else 'None'}}}" for x in (code, "''" if not text else code)), q, f"headers are read as {m(q.ret)}; asked {facts(q)}"[:500])
    for q in runs(c, "error", G + "<Error as axum::response::IntoResponse>::into_response", Config(opaque=[r"Status::into_response\w*$", r"Status::new$"])):
        k = [m(x).split(" is ")[1] for x, v in q.state.facts.items() if v and re.match(r"self is ", m(x))]
        r = m(q.ret)
        e = [x for x in own(q) if re.match(r"Status::", repr(x))]
        if set(k) <= {"ConnectionTimeout", "RequestTimeout"} and k:
            ok = re.fullmatch(r"Status::into_response(_with_body)?\(Status::new\(Internal,'upstream timeout'\).*\)", r)
        elif k == ["Grpc"]:
            ok = re.fullmatch(r"Status::into_response(_with_body)?\(self\?Grpc\.0.*\)", r)
        elif k and set(k) <= {"Codec", "ProtoValidation", "Snap"}:
            ok = re.fullmatch(r"IntoResponse::into_response\(const:(http::)?StatusCode::BAD_REQUEST\)", r)
        elif k and set(k) <= {"BodyStream", "Closed", "HyperClient"}:
            ok = re.fullmatch(r"IntoResponse::into_response\(const:(http::)?StatusCode::INTERNAL_SERVER_ERROR\)", r)
        else:
            ok = False
        c.ob("error", ok, q, f"{k} is answered with {r}")


def said(c, rule, q, t, kind):
    """the headers a request adds: those given, and what tells how it is compressed"""
    given = asked(q, r"\$3 is Some")
    if kind == "none":
        return c.ob(rule, m(t) == "$3", q, f"sends the headers {m(t)[:200]}")
    x = fld(downcast(t, "Some"), "0")
    steps, base = chain(x)
    base = re.sub(r"#\d+", "", base)
    got = [(f, tuple(re.sub(r"#\d+", "", y) for y in a)) for f, a in steps]
    v = lambda s: r"(TryInto::try_into|HeaderValue::try_from|HeaderValue::from_str|HeaderValue::from_static)\('%s'\)(\?Ok\.0)?" % s
    want = [("insert", "'grpc-encoding'", v("deflate")), ("insert", "'grpc-accept-encoding'", v("deflate"))] if kind == "deflate" else [("append|insert", "'content-encoding'", v("snappy"))]
    match = len(got) == len(want) and all(re.fullmatch(w[0], g[0]) and len(g[1]) == 2 and g[1][0] == w[1] and re.fullmatch(w[2], g[1][1]) for g, w in zip(sorted(got, key=lambda g: g[1][0] != "'grpc-encoding'"), want))
    base_ok = base == "$3?Some.0" if given else given is False and re.fullmatch(r"default\('.*'\)|HeaderMap::(new|default)\(\)|Default::default\(\)", base)
    return c.ob(rule, match and base_ok, q, f"adds the headers {got} to {base}")


def client(c):
    c.rule("address", "a client is made only for an address of a scheme and an authority and nothing else, with as many permits as requests may be under way")
    c.rule("request", "a request waits for a permit and is posted to the method's own path at that address, as gRPC, with the given headers, once; only a 2xx response that does not carry a status already is handed on, and a connection that timed out is told as that")
    c.rule("unary", "a unary call is written as one message, compressed as its headers say, gives up when its time is out, and returns the one message of the response and nothing else")
    c.rule("opened", "a stream sends what the caller writes, compressed as its headers say, and reads the response's body with the response's headers")
    A = r"TryInto::try_into\(\$1\)\?Ok\.0"
    whole = False
    for q in runs(c, "address", G + "Client::<C>::new_with_client"):
        k = {x: asked(q, y) for x, y in dict(uri=r"TryInto::try_into\(\$1\) is Ok", scheme=rf"Uri::scheme\({A}\) is Some", authority=rf"Uri::authority\({A}\) is Some", path=rf"'/'==Uri::path\({A}\)|Uri::path\({A}\)=='/'", query=rf"Uri::query\({A}\) is Some").items()}
        good = k == dict(uri=True, scheme=True, authority=True, path=True, query=False)
        bad = any(v is False for x, v in k.items() if x != "query") or k["query"] is True
        r = m(q.ret)
        c.ob("address", good and re.fullmatch(rf"Ok\(Client\{{address:{A},client:\$2,concurrency:(Arc::new\()?Semaphore::new\((TryInto::try_into\(\$3\)\?Ok\.0|\(?\$3( as usize\)?)?)\)\)?\}}\)", r) or bad and r.startswith("Err("), q, f"an address with {k} gives {r}")
        whole = whole or good
    c.ob("address", whole, None, "no client is ever made")
    REQ = r"await\(Client::request\(self\.client,(?P<r>.*)\)\)"
    for q in runs(c, "request", G + "Client::<C>::common_request", Config(opaque=[r"Status::from_headers$"], budget=60000), True):
        es = [e for e in own(q) if e.kind in ("call", "await")]
        rq = [e for e in es if re.match(r"Client::request\(", repr(e))]
        sem = [e for e in es if e.kind == "await" and m(e) == "await:await(Semaphore::acquire(self.concurrency))"]
        if not c.ob("request", len(rq) == len(sem) == 1 and es.index(sem[0]) < es.index(rq[0]), q, f"sends {len(rq)} requests, waits for {len(sem)} permits"):
            continue
        req = rq[0].args[1]
        steps, more = chain(req) if req.op == "upd_by" else ([], None)
        steps, base = built(req)
        uri = [a[0] for f, a in steps if f == "uri"]
        hs = [a for f, a in steps if f == "header"]
        c.ob("request", base == "Request::builder()" and ("method", ["const:http::Method::POST"]) in steps and sorted(hs) == [["'content-type'", "'application/grpc'"], ["'te'", "'trailers'"]] and steps[-1] == ("body", ["$4"]) and len(uri) == 1 and
             re.fullmatch(r"Builder::build\(Builder::path_and_query\(Builder::authority\(Builder::scheme\(Uri::builder\(\),Uri::scheme\(self\.address\)\?Some\.0\),Authority::as_str\(Uri::authority\(self\.address\)\?Some\.0\)\),\$2\.full_path\)\)\?Ok\.0", uri[0]), q, f"a request is {m(req)[:600]}")
        extra = asked(q, r"\$3 is Some")
        ext = [m(e) for e in es if re.match(r"(HeaderMap|Extend)::extend\(", repr(e))]
        c.ob("request", extra is not None and len(ext) == (1 if extra else 0) and all(re.fullmatch(r"\w+::extend\(Request::headers_mut\(.*\), \$3\?Some\.0\)", x) for x in ext), q, f"the given headers: {[x[-100:] for x in ext]}")
        R = r"await\(Client::request\(self\.client,.*\)\)"
        came = asked(q, R + " is Ok")
        r = m(q.ret)
        if came is False:
            late = asked(q, r"Error::kind\(.*downcast_ref\(Error::source\(Error::source\(" + R + r"\?Err\.0\)\?Some\.0\)\?Some\.0\)\?Some\.0\) is TimedOut")
            no = late is False or any(v is False and re.search(r"Error::source\(.* is Some$", m(k)) for k, v in q.state.facts.items())
            c.ob("request", late is True and r == "Err(ConnectionTimeout)" or late is not True and no and re.fullmatch(rf"Err\(HyperClient\({R}\?Err\.0\)\)", r), q, f"a failed request (timed out: {late}) gives {r[:200]}")
            continue
        fine = asked(q, rf"StatusCode::is_success\(Response::status\({R}\?Ok\.0\)\)")
        has = asked(q, rf"HeaderMap::contains_key\(Response::headers\({R}\?Ok\.0\),'grpc-status'\)")
        if fine is False:
            c.ob("request", came and re.match(r"Err\(Grpc\(Status\{code:Internal,message:Some\(", r), q, f"a response without success gives {r[:200]}")
        elif has:
            c.ob("request", came and fine and re.fullmatch(rf"Err\(Grpc\(Status::from_headers\(Response::headers\({R}\?Ok\.0\)\)\)\)", r), q, f"a response that is a status gives {r[:200]}")
        else:
            c.ob("request", came and fine and has is False and re.fullmatch(rf"Ok\({R}\?Ok\.0\)", r), q, f"a response gives {r[:200]}")
    cfg = Config(opaque=[r"::common_request$", r"::finalize_decompression$", r"Status::new$"], budget=60000)
    kinds = set()
    for q in runs(c, "unary", G + "Client::<C>::unary", cfg, True, r"\$6\?GRpc\.0 is StatelessZlib"):
        kind = next((k for k, v in (("none", "None"), ("deflate", "GRpc"), ("snappy", "Snappy")) if asked(q, rf"\$6 is {v}")), None)
        if kind == "deflate" and asked(q, r"\$6\?GRpc\.0 is StatelessZlib") is False:
            continue  # the other kind is only ever used by servers
        cr = q.ev(r"^Client::common_request\(")
        if not c.ob("unary", kind and len(cr) == 1 and m(cr[0].args[0]) == "self" and m(cr[0].args[1]) == "$2", q, f"makes {len(cr)} requests"):
            continue
        kinds.add(kind)
        said(c, "unary", q, cr[0].args[2], kind)
        enc = "Encoder::encode(Encoder::new(%s),$4)" % ("Some($6?GRpc.0)" if kind == "deflate" else "None")
        body = f"Encoder::compress_vec(Encoder::new(),{enc})?Ok.0" if kind == "snappy" else enc
        c.ob("unary", m(cr[0].args[3]) == body, q, f"a {kind} request sends {m(cr[0].args[3])}")
        T = rf"await\((TimeDurationExt::timeout|time::timeout)\(.*Client::common_request\(.*\)\)\)"
        tm = q.ev(r"^(TimeDurationExt|time)::timeout\(")
        c.ob("unary", len(tm) == 1 and any(re.search(r"\$5", m(a)) for a in tm[0].args), q, f"waits {[m(e)[:80] for e in tm]}")
        inside = asked(q, T + " is Ok")
        got = asked(q, T + r"\?Ok\.0 is Ok")
        r = m(q.ret)
        if inside is False:
            c.ob("unary", r == "Err(RequestTimeout)", q, f"time out gives {r[:100]}")
            continue
        if got is False:
            c.ob("unary", inside and re.fullmatch(rf"Err\({T}\?Ok\.0\?Err\.0\)", r), q, f"a failed request gives {r[-100:]}")
            continue
        RESP = T + r"\?Ok\.0\?Ok\.0"
        BODY = rf"await\(BodyExt::collect\(Response::into_body\({RESP}\)\)\)"
        whole = asked(q, BODY + " is Ok")
        if whole is False:
            c.ob("unary", got and re.match(r"Err\(BodyStream\(", r), q, f"a body cut off gives {r[:100]}")
            continue
        dec = q.ev(r"^Decoder::decode_data\(")
        D = rf"Decoder::decode_data\(Decoder::new\((?:bd_grpc::)?finalize_decompression\(Response::headers\({RESP}\)\),Cpu\), ?Collected::to_bytes\({BODY}\?Ok\.0\)\)"
        if not c.ob("unary", got and whole and len(dec) == 1 and re.fullmatch(D, m(dec[0])), q, f"reads {[m(e)[:300] for e in dec]}"):
            continue
        read = asked(q, D + " is Ok")
        one = asked(q, rf"1==len\({D}\?Ok\.0\)|len\({D}\?Ok\.0\)==1")
        if read is False:
            c.ob("unary", re.fullmatch(rf"Err\((Codec\()?{D}\?Err\.0\)?\)", r), q, f"a body that cannot be read gives {r[:100]}")
        elif one is False:
            c.ob("unary", read and r == "Err(Grpc(Status::new(Internal,'Invalid response body')))", q, f"another number of messages gives {r[:100]}")
        else:
            c.ob("unary", read and one and re.fullmatch(rf"Ok\((Vec::(swap_)?remove\({D}\?Ok\.0,0\)|Vec::pop\({D}\?Ok\.0\)\?Some\.0|item\({D}\?Ok\.0\))\)", r), q, f"one message gives {r[:100]}")
    c.ob("unary", kinds == {"none", "deflate", "snappy"}, None, f"ways to send: {kinds}")
    cfg = Config(opaque=[r"::common_request$", r"ServerStreamingApi::<.*>::new$", r"StreamingApi::<.*>::new$", r"StreamingApiSender::<.*>::new$"], budget=60000)
    for name, two in (("streaming", True), ("server_streaming", False)):
        for q in runs(c, "opened", G + f"Client::<C>::{name}", cfg, True, r"\$5\?Some\.0 is StatelessZlib" if two else None):
            cr = q.ev(r"^Client::common_request\(")
            if not c.ob("opened", len(cr) == 1 and m(cr[0].args[0]) == "self" and m(cr[0].args[1]) == "$2", q, f"{name} makes {len(cr)} requests"):
                continue
            packed = asked(q, r"\$5 is Some") if two else False
            said(c, "opened", q, cr[0].args[2], "deflate" if packed else "none")
            ch = r"mpsc::channel\(\d+\)"
            body = rf"(Body::new\()?StreamBody::new\(ReceiverStream::new\({ch}\.1\)\)\)?" if two else r"Encoder::encode\(Encoder::new\(None\),\$4\)"
            c.ob("opened", packed is not None and re.fullmatch(body, m(cr[0].args[3])), q, f"{name} sends {m(cr[0].args[3])}")
            came = asked(q, r"await\(Client::common_request\(.*\)\) is Ok")
            r = m(q.ret)
            if came is False:
                c.ob("opened", re.fullmatch(r"Err\(await\(Client::common_request\(.*\)\)\?Err\.0\)", r), q, f"no response gives {r[:100]}")
                continue
            P = r"Response::into_parts\(await\(Client::common_request\(.*\)\)\?Ok\.0\)"
            new = rf"{P}\.0\.headers,Body::new\({P}\.1\),"
            if not two:
                want = rf"Ok\(ServerStreamingApi::new\({new}\$5,\$6,None\)\)"
            else:
                want = rf"Ok\(StreamingApi::new\({ch}\.0,{new}\$4,\$5,\$6,None\)\)"
            c.ob("opened", came and re.fullmatch(want, r), q, f"{name} gives {r[:300]}")


SA = G + "ServerStreamingApi::<OutgoingType, IncomingType>::"
SE = G + "StreamingApiSender::<ResponseType>::"
NEXT = "await(BodyExt::frame(self.body))"
FR = NEXT + "?Some.0?Ok.0"
DATA = f"Frame::data_ref({FR})?Some.0"
TR = f"Frame::trailers_ref({FR})?Some.0"
DEC = f"Decoder::decode_data(self.decoder,{DATA})"
E = re.escape


def trailer(q, t, name):
    """whether a value is what the trailers hold under a name"""
    x = m(t)
    if x == f"HeaderMap::get({TR},'{name}')":
        return True
    for lp in q.loops():
        src = m(lp.src) if lp.src is not None else ""
        for k, (before, after) in lp.vars.items():
            if m(k) != x or src not in (TR, f"HeaderMap::iter({TR})"):
                continue
            if [m(b) for b in before] != ["None"] or not q.whole(lp):
                return False
            it = f"item({src})"
            for j, (tr, st) in enumerate(lp.iters):
                is_it = asked(Iter(q, tr, st), rf"'{name}'=={E(it)}\.0|{E(it)}\.0=='{name}'")
                other = any(v and re.fullmatch(rf"'[\w-]+'=={E(it)}\.0|{E(it)}\.0=='[\w-]+'", m(f)) for f, v in st.facts.items())
                now = m(after[j])
                if not (is_it is True and now == f"Some({it}.1)" or (is_it is False or is_it is None and other) and now == x):
                    return False
            return True
    return False


def text_of(q, t):
    """the text of a header's value, and whether it has one"""
    x = E(m(t))
    return asked(q, rf"HeaderValue::to_str\({x}\?Some\.0\) is Ok")


def stream(c):
    c.rule("paused", "while reading is stopped no frame is taken; the stream goes on when it may")
    c.rule("frames", "frames are taken one at a time and in order: data is decoded and handed on whole, never an empty list; what cannot be read, or is not valid where that is asked for, ends the stream with that error")
    c.rule("ends", "a stream ends without an error exactly when its body ends, its trailers say 0, or they say nothing; any other status is the error, with its message")
    c.rule("compressed", "a body is read as its headers say it is compressed, and a response is compressed only as the request accepts, and says so")
    c.rule("sent", "a message is sent as one data frame in order, counted, and an end as the trailers of its status; a receiver gone is an error")
    for q in runs(c, "frames", SA + "next", Config(opaque=["validate$", r"Code::from_string$"], budget=60000), True, r"await\(Receiver::changed\(.*\)\) is Ok"):
        def taken(i):
            return [e for e in own(i) if e.kind == "await" and m(e) == f"await:{NEXT}"]

        def stopped(i):
            there = asked(i, r"(G|self)\.read_stop is Some")
            return asked(i, r"\*?(Receiver|Ref)::(deref\(Receiver::)?(borrow_and_update|borrow)\((G|self)\.read_stop\?Some\.0\)\)?") if there else there

        for lp in q.loops():
            if not any(re.search(r"(self|G)\.body", m(k)) for k in lp.vars):
                continue
            for tr, st in lp.iters:
                i = Iter(q, tr, st)
                got, s = taken(i), stopped(i)
                if not got:
                    w = [e for e in own(i) if e.kind == "await" and re.match(r"await:await\(Receiver::changed\(", m(e))]
                    c.ob("paused", len(w) == 1 and s is not None, i, f"goes round without a frame, stopped: {s}, waiting for {len(w)} changes")
                    # the wait is over at once, over and over, when nobody is left to ask for a stop
                    heard = asked(i, r"await\(Receiver::changed\(.*\)\) is Ok")
                    off = any(re.search(r"read_stop(:=|\b.*\b)None|read_stop:=None", str(v)) or str(k).endswith("read_stop") and str(v) == "None" for k, v in {**i.heap(r"self.*"), **i.heap(r".*read_stop")}.items())
                    c.ob("paused", s is True or heard is True or heard is False and off, i, f"goes round with nobody left to stop it, and goes on waiting for a stop: {heard}")
                    continue
                c.ob("paused", s is False and len(got) == 1, i, f"takes {len(got)} frames while stopped is {s}")
                data = asked(i, rf"Frame::is_data\({E(FR)}\)")
                if data is None:
                    data = asked(i, rf"Frame::data_ref\({E(FR)}\) is Some")
                if data:
                    c.ob("frames", asked(i, E(DEC) + " is Ok") and asked(i, rf"0==len\({E(DEC)}\?Ok\.0\)"), i, f"data is passed over; asked {facts(i)}"[-400:])
                else:
                    c.ob("frames", data is False and asked(i, rf"Frame::trailers_ref\({E(FR)}\) is Some") is False, i, f"a frame is passed over; asked {facts(i)}"[-400:])
        r = m(q.ret)
        got = taken(q)
        if not got:
            ended = asked(q, r"await\(Receiver::changed\(.*\)\) is Ok")
            c.ob("paused", ended is False and r == "Ok(None)", q, f"ends without a frame with {r}")
            continue
        c.ob("paused", stopped(q) is False and len(got) == 1, q, f"takes {len(got)} frames while stopped is {stopped(q)}")
        there, whole = asked(q, E(NEXT) + " is Some"), asked(q, E(NEXT + "?Some.0") + " is Ok")
        if there is False:
            c.ob("ends", r == "Ok(None)", q, f"the body's end gives {r}")
            continue
        if whole is False:
            c.ob("ends", there and re.fullmatch(rf"Err\(BodyStream\((Into::into\()?{E(NEXT)}\?Some\.0\?Err\.0\)?\)\)", r), q, f"a frame cut off gives {r}")
            continue
        data = asked(q, rf"Frame::is_data\({E(FR)}\)")
        if data is None:
            data = asked(q, rf"Frame::data_ref\({E(FR)}\) is Some")
        if data:
            dec = [m(e) for e in own(q) if m(e).startswith("Decoder::decode_data(")]
            if not c.ob("frames", len(dec) == 1 and dec[0].replace(", ", ",") == DEC, q, f"data is read by {dec}"):
                continue
            ok, check = asked(q, E(DEC) + " is Ok"), asked(q, r"(G|self)\.validate")
            if ok is False:
                c.ob("frames", re.fullmatch(rf"Err\((Codec\()?{E(DEC)}\?Err\.0\)?\)", r), q, f"data that cannot be read gives {r}")
                continue
            mine = [q.e.loops[e.extra] for e in q.trace if e.kind == "loop"]
            lps = [lp for lp in mine if lp.src is not None and m(lp.src) == DEC + "?Ok.0"]
            V = rf"\w+::validate\(item\({E(DEC)}\?Ok\.0\)\)"
            bad = asked(q, V + " is Ok")
            if check is False:
                c.ob("frames", not any("::validate(" in repr(e) for e in own(q)) and not any("::validate(" in repr(e) for lp in mine if lp.src is not None for tr, _ in lp.iters for e in tr), q, "messages are checked though that was not asked for")
            else:
                every = [Iter(q, tr, st) for lp in lps for tr, st in lp.iters]
                c.ob("frames", check and (bad is False or len(lps) == 1 and q.whole(lps[0]) and every) and (bad is False or all(asked(i, V + " is Ok") is True for i in every)), q, "not every message is checked")
            if bad is False:
                c.ob("frames", check and re.fullmatch(rf"Err\((ProtoValidation\()?{V}\?Err\.0\)?\)", r), q, f"a message that is not valid gives {r}")
            else:
                c.ob("frames", ok and r == f"Ok(Some({DEC}?Ok.0))" and asked(q, rf"0==len\({E(DEC)}\?Ok\.0\)") is False, q, f"data gives {r}; asked {facts(q)}"[-500:])
            continue
        c.ob("ends", data is False and asked(q, rf"Frame::trailers_ref\({E(FR)}\) is Some"), q, f"a frame that is neither ends it with {r}")
        st = [s for k in q.state.facts for s in subterms(k) if k.op == "is" and s is not k and trailer(q, s, "grpc-status")]
        if not c.ob("ends", st, q, f"the status is not looked at: {r}"):
            continue
        has = q.decide(mk("is", st[0], "Some"))
        if has is False:
            c.ob("ends", r == "Ok(None)", q, f"no status gives {r}")
            continue
        ok = text_of(q, st[0])
        text = f"HeaderValue::to_str({m(st[0])}?Some.0)?Ok.0" if ok else None
        code = re.escape(f"Code::from_string({text})") if ok else r"Code::from_string\((?:default\('.*?'\)|'')\)"
        zero = asked(q, rf"{code} is Ok|(Ok==)?{code}(==Ok)?")
        if zero is True:
            c.ob("ends", r == "Ok(None)", q, f"status 0 gives {r}")
            continue
        g = re.fullmatch(rf"Err\(Grpc\(Status\{{code:{code},message:(.*)\}}\)\)", r)
        c.ob("ends", has and ok is not None and zero is False and g, q, f"another status gives {r}; asked {facts(q)}"[:700])
        if g:
            msg = [s for k in q.state.facts for s in subterms(k) if k.op == "is" and s is not k and trailer(q, s, "grpc-message")]
            if c.ob("ends", msg, q, "the message is not looked at"):
                hm = q.decide(mk("is", msg[0], "Some"))
                tm = text_of(q, msg[0]) if hm else None
                want = "None" if hm is False else re.escape(f"Some(HeaderValue::to_str({m(msg[0])}?Some.0)?Ok.0)") if tm else r"Some\((default\('.*?'\)|'')\)|None"
                c.ob("ends", hm is not None and re.fullmatch(want, g.group(1)), q, f"the message is {g.group(1)}")
    for q in runs(c, "compressed", SA + "new"):
        deflate = {}
        for name in ("grpc-encoding", "x-grpc-encoding"):
            there = asked(q, rf"HeaderMap::get\(\$1,'{name}'\) is Some")
            deflate[name] = asked(q, rf"'deflate'==HeaderMap::get\(\$1,'{name}'\)\?Some\.0|HeaderMap::get\(\$1,'{name}'\)\?Some\.0=='deflate'") if there else there
        want = "Some(StatelessZlib)" if deflate["grpc-encoding"] else "Some(StatefulZlib)" if deflate["x-grpc-encoding"] and deflate["grpc-encoding"] is False else "None" if set(deflate.values()) == {False} else "?"
        c.ob("compressed", m(q.ret) == f"ServerStreamingApi{{_type:PhantomData,body:$2,decoder:Decoder::new({want},$4),headers:$1,read_stop:$5,validate:$3}}", q, f"with {deflate}: {m(q.ret)}")
    for q in runs(c, "compressed", G + "finalize_decompression"):
        there = asked(q, r"HeaderMap::get\(\$1,'grpc-encoding'\) is Some")
        d = asked(q, r"'deflate'==HeaderMap::get\(\$1,'grpc-encoding'\)\?Some\.0|HeaderMap::get\(\$1,'grpc-encoding'\)\?Some\.0=='deflate'") if there else there
        c.ob("compressed", d is not None and m(q.ret) == ("Some(StatelessZlib)" if d else "None"), q, f"deflate: {d} gives {m(q.ret)}")
    for q in runs(c, "compressed", G + "finalize_response_compression", None, False, r"\$1\?Some\.0 is StatelessZlib"):
        there = asked(q, r"HeaderMap::get\(\$2,'grpc-accept-encoding'\) is Some")
        d = asked(q, r"'deflate'==HeaderMap::get\(\$2,'grpc-accept-encoding'\)\?Some\.0|HeaderMap::get\(\$2,'grpc-accept-encoding'\)\?Some\.0=='deflate'") if there else there
        wish = asked(q, r"\$1 is Some")
        r = m(q.ret)
        c.ob("compressed", wish is False and r == "None" or wish and d is False and r == "None" or wish and d and r in ("Some(StatelessZlib{level:$1?Some.0?StatelessZlib.level})", "$1"), q, f"wanted {wish}, accepted {d}: {r}")
    for q in runs(c, "compressed", G + "new_grpc_response", None, False, r"\$2\?Some\.0 is StatelessZlib"):
        steps, base = built(q.rett)
        wish = asked(q, r"\$2 is Some")
        hs = sorted(a for f, a in steps if f == "header")
        c.ob("compressed", base == "Response::builder()" and wish is not None and steps[-1:] == [("body", ["$1"])] and hs == [["'content-type'", "'application/grpc'"]] + ([["'grpc-encoding'", "'deflate'"]] if wish else []), q, f"compressed: {wish} says {hs}")
    sender(c)


def delivered(c, q, frame):
    """one thing is sent, and whether it could be is told"""
    s = [m(e) for e in own(q) if re.match(r"Sender::(send|try_send)\(", m(e))]
    w = f"Sender::send(self.tx, Ok({frame}))"
    k = f"await(Sender::send(self.tx,Ok({frame})))"
    if not c.ob("sent", s == [w] and len([e for e in own(q) if e.kind == "await"]) == 1, q, f"sends {[x[:200] for x in s]}, wanted {w}"):
        return
    came = asked(q, E(k) + " is Ok")
    c.ob("sent", came is not None and m(q.ret) in (("Ok(())", "Ok(unit)", "Ok(tuple())", k) if came else ("Err(Closed)",)), q, f"sent: {came} gives {m(q.ret)}")


def sender(c):
    for q in runs(c, "sent", SE + "new"):
        c.ob("sent", m(q.ret).startswith("StreamingApiSender{_type:PhantomData,encoder:Encoder::new($2),tx:$1,tx_messages_total:"), q, f"a sender is {m(q.ret)}")
    for name in ("send", "send_raw"):
        for q in runs(c, "sent", SE + name, None, True):
            es = [m(e) for e in own(q) if e.kind == "call"]
            enc = [e for e in es if e.startswith("Encoder::")]
            what = "Encoder::encode(self.encoder,$2)" if name == "send" else "$2"
            c.ob("sent", [e.replace(", ", ",") for e in enc] == (["Encoder::encode(self.encoder,$2)"] if name == "send" else ["Encoder::inc_stats(self.encoder,len($2),len($2))"]), q, f"{name}: {enc}")
            c.ob("sent", len([e for e in es if re.match(r"\w*Counter::inc\((self|G)\.tx_messages_total\)", e)]) == 1, q, f"{name} counts {[e for e in es if 'inc' in e]}")
            delivered(c, q, f"Frame::data({what})")
    for name in ("send_error", "send_ok_trailers"):
        for q in runs(c, "sent", SE + name, Config(opaque=[r"Code::to_int$"]), True):
            fr = [s for e in own(q) if re.match(r"Sender::send\(", m(e)) for s in subterms(e.args[1]) if s.op == "call" and s.a[0].endswith("Frame::<T>::trailers") or s.op == "call" and re.search(r"Frame(::<.*>)?::trailers$", s.a[0])]
            if not c.ob("sent", len(fr) == 1, q, f"{name} sends {[m(e)[:100] for e in own(q)]}"):
                continue
            steps, base = chain(fr[0].a[1][0])
            got = {re.sub(r"#\d+", "", a[0]): re.sub(r"#\d+", "", a[1]) for f, a in steps if f == "insert" and len(a) == 2}
            want = {"'grpc-status'": r"HeaderValue::from_str\((to_string|ToString::to_string)\(Code::to_int\(\$2\.code\)\)\)\?Ok\.0|.*Code::to_int\(\$2\.code\).*" if name == "send_error" else r"HeaderValue::\w+\('0'\)(\?Ok\.0)?"}
            if name == "send_error":
                has = asked(q, r"\$2\.message is Some")
                c.ob("sent", has is not None, q, "a message is not looked at")
                if has:
                    want["'grpc-message'"] = r"HeaderValue::from_str\(urlencoding::encode\(\$2\.message\?Some\.0\)\)\?Ok\.0"
            c.ob("sent", re.match(r"HeaderMap::(new|default)\(\)|default|Default", base) and len(steps) == len(want) == len(got) and all(re.fullmatch(want.get(k, "-"), v) for k, v in got.items()), q, f"{name} says {got}")
            delivered(c, q, m(fr[0]))


GROUPS = [codes, client, stream]
FLOORS = {"code": 16, "status": 6, "error": 8, "address": 6, "request": 12, "unary": 20, "opened": 8, "paused": 6, "frames": 12, "ends": 12, "compressed": 12, "sent": 16}
