"""gRPC frames: what is encoded is one frame that says how long it is and whether it is compressed, and what is decoded are the frames that came, whole and in order."""
from rules import *
from c46 import n, evs, ask, after, facts

G = "bd_grpc_codec::"
E, D = G + "Encoder::<MessageType>::", G + "Decoder::<MessageType>::"
SIZE = r"Message::compute_size\(\$(\d)\)(#\d+)?"
TL = r"LocalKey::new\([^()]*\)(#\d+)?(\?Some\.0)?"


def chain(t, e=None):
    """what was done to a value, first to last, and what it was before: [(function, arguments without the value)]"""
    out = []
    while t.op == "upd_by" and t.a[0].op == "call":
        call = t.a[0]
        args = call.a[1]
        out.append((re.sub(r".*::", "", call.a[0]), tuple(n(x) for i, x in enumerate(args) if i != t.a[1])))
        t = args[t.a[1]]
    return out[::-1], n(t)


def wire(steps):
    """what is put into a buffer, however it is put there"""
    out = []
    for fn, args in steps:
        if fn in ("put_u8", "push"):
            out.append(("byte", args[-1]))
        elif fn == "put_u32":
            out.append(("u32", args[-1]))
        elif fn in ("put_slice", "extend_from_slice", "put", "extend"):
            m = re.fullmatch(r"num::to_be_bytes\((.*)\)", args[-1])
            out.append(("u32", m.group(1)) if m else ("bytes", args[-1]))
        elif fn in ("reserve", "as_ref", "len", "chunk_mut"):
            pass
        else:
            out.append((fn,) + args)
    return out


def calls(q):
    return [e for e in q.trace if e.kind == "call" and not re.match(r"Interest::|Callsite::|__macro_support|Span::|LevelFilter|MacroCallsite|DefaultCallsite|Message::(cached|compute)_size|error::handle_unexp", repr(e))]


def plain(c):
    c.rule("plain", "an uncompressed frame is a 0, the length of the message in network order and the message, and as long as that")
    p = c.program("bd_grpc_codec")
    for q in c.paths_of(p, E + "encode_uncompressed", Config(opaque=[])):
        if q.kind != "ret":
            c.ob("plain", any(v is False and re.fullmatch(r"slice::get_mut\(.*\) is Some|Message::write_\w+\(.*\)(#\d+)? is Ok", k) for k, v in facts(q).items()), q, f"encoding panics: {facts(q)}")
            continue
        t = q.e.resolve(q.state, q.x.ret)
        steps, root = chain(t)
        w = wire(steps)
        c.ob("plain", re.fullmatch(r"BytesMut::(with_capacity\(.*\)|new\(\))(#\d+)?|\[\]|default\('bytes::BytesMut'\)", root), q, f"begins with {root[:100]}")
        ok = len(w) >= 2 and w[0] == ("byte", "0") and w[1][0] == "u32" and re.fullmatch(rf"\({SIZE} as u32\)", w[1][1])
        c.ob("plain", ok, q, f"the frame begins {w[:2]}")
        if len(w) == 3 and w[2][0] == "set_len":
            c.ob("plain", re.fullmatch(rf"Add\({SIZE},5\)", w[2][1]), q, f"the frame is {w[2][1]} long")
            body = [e for e in calls(q) if re.match(r"Message::write_to", repr(e))]
            out = [e for e in calls(q) if re.match(r"CodedOutputStream::bytes\(", repr(e))]
            c.ob("plain", len(body) == len(out) == 1 and n(body[0].args[0]) == "$1" and n(body[0].args[1]) == n(out[0].res) and re.fullmatch(r"slice::get_mut\(after_set_len,RangeFrom\{start:5\}\)(#\d+)?\?Some\.0|Index\w*::index\w*\(after_set_len,RangeFrom\{start:5\}\)(#\d+)?", n(out[0].args[0])), q,
                 f"the message goes elsewhere: {[n(e)[:160] for e in body + out]}")
            w_, b_ = r"^Message::write_to", r"^BytesMut::set_len\("
            c.ob("plain", ask(q, r"Message::write_\w+\(.*\)(#\d+)? is Ok") is True, q, "an unwritten message counts as written")
        else:
            c.ob("plain", len(w) == 3 and w[2][0] == "bytes" and re.fullmatch(r"Message::write_to_bytes\(\$1\)(#\d+)?\?Ok\.0", w[2][1]), q, f"after the head: {w[2:]}")


def packed(c):
    c.rule("packed", "a compressed frame is a 1, the length of what follows in network order, and what the compressor made of this message alone, finished; the compressor is left with the head of the next frame or with nothing")
    p = c.program("bd_grpc_codec")
    head = [("byte", "1"), ("u32", "0")]
    for q in c.paths_of(p, E + "encode_compressed", Config(opaque=[])):
        if not c.ob("packed", q.kind == "ret", q, "compressing panics"):
            continue
        fs = facts(q)
        r = n(q.x.ret)
        made = [e for e in calls(q) if re.match(r"ZlibEncoder::new\(", repr(e))]
        for e in made:
            steps, root = chain(e.args[0])
            c.ob("packed", wire(steps) == head and root == "[]", q, f"a compressor is made with {root} {wire(steps)}")
            c.ob("packed", ask(q, rf"{TL} is Some") is False, q, "a compressor is made though there is one")
        writes = [e for e in calls(q) if re.match(r"Message::write_to", repr(e))]
        if not c.ob("packed", len(writes) == 1 and n(writes[0].args[0]) == "$2", q, f"written: {[n(e) for e in writes]}"):
            continue
        to = n(writes[0].args[1])
        stateless = ask(q, r"\$1 is StatelessZlib")
        c.ob("packed", stateless is not None and re.fullmatch(rf"{TL}|{re.escape(n(made[0].res)) if made else '-'}" if stateless else r"\$1\?StatefulZlib\.0", to), q, f"written to {to[:100]}")
        if ask(q, r"Message::write_\w+\(.*\)(#\d+)? is Ok") is False:
            c.ob("packed", r.startswith("Err("), q, f"not written, but {r[:80]}")
            continue
        if stateless:
            ends = [e for e in calls(q) if re.match(r"ZlibEncoder::(reset|finish|try_finish|flush_finish)\(", repr(e))]
            if not c.ob("packed", len(ends) == 1 and repr(ends[0]).startswith("ZlibEncoder::reset("), q, f"the compressor is not started anew: {[n(e)[:60] for e in ends]}"):
                continue
            steps, root = chain(ends[0].args[1])
            c.ob("packed", wire(steps) == head and root == "[]", q, f"the compressor goes on with {root} {wire(steps)}")
            c.ob("packed", re.fullmatch(TL, n(ends[0].args[0])), q, f"{n(ends[0].args[0])[:100]} is started anew")
            c.ob("packed", q.trace.index(writes[0]) < q.trace.index(ends[0]), q, "the message is written after the end")
            good = ask(q, r"ZlibEncoder::reset\(.*\)(#\d+)? is Ok")
            want = n(ends[0].res) + "?Ok.0"
        else:
            puts = [e for e in calls(q) if q.trace.index(e) < q.trace.index(writes[0])]
            got = wire([(e.name.rsplit("::", 1)[-1], tuple(n(a) for a in e.args[1:])) for e in puts if not re.match(r"ZlibEncoder::get_mut\(", repr(e))])
            c.ob("packed", got == head and all(re.fullmatch(r"ZlibEncoder::get_mut\(\$1\?StatefulZlib\.0\)(#\d+)?|after_\w+", n(e.args[0])) for e in puts if "get_mut(" not in e.name + "("), q, f"before the message: {got}")
            fl = [e for e in calls(q) if re.match(r"Write::flush\(\$1\?StatefulZlib\.0\)", n(e))]
            c.ob("packed", len(fl) == 1 and q.trace.index(fl[0]) > q.trace.index(writes[0]), q, "what was compressed is not flushed")
            good = ask(q, r"Write::flush\(.*\)(#\d+)? is Ok")
            want = r"content(ZlibEncoder::get_mut($1?StatefulZlib.0)#"
        if good is False:
            c.ob("packed", r.startswith("Err("), q, f"not finished, but {r[:80]}")
            continue
        c.ob("packed", good is True, q, "whether it was finished is not asked")
        frame = r[3:-1]
        c.ob("packed", r.startswith("Ok(") and (frame == want if stateless else re.fullmatch(re.escape(want) + r"\d+\)", frame)), q, f"the frame is {r[:160]}")
        if not stateless:
            left = [v for k, v in after(q).items() if k == frame[len("content("):-1]]
            c.ob("packed", left == ["[]"], q, f"left for the next frame: {left}")
        cp = [e for e in calls(q) if re.match(r"slice::(copy|clone)_from_slice\(", repr(e))]
        c.ob("packed", len(cp) == 1 and re.fullmatch(rf"Index\w*::index\w*\({re.escape(frame)},Range\{{end:5,start:1\}}\)(#\d+)?|slice::get_mut\({re.escape(frame)},Range\{{end:5,start:1\}}\)(#\d+)?\?Some\.0", n(cp[0].args[0])) and n(cp[0].args[1]) == f"num::to_be_bytes((Add(len({frame}),-5) as u32))", q,
             f"the length: {[n(e)[:300] for e in cp]}")


def encode(c):
    c.rule("encode", "a message becomes one frame: compressed if there is a compressor and the message is large, otherwise, and when compressing failed, not; a compressor that failed is not used again")
    c.rule("counted", "what is sent and received is counted once, before and after compressing, and what was counted before there was a counter is given to it")
    p = c.program("bd_grpc_codec")
    for q in c.paths_of(p, E + "encode", Config(opaque=[r"Encoder.*encode_(un)?compressed$", r"DeferredCounter::inc_by$", r"handle_unexpected"])):
        if not c.ob("encode", q.kind == "ret", q, "encoding panics"):
            continue
        have, small = ask(q, r"self\.compressor is Some"), ask(q, rf"{SIZE}<100")
        comp = [e for e in calls(q) if re.match(r"Encoder::encode_compressed\(self\.compressor\?Some\.0, \$2\)$", n(e))]
        allc = [e for e in calls(q) if re.match(r"Encoder::encode_compressed\(", repr(e))]
        raw = [e for e in calls(q) if re.match(r"Encoder::encode_uncompressed\(\$2\)$", n(e))]
        ok = ask(q, r"Encoder::encode_compressed\(.*\)(#\d+)? is Ok")
        if have is True and small is False:
            c.ob("encode", len(comp) == len(allc) == 1 and ok is not None, q, "a large message is not compressed")
        else:
            c.ob("encode", not allc and (have is False or small is True), q, f"compressed without need or compressor: {facts(q)}")
        res = n(comp[0].res) + "?Ok.0" if ok else n(raw[0].res) if len(raw) == 1 else None
        c.ob("encode", n(q.x.ret) == res, q, f"the frame is {n(q.x.ret)[:100]}")
        if ok is False:
            c.ob("encode", "compressor:=None" in after(q).get("self", ""), q, "a compressor that failed is used again")
        else:
            c.ob("encode", "compressor:=None" not in after(q).get("self", ""), q, "compression ends without an error")
        inc = sorted((n(e.args[0]), n(e.args[1])) for e in calls(q) if re.match(r"DeferredCounter::inc", repr(e)))
        c.ob("counted", len(inc) == 2 and inc[0] == ("self.tx_bytes", f"len({res})") and inc[1][0] == "self.tx_bytes_uncompressed" and re.fullmatch(rf"Add\({SIZE},5\)", inc[1][1]), q, f"counted: {inc}")
    S = G + "stats::DeferredCounter::"
    for q in c.paths_of(p, S + "inc_by", Config(opaque=[])):
        there = ask(q, r"self\.counter is Some")
        ev = [n(e) for e in calls(q)]
        c.ob("counted", q.kind == "ret" and after(q).get("self") == "self{internal_count:=Add($2,self.internal_count)}" and there is not None and ev == (["Counter::inc_by(self.counter?Some.0, $2)"] if there else []), q, f"counting does {ev} {after(q)}")
    for q in c.paths_of(p, S + "initialize", Config(opaque=[])):
        if q.kind == "panic":
            c.ob("counted", ask(q, r"self\.counter is Some") is True, q, "giving the counter panics")
            continue
        c.ob("counted", after(q).get("self") == "self{counter:=Some($2)}" and [n(e) for e in calls(q)] == ["Counter::inc_by($2, self.internal_count)"], q, f"the counter is given {[n(e) for e in calls(q)]} {after(q)}")
    for fn, pairs in ((E + "initialize_stats", [("self.tx_bytes", "$2"), ("self.tx_bytes_uncompressed", "$3")]), (E + "inc_stats", [("self.tx_bytes", "$2"), ("self.tx_bytes_uncompressed", "$3")]), (D + "initialize_stats", [("self.rx", "$2"), ("self.rx_decompressed", "$3")])):
        for q in c.paths_of(p, fn, Config(opaque=[r"DeferredCounter::(inc_by|initialize)$"])):
            c.ob("counted", sorted((n(e.args[0]), n(e.args[1])) for e in calls(q)) == pairs, q, f"{[n(e) for e in calls(q)]}")
    for fn, r in ((E + "bandwidth_stats", "(self.tx_bytes.internal_count,self.tx_bytes_uncompressed.internal_count)"), (D + "bandwidth_stats", "(self.rx.internal_count,self.rx_decompressed.internal_count)")):
        for q in c.paths_of(p, fn, Config(opaque=[])):
            c.ob("counted", n(q.x.ret) == r, q, f"told: {n(q.x.ret)}")


def decode(c):
    c.rule("frames", "what comes in is put after what is left, and read as frames for as long as a whole head or a whole message is there; each message is that of its frame, they come out in the order of the frames, and what is left is kept")
    p = c.program("bd_grpc_codec")
    B, SZ, CM = r"(G|self|phi:self)\.input_buffer", r"(G|self|phi:self)\.current_message_size", r"(G|self|phi:self)\.current_message_compressed"
    LEN = rf"len\({B}\)"
    READ = r"Buf::get_u32\((G|self)\.input_buffer\)(#\d+)?"
    CONV = rf"TryInto::try_into\({READ}\)(#\d+)?\?Ok\.0|\({READ} as usize\)|{READ}"
    PIECE, UNZIP = rf"BytesMut::split_to\({B},{SZ}\?Some\.0\)(#\d+)?", rf"Decoder::decompress\((self|G),{SZ}\?Some\.0\)(#\d+)?"

    def enough(q):
        """whether a whole head or message is there: (size known, there)"""
        known = ask(q, rf"{SZ} is Some")
        a = ask(q, rf"{LEN}<{SZ}\?Some\.0" if known else rf"{LEN}<5")
        return known, None if a is None else not a

    def taken(q):
        return [n(e) for e in (q.events(True) if q.kind == "iter" else q.trace) if re.match(r"Buf::(get|advance|copy_to|take)|BytesMut::(split|advance|truncate|clear)|Decoder::decompress", repr(e))]

    for q in c.paths_of(p, D + "decode_data", Config(opaque=[r"Decoder.*::decompress$", r"DeferredCounter::inc_by$"])):
        first = [n(e) for e in calls(q)][:2]
        c.ob("frames", sorted(first) == ["BytesMut::extend_from_slice(self.input_buffer, $2)", "DeferredCounter::inc_by(self.rx, len($2))"], q, f"begins with {first}")
        loops = [lp for lp in q.loops() if lp.src is None]
        if not c.ob("frames", len(loops) == 1, q, f"{len(loops)} loops"):
            continue
        for lp in loops:
            for k, (before, after_) in lp.vars.items():
                pass
        known, there = enough(q)
        me = after(q).get("self", "")
        if q.kind != "ret":
            c.ob("frames", ask(q, rf"TryInto::try_into\({READ}\)(#\d+)? is Ok") is False, q, f"decoding panics: {facts(q)}")
            continue
        r = n(q.x.ret)
        if r.startswith("Err("):
            c.ob("frames", known is True and there is True and (ask(q, rf"{UNZIP} is Ok") is False or ask(q, r"Message::parse_\w+\(.*\)(#\d+)? is Ok") is False), q, f"fails with {r[:100]}")
            continue
        ms = [k for k, (b, _) in loops[0].vars.items() if any(n(x) == "[]" for x in b)]
        c.ob("frames", len(ms) == 1 and r == f"Ok({n(ms[0])})", q, f"comes to {r[:120]} of {[n(m) for m in ms]}")
        c.ob("frames", there is False and known is not None, q, f"ends though {facts(q)}")
        empty = ask(q, rf"0=={LEN}")
        c.ob("frames", me in ("", "G") or empty is True and re.fullmatch(r"G\{input_buffer:=(default\('bytes::BytesMut'\)|BytesMut::new\(\)(#\d+)?)\}", me), q, f"at the end: {me[:160]}")
        for lp in loops:
            for k, (tr, st) in enumerate(lp.iters):
                i = Iter(q, tr, st)
                known, there = enough(i)
                if not c.ob("frames", there is True and known is not None, i, f"goes on though {facts(i)}"):
                    continue
                me = after(i).get("self", "")
                # what the round changed, however the object was named before it
                got = dict(re.findall(r"(current_message_size|current_message_compressed):=((?:[^,{}()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))+)", me))
                lists = {n(v): n(a[1][k]) for v, a in lp.vars.items() if k in a[1] and v in ms}
                m = n(ms[0]) if ms else "-"
                if not known:
                    c.ob("frames", [re.sub(r"[(#].*", "", x) for x in taken(i)] == ["Buf::get_u8", "Buf::get_u32"], i, f"of a head is read: {taken(i)}")
                    c.ob("frames", re.fullmatch(rf"1==Buf::get_u8\({B}\)(#\d+)?|!\(0==Buf::get_u8\({B}\)(#\d+)?\)", got.get("current_message_compressed", "")), i, f"whether it is compressed: {got.get('current_message_compressed')}")
                    c.ob("frames", re.fullmatch(rf"Some\(({CONV})\)", got.get("current_message_size", "")), i, f"the size: {got.get('current_message_size')}")
                    c.ob("frames", all(v in (m, m + " ++ []") for v in lists.values()), i, f"a head gives a message: {lists}")
                    continue
                z = ask(i, CM)
                want = [UNZIP if z else PIECE]
                t = taken(i)
                c.ob("frames", z is not None and len(t) == 1 and re.fullmatch(want[0], t[0].replace(", ", ",")), i, f"of a message is taken: {t}, compressed {z}")
                data = (UNZIP + r"\?Ok\.0") if z else PIECE
                c.ob("frames", got.get("current_message_size") == "None", i, f"the size after a message: {got.get('current_message_size')}")
                inc = [(n(e.args[0]), n(e.args[1])) for e in i.events(True) if re.match(r"DeferredCounter::inc", repr(e)) and "rx_dec" in n(e.args[0])]
                c.ob("counted", len(inc) == 1 and re.fullmatch(rf"len\({data}\)", inc[0][1]), i, f"received: {inc}")
                v = lists.get(m, "")
                c.ob("frames", re.fullmatch(rf"\[{re.escape(m)} \+\+ one\(Message::parse_\w+\({data}\)(#\d+)?\?Ok\.0\)\]", v), i, f"the messages then: {v[:200]}")


def unpack(c):
    c.rule("unpacked", "a compressed message is what its own bytes decompress to, all of them; without a decompressor it is refused, and a decompressor that others use is replaced after it failed")
    p = c.program("bd_grpc_codec")
    PIECE = r"BytesMut::split_to\(self\.input_buffer,\$2\)(#\d+)?"
    for q in c.paths_of(p, D + "decompress", Config(opaque=[])):
        if not c.ob("unpacked", q.kind == "ret", q, "decompressing panics"):
            continue
        r = n(q.x.ret)
        cut = [n(e) for e in calls(q) if "split_to" in repr(e)[:30]]
        c.ob("unpacked", cut == ["BytesMut::split_to(self.input_buffer, $2)"], q, f"taken: {cut}")
        there, stateless = ask(q, r"self\.decompressor is Some"), ask(q, r"self\.decompressor\?Some\.0 is StatelessZlib")
        if there is False:
            c.ob("unpacked", r.startswith("Err(Protocol("), q, f"no decompressor, but {r[:60]}")
            continue
        w = [e for e in calls(q) if re.match(r"Write::write", repr(e))]
        dec = TL if stateless else r"self\.decompressor\?Some\.0\?StatefulZlib\.0"
        if not c.ob("unpacked", there is True and stateless is not None and len(w) == 1 and re.fullmatch(rf"Write::write_all\({dec}, {PIECE}\)", n(w[0])), q, f"decompressed: {[n(e)[:140] for e in w]}"):
            continue
        good = ask(q, r"Write::write_all\(.*\)(#\d+)? is Ok")
        end = [e for e in calls(q) if re.match(r"ZlibDecoder::(reset|finish|try_finish)\(|Write::flush\(", repr(e))]
        if good is True:
            c.ob("unpacked", len(end) == 1 and re.fullmatch(rf"ZlibDecoder::reset\({dec}, \[\]\)" if stateless else rf"Write::flush\({dec}\)", n(end[0])), q, f"then {[n(e)[:100] for e in end]}")
            good = ask(q, r"ZlibDecoder::reset\(.*\)(#\d+)? is Ok" if stateless else r"Write::flush\(.*\)(#\d+)? is Ok")
        c.ob("unpacked", good is not None, q, "whether it succeeded is not asked")
        if good:
            c.ob("unpacked", re.fullmatch(rf"Ok\(ZlibDecoder::reset\({dec},\[\]\)(#\d+)?\?Ok\.0\)" if stateless else rf"Ok\(content\(ZlibDecoder::get_mut\({dec}\)(#\d+)?\)\)", r), q, f"comes to {r[:140]}")
            if not stateless:
                left = [v for k, v in after(q).items() if r == f"Ok(content({k}))"]
                c.ob("unpacked", left == ["[]"], q, f"left for the next message: {left}")
            continue
        c.ob("unpacked", r.startswith("Err("), q, f"failed, but {r[:80]}")
        if stateless:
            tl = [v for k, v in after(q).items() if re.fullmatch(TL, k)]
            c.ob("unpacked", len(tl) == 1 and re.fullmatch(r"ZlibDecoder::new\(\[\]\)(#\d+)?", tl[0]), q, f"after an error all go on with {tl}")


GROUPS = [plain, packed, encode, decode, unpack]
FLOORS = {"plain": 5, "packed": 40, "encode": 12, "counted": 15, "frames": 60, "unpacked": 25}
