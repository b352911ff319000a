"""Sankey paths: each is uploaded when the server wants it, once, and again only when that failed or was long ago."""
from rules import *
from c46 import n, facts
from c59 import own, known

S = "bd_workflows::sankey_diagram::"
P = S + "Processor::"
ME = r"(?:self|G)"
SEEN = r"SeenSankeyPath\{path_id:\$2\.path_id,sankey_id:\$2\.sankey_id\}"
OLD = ME + r"\.processed_intents\.0"
ST = ME + r"\.stats\."
DEF = r"default\('[^']*'\)\.special_fields"
ID = r"Tracked::upload_uuid\(\)#\d+"
PLAIN = r"Argument::|Level|PartialOrd|__|log::|done|Tracked::upload_uuid\("


def names(q):
    """the requests a path makes, by name"""
    out = []
    for e in own(q):
        if repr(e).startswith("Tracked::new("):
            out.append((e, n(e.res), n(e.args[0]), n(e.args[1])))
    return out


def memory(c, q, found):
    """the path is the last one remembered, of at most a hundred"""
    v = next((v for k, v in q.x.heap().items() if re.fullmatch(ME, n(k))), None)
    now = None if v is None else fld(fld(v, "processed_intents"), "0")
    base = (rf"without\({OLD},item\({OLD}\)\)") if found else OLD
    want = rf"\[{base} \+\+ one\({SEEN}\)\]"
    over = None
    for pat, neg in ((rf"Add\(len\({base}\),1\)<101|len\({base}\)<100", True), (rf"100<Add\(len\({base}\),1\)|99<len\({base}\)", False)):
        k = known(q, pat)
        over = over if k is None else (not k if neg else k)
    if found and over is None:
        over = False  # one taken out, one put in
    drop = [e for e in own(q) if re.match(r"(Vec|VecDeque)::(remove|pop_front|drain)\(", repr(e)) and n(e.args[-1]) in ("0",)]
    if over:
        ok = now is not None and n(now) == "after_remove" and len(drop) == 1 and re.fullmatch(want, n(drop[0].args[0])) and own_last(q, drop[0])
    else:
        ok = now is not None and not drop and re.fullmatch(want, n(now))
    c.ob("remembered", over is not None and ok, q, f"remembers {None if now is None else n(now)[:300]}, {[n(e)[:200] for e in drop]}; asked {str(facts(q))[-300:]}")


def own_last(q, ev):
    """nothing is put in after it"""
    es = own(q)
    return not any(re.match(r"Vec::(push|insert|remove|extend)", repr(e)) for e in es[es.index(ev) + 1:])


def kept(c, q):
    v = next((v for k, v in q.x.heap().items() if re.fullmatch(ME, n(k))), None)
    now = None if v is None else n(fld(fld(v, "processed_intents"), "0"))
    c.ob("remembered", now is None or re.fullmatch(OLD, now), q, f"what is remembered becomes {now}")


def paths(c):
    c.rule("asked", "a path not among the last hundred settled is asked about once, with its diagram and its own id")
    c.rule("uploaded", "one the server wants is uploaded once, with its ids and its nodes in order; one it does not want, or did not answer for, is not")
    c.rule("remembered", "a path refused by the decision or taken by the server is the newest remembered, and one seen again becomes the newest; one that failed is not remembered; of more than a hundred the oldest is forgotten")
    c.rule("counted", "each path is counted as started, and then as what became of it")
    p = c.program("bd_workflows")
    f = p.by_id.get(P + "process_sankey")
    if f is None:
        raise Anchor(f"{P}process_sankey is missing")
    for q in c.paths_of(p, f, Config(budget=60000), is_async=True):
        c.ob("counted", q.kind == "ret" and not q.why, q, f"ends with {q.kind} {q.why}")
        # Which one of the memory was found is asked before and perhaps again after the request: one answer each.
        found = known(q, rf"{SEEN}==item\({OLD}\)|item\({OLD}\)=={SEEN}")
        req = names(q)
        sends = [e for e in own(q) if re.match(r"(Sender|Permit|PermitIterator|OwnedPermit)::\w*send\w*\(", repr(e))]
        incs = [m.group(1) for e in own(q) for m in [re.fullmatch(rf"Counter::inc\({ST}(\w+)\)", n(e))] if m]
        other = [n(e)[:200] for e in own(q) if not re.match(PLAIN + r"|Tracked::new\(|Sender::send\(|await:|Counter::inc\(|Vec::(push|remove)\(", repr(e))]
        c.ob("asked", not other, q, f"also does {other}")
        if not req:
            c.ob("asked", found is True and not sends, q, f"nothing is asked: {facts(q)}")
            memory(c, q, True)
            c.ob("counted", sorted(incs) == sorted(["intent_initiations", "intent_completion_already_processed"]), q, f"counts {incs}")
            continue
        lps = [lp for lp in q.loops() if lp.src is not None and re.fullmatch(OLD, n(lp.src))]
        look = [e for e in q.trace[:own_index(q, req[0][0])] if e.kind == "loop" and q.e.loops[e.extra] in lps]
        c.ob("asked", len(look) == 1, q, "asked without looking whether it is remembered")
        ev, INT, uid, body = req[0]
        i = re.escape(INT)
        c.ob("asked", re.fullmatch(ID, uid) and re.fullmatch(rf"SankeyIntentRequest\{{intent_uuid:{re.escape(uid)},path_id:\$2\.path_id,sankey_diagram_id:\$2\.sankey_id,special_fields:{DEF}\}}", body) and len(sends) >= 1 and re.fullmatch(rf"Sender::send\({ME}\.data_upload_tx, SankeyPathUploadIntentRequest\({i}\.0\)\)", n(sends[0])), q, f"asks {n(sends[0]) if sends else None}")
        sent = known(q, rf"await\(Sender::send\({ME}\.data_upload_tx,SankeyPathUploadIntentRequest\({i}\.0\)\)(#\d+)?\) is Ok")
        got = rf"await\({i}\.1\)"
        ans = known(q, got + " is Ok") if sent else None
        if sent is False or ans is False:
            c.ob("uploaded", len(req) == len(sends) == 1, q, f"without an answer: {[n(e)[:150] for e in sends]}")
            kept(c, q)
            c.ob("counted", sorted(incs) == ["intent_initiations", "intent_request_failures"], q, f"counts {incs}")
            continue
        drop = known(q, got + r"\?Ok\.0\.decision is Drop")
        if drop is None:
            drop = known(q, got + r"\?Ok\.0\.decision is UploadImmediately")
            drop = None if drop is None else not drop
        c.ob("asked", sent and ans and drop is not None, q, f"the answer is not asked: {str(facts(q))[:300]}")
        if drop:
            c.ob("uploaded", len(req) == len(sends) == 1, q, f"a dropped path: {[n(e)[:150] for e in sends]}")
            memory(c, q, found)
            c.ob("counted", sorted(incs) == ["intent_completion_drops", "intent_initiations"], q, f"counts {incs}")
            continue
        if not c.ob("uploaded", len(req) == len(sends) == 2, q, f"a wanted path: {[n(e)[:150] for e in sends]}"):
            continue
        ev, UP, uid2, body = req[1]
        u = re.escape(UP)
        nodes = rf"\[each \$2\.nodes: \{{ => one\(Node\{{extracted_value:item\(\$2\.nodes\),special_fields:{DEF}\}}\)\}}\]"
        c.ob("uploaded", uid2 != uid and re.fullmatch(ID, uid2) and re.fullmatch(rf"SankeyPathUploadRequest\{{id:\$2\.sankey_id,nodes:{nodes},path_id:\$2\.path_id,special_fields:{DEF},upload_uuid:{re.escape(uid2)}\}}", body) and re.fullmatch(rf"Sender::send\({ME}\.data_upload_tx, SankeyPathUpload\({u}\.0\)\)", n(sends[1])), q, f"uploads {n(sends[1])[:700]}")
        sent = known(q, rf"await\(Sender::send\({ME}\.data_upload_tx,SankeyPathUpload\({u}\.0\)\)(#\d+)?\) is Ok")
        got = known(q, rf"await\({u}\.1\) is Ok") if sent else None
        took = known(q, rf"await\({u}\.1\)\?Ok\.0\.success") if got else None
        if took:
            memory(c, q, found)
        else:
            c.ob("uploaded", sent is False or got is False or took is False, q, f"whether the upload was taken is not asked: {str(facts(q))[-500:]}")
            kept(c, q)
        c.ob("counted", sorted(incs) == sorted(["intent_initiations", "intent_completion_uploads", "upload_completion_successes" if took else "upload_completion_failures"]), q, f"counts {incs}")


def own_index(q, ev):
    return next(k for k, e in enumerate(q.trace) if e is ev)


def runs(c):
    c.rule("every one", "the processor takes one path after the other, each to its end, until there are no more")
    rounds(c, "every one", P + "run", "Processor::process_sankey")


def rounds(c, rule, name, work_on, ends=True):
    """A task that does the work for each message, one after the other."""
    p = c.program("bd_workflows")
    f = p.by_id.get(name)
    if f is None:
        raise Anchor(f"{name} is missing")
    k = 0
    for q in c.paths_of(p, f, Config(opaque=[work_on + "$"])):
        sp = [e for e in own(q) if re.match(r"(task::)?spawn\(|\w*::spawn\(", repr(e))]
        if not c.ob(rule, len(sp) == 1, q, f"starts {[n(e)[:100] for e in own(q)]}"):
            continue
        before = set(q.e.loops)
        ask = rf"await\(Receiver::recv\([^()]*\.input_rx\)(#\d+)?\)"
        for t in spawned(q, sp[0].args[0]):
            c.ob(rule, t.kind == "ret" and known(t, ask + " is Some") is False, t, f"stops: {str(facts(t))[:300]}")
        for lp in [lp for key, lp in q.e.loops.items() if key not in before and lp.src is None]:
            for i in [Iter(q, tr, st) for tr, st in lp.iters]:
                k += 1
                some = known(i, ask + " is Some")
                work = [n(e) for e in own(i) if not re.match(r"done|Receiver::recv\(|await:await\(Receiver::recv", repr(e))]
                one = rf"{work_on}\([^,]*, {ask}\?Some\.0\)"
                c.ob(rule, some is not None and (len(work) == 2 and re.fullmatch(one, work[0]) and work[1].startswith(f"await:await({work_on}(") if some else not work) and len([e for e in own(i) if repr(e).startswith("Receiver::recv(")]) == 1, i, f"a round: {[w[:200] for w in work]} asked {str(facts(i))[:200]}")
    c.ob(rule, k, f, "no round of the task is found")


GROUPS = [paths, runs]
FLOORS = {"asked": 10, "uploaded": 6, "remembered": 8, "counted": 12, "every one": 3}
