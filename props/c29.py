"""A log belongs to the session and time it was logged in; another is taken only when the previous process's session matches."""
from rules import *

CR = ("bd_logger", "bd_session", "bd_log_primitives", "bd_log_metadata")
AB = "bd_logger::async_log_buffer::AsyncLogBuffer::<R>"
OPQ = Config(opaque=[r"::write_log$", r"::write_log_internal$", r"MetadataCollector::", r"^bd_session::"])
OVR = "$2.attributes_overrides"
EXP = OVR + "?Some.0.expected_previous_process_session_id"


def processing(c):
    p = c.program(*CR)
    c.rule("metadata", "the metadata is collected once, from the log's own fields and type, and a failure to collect it is an error without a log")
    c.rule("own-session", "a log without an override is written with the current session id and the collected time")
    c.rule("override", "an override is used exactly when the session it expects is the previous process's; then its session and time are the log's and the collected time is kept as a field")
    c.rule("mismatch", "otherwise the log is not written; only a note in the current session is")
    c.rule("content", "whatever the session, the log keeps its level, type, message, collected fields and waiting caller, and is written once")
    for q in c.paths_of(p, f"{AB}::process_log", OPQ):
        m = q.ev(r"^MetadataCollector::normalized_metadata_with_extra_fields\(self\.metadata_collector, \$2\.fields, \$2\.matching_fields, \$2\.log_type\)")
        w, note = q.ev(r"^AsyncLogBuffer::write_log\(self"), q.ev(r"^AsyncLogBuffer::write_log_internal\(self")
        if not c.ob("metadata", q.kind == "ret" and len(m) == 1, q, "metadata not collected once from the log"):
            continue
        good = q.decide(mk("is", m[0].res, "Ok"))
        if good is False:
            c.ob("metadata", known_variant(q.rett) == "Err" and not w and not note and not q.has(r"^Strategy::"), q, "continues without metadata")
            continue
        md = f"{show(m[0].res)}?Ok.0"
        over = q.truth(re.escape(OVR) + " is Some")
        prev = q.ev(r"^Strategy::previous_process_session_id\(self\.session_strategy\)")
        match = False
        if over:
            if not c.ob("override", len(prev) == 1, q, "the previous process's session is not asked for"):
                continue
            ps = show(prev[0].res)
            match = q.truth(re.escape(f"{EXP}=={ps}?Some.0") + "|" + re.escape(f"{ps}?Some.0=={EXP}"))
            known = q.truth(re.escape(ps) + " is Some")
            match = bool(known) and match
            c.ob("override", known is False or match is not None, q, "the sessions are not compared")
        if over and not match:
            c.ob("mismatch", not w and len(note) <= 1 and known_variant(q.rett) == "Ok", q, "a log whose session does not match is written")
            for e in note:
                cur = q.ev(r"^Strategy::session_id\(self\.session_strategy\)")
                a = [show(x) for x in e.args]
                c.ob("mismatch", len(cur) >= 1 and a[4] in [show(x.res) for x in cur] and a[5] == md + ".timestamp", q, "the note is not in the current session")
            continue
        if not c.ob("content", len(w) == 1 and not note, q, "not written once"):
            continue
        log = w[0].args[1]
        g = {x: show(fld(log, x)) for x in ("log_level", "log_type", "message", "fields", "matching_fields", "occurred_at", "session_id")}
        c.ob("content", all(g[x] == f"$2.{x}" for x in ("log_level", "log_type", "message")) and show(w[0].args[2]) == "$2.log_processing_completed_tx"
             and g["matching_fields"] == md + ".matching_fields", q, "not the log that was given")
        aw = q.ev(r"^await:await\(AsyncLogBuffer::write_log\(")
        c.ob("content", len(aw) == 1 and q.rett is aw[0].res, q, "the outcome of writing is not the result")
        if not over:
            cur = q.ev(r"^Strategy::session_id\(self\.session_strategy\)")
            c.ob("own-session", len(cur) == 1 and g["session_id"] == show(cur[0].res) and g["occurred_at"] == md + ".timestamp" and g["fields"] == md + ".fields", q, "another session, time or fields")
        else:
            c.ob("override", g["session_id"] in (EXP, show(prev[0].res) + "?Some.0") and g["occurred_at"] == f"{OVR}?Some.0.occurred_at", q, "another session or time")
            h = " ".join(q.heap(".*").values()) + g["fields"]
            c.ob("override", g["fields"].startswith(f"[{md}.fields ++ ") and f"value:String(to_string({md}.timestamp))" in h and not q.ev(r"^Strategy::session_id"), q, "the collected time is lost, or the fields are")


GROUPS = [processing]
FLOORS = {"metadata": 6, "own-session": 1, "override": 6, "mismatch": 3, "content": 6}
