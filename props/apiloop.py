"""The rounds of the connection task: what Api::maintain_active_stream does from one attempt to connect to the next."""
from rules import *
from engine import Exit

API = "bd_api::api::Api"
OPAQUE = [r"::handle_responses$", r"::wait_for_handshake$", r"::handle_upstream_event$", r"::handle_data_upload$", r"::send_ping$", r"::send_request$",
          r"::do_reconnect_backoff$", r"::write_kill_file$", r"::handshake_request$", r"::StreamState::new$", r"::initialize_stream_settings$"]


def policy(e, st, f, args, ctx):
    return [Exit("ret", sym("policy"), st)]


def rounds(c):
    """(program, paths, rounds): every round that goes on to another (Iter) and every way the task ends (Path from its last round on)."""
    p = c.program("bd_api")
    qs = c.paths_of(p, f"{API}::maintain_active_stream", Config(opaque=OPAQUE, model={f"{API}::backoff_policy": policy}, width=9000, budget=4000000))
    seen, its, ends = set(), [], []
    for q in qs:
        outer = [e for e in q.trace if e.kind == "loop" and any(x.name == "PlatformNetworkManager::start_stream" for tr, _ in q.e.loops[e.extra].iters for x in tr)]
        for e in outer:
            if e.extra in seen:
                continue
            seen.add(e.extra)
            lp = q.e.loops[e.extra]
            for n, (tr, st) in enumerate(lp.iters):
                i = Iter(q, tr, st)
                i.lp, i.n = lp, n
                its.append(i)
        n = max((q.trace.index(e) for e in outer), default=-1)
        ends.append(Tail(q, n + 1))
        ends[-1].lp = q.e.loops[outer[-1].extra] if outer else None
    return p, qs, its, ends


class Tail(Iter):
    """The last round of a path."""

    def __init__(self, q, n):
        super().__init__(q, q.trace[n:], q.state)
        self.kind, self.whole_path, self._ret = q.kind, q, q.ret
        self.last = True

    @property
    def ret(self):
        return self.whole_path.ret


NET = r"^(PlatformNetworkManager::|StreamState::(send|handle_data|new)|Api::(wait_for_handshake|handle_responses)\()"


def deep(i):
    """The events of a round with those of its loops in place."""
    out = []
    i._flat(i._tr(), out, True, set())
    return out


def answer(i):
    """The printed result of waiting for the handshake in this round; None if the round did not get so far."""
    w = i.ev(r"^Api::wait_for_handshake\(")
    return f"await({show(w[0].res)})?Ok.0" if len(w) == 1 else None


def is_(i, r, variant):
    return i.truth(re.escape(r) + " is " + variant)


def kept(i, what):
    """The optional value a round carries over to the next that is made of what (a pattern), whatever its variable is called: {round: value}."""
    for k, v in i.lp.vars.items():
        if re.fullmatch(r"phi:\w+\?Some\.0", show(k)) and any(re.search(what, show(x)) for x in v[1].values()):
            return v[1]
    return {}
