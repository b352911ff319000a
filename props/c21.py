"""Client identity: the SDK's own version, platform and configuration version always win over collected metadata."""
from rules import *

M = "bd_metadata"


def collect(c):
    p = c.program(M)
    c.rule("own-keys", "the metadata sent always carries the configuration version, the SDK version, the OS and the kind of the platform it runs on")
    c.rule("rest", "every other collected entry is passed on unchanged")
    plat = f"{M}::Platform"
    table = {"Android": ("'android'", "'mobile'"), "Ios": ("'ios'", "'mobile'"), "Pulse": ("'pulse'", "'pulse'")}
    seen = {}
    for q in c.paths_of(p, f"{M}::Metadata::collect"):
        if not c.ob("rest", q.kind == "ret", q, "panics"):
            continue
        base, d = map_view(q.rett)
        c.ob("rest", re.fullmatch(r"Metadata::collect_inner\(self\)#1", show(base)) is not None, q, f"the result is not the collected metadata plus the SDK's own: {show(base)[:160]}")
        d = {k: show(v) for k, v in d.items()}
        c.ob("rest", set(d) == {"'config_version'", "'os'", "'kind'", "'sdk_version'"}, q, f"sets {sorted(d)}")
        c.ob("own-keys", d.get("'sdk_version'") == "Metadata::sdk_version(self)#1", q, "the SDK version is not the client's")
        c.ob("own-keys", re.fullmatch(r"'\d+'|to_string\(\d+\)", d.get("'config_version'", "")) is not None, q, "the configuration version is not the client's constant")
        pf = q.ev(r"^Metadata::platform\(self\)")
        if not c.ob("own-keys", len(pf) >= 1, q, "the platform is not asked"):
            continue
        v = next((v for v in list(table) + ["Other"] if any(q.decide(is_(e.res, v, plat)) for e in pf)), None)
        if v == "Other":
            x = [show(e.res) for e in pf]
            ok = any(d.get("'os'") == f"{y}?Other.0" for y in x) and any(d.get("'kind'") == f"{y}?Other.1" for y in x)
        else:
            ok = v in table and (d.get("'os'"), d.get("'kind'")) == table[v]
        seen[v] = True
        c.ob("own-keys", ok, q, f"platform {v} is reported as os {d.get(chr(39) + 'os' + chr(39))}")
    c.ob("own-keys", set(seen) >= set(table) | {"Other"}, f"{M}::Metadata::collect", f"only covers {sorted(map(str, seen))}")
    c.rule("one-way", "the SDK's own identity is written in one place only")
    impls = [f.id for f in p.by_id.values() if f.id.endswith("::collect") and "Metadata" in f.id and f.kind == "fn"]
    c.ob("one-way", impls == [f"{M}::Metadata::collect"], f"{M}::Metadata", f"overridden in {impls}")


GROUPS = [collect]
FLOORS = {"own-keys": 10, "rest": 4, "one-way": 1}
