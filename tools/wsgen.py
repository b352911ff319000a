"""Lays out the analysis workspace: every bd-* crate of /repo that an analysis looks at, copied
file by file (only when the content differs), with manifests derived from /repo's and with
type-level stand-ins (../stubs) for the dependencies that cannot be fetched here.

Nothing of /repo is edited; test modules are left out because check builds have no cfg(test).
"""
import hashlib
import json
import os
import re
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ANALYSIS_REPO", "/repo")
OUT = os.environ.get("ANALYSIS_OUT", os.path.join(VERIF, "build"))
WS = os.path.join(OUT, "ws")
STUBS = os.path.join(VERIF, "stubs")

SKIP = {"bd-test-helpers"}


def crates():
    return sorted(
        d
        for d in os.listdir(REPO)
        if d.startswith("bd-") and os.path.isfile(f"{REPO}/{d}/Cargo.toml") and d not in SKIP
    )


def stub_names():
    return sorted(os.listdir(STUBS))


def read(path):
    with open(path, "rb") as f:
        return f.read()


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(path) and read(path) == data:
        return False
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def toml(value):
    if isinstance(value, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(v)}" for k, v in value.items()) + " }"
    if isinstance(value, list):
        return "[" + ", ".join(toml(v) for v in value) + "]"
    return json.dumps(value)


def dump(tables):
    out = ""
    for name, table in tables.items():
        out += f"[{name}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in table.items()) + "\n"
    return out


def sources(crate):
    """(relative path, bytes) of every non-test source file of the crate."""
    out = []
    src = f"{REPO}/{crate}/src"
    for root, dirs, files in os.walk(src):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".rs", ".json", ".yaml", ".fbs")):
                p = os.path.join(root, f)
                out.append((os.path.relpath(p, f"{REPO}/{crate}"), read(p)))
    return out


def digest(crate):
    h = hashlib.sha256()
    for rel, data in sources(crate):
        h.update(rel.encode() + b"\0" + hashlib.sha256(data).digest())
    h.update(read(f"{REPO}/{crate}/Cargo.toml"))
    return h.hexdigest()


def manifest(crate):
    m = tomllib.loads(read(f"{REPO}/{crate}/Cargo.toml").decode())
    pkg = {k: v for k, v in m["package"].items() if k not in ("build",)}
    pkg["build"] = False
    for auto in ("autotests", "autobenches", "autoexamples", "autobins"):
        pkg[auto] = False
    lib = dict(m.get("lib", {}), doctest=False, test=False)
    tables = {"package": pkg, "lib": lib, "dependencies": dict(m.get("dependencies", {}))}
    deps = tables["dependencies"]
    for name, v in list(deps.items()):
        if isinstance(v, dict) and "path" in v and os.path.basename(v["path"]) in SKIP:
            del deps[name]
    if "features" in m:
        tables["features"] = m["features"]
    return dump(tables)


def main():
    ws = tomllib.loads(read(f"{REPO}/Cargo.toml").decode())
    deps = {}
    stubs = set(stub_names())
    for k, v in ws["workspace"]["dependencies"].items():
        if k in stubs:
            new = {"path": f"{STUBS}/{k}"}
            if isinstance(v, dict):
                for key in ("features", "default-features", "optional"):
                    if key in v:
                        new[key] = v[key]
            v = new
        deps[k] = v
    names = crates()
    patch = {k: {"path": f"{STUBS}/{k}"} for k in ("want", "try-lock") if k in stubs}
    write(
        f"{WS}/Cargo.toml",
        dump(
            {
                "workspace": {"members": names, "resolver": "2"},
                "workspace.dependencies": deps,
                "patch.crates-io": patch,
                "profile.dev": {"debug": 0, "incremental": False},
            }
        ),
    )
    lock = read(f"{REPO}/Cargo.lock")
    stamp = f"{WS}/Cargo.lock.repo"
    if not os.path.exists(f"{WS}/Cargo.lock") or not os.path.exists(stamp) or read(stamp) != lock:
        write(f"{WS}/Cargo.lock", lock)
        write(stamp, lock)
    for crate in names:
        write(f"{WS}/{crate}/Cargo.toml", manifest(crate))
        keep = set()
        for rel, data in sources(crate):
            keep.add(rel)
            write(f"{WS}/{crate}/{rel}", data)
        for root, _, files in os.walk(f"{WS}/{crate}/src"):
            for f in files:
                p = os.path.join(root, f)
                if os.path.relpath(p, f"{WS}/{crate}") not in keep:
                    os.remove(p)
    return names


if __name__ == "__main__":
    print("\n".join(main()))
