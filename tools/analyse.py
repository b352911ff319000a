"""Brings the facts (build/facts/*.json) in step with /repo's current sources.

analyse.py [--force]: builds the driver when needed, lays out the analysis workspace, and has the
compiler front end dump the MIR of every crate whose sources (or whose dependencies' sources)
differ from those its facts were made from.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tomllib

import wsgen

VERIF = wsgen.VERIF
OUT = wsgen.OUT
FACTS = f"{OUT}/facts"
TARGET = f"{OUT}/target"
DRIVER_TARGET = f"{VERIF}/build/driver"
DRIVER = f"{DRIVER_TARGET}/release/mirfacts"
NIGHTLY = None


def nightly():
    global NIGHTLY
    if NIGHTLY is None:
        NIGHTLY = subprocess.run(
            ["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True
        ).stdout.strip()
    return NIGHTLY


def tree_digest(path):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(path):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, path).encode() + b"\0")
            h.update(hashlib.sha256(wsgen.read(p)).digest())
    return h.hexdigest()


def build_driver():
    src = tree_digest(f"{VERIF}/driver")
    stamp = f"{DRIVER_TARGET}/stamp"
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == src:
        return src
    env = dict(os.environ, CARGO_TARGET_DIR=DRIVER_TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTUP_TOOLCHAIN", None)
    env.pop("RUSTFLAGS", None)
    subprocess.run(
        ["cargo", "+nightly", "build", "--release", "--offline", "-q"],
        cwd=f"{VERIF}/driver", env=env, check=True,
    )
    open(stamp, "w").write(src)
    return src


def closure_digests(names, base):
    """crate -> digest of its sources and those of the workspace crates it depends on."""
    own = {c: wsgen.digest(c) for c in names}
    deps = {}
    for c in names:
        m = tomllib.loads(wsgen.read(f"{wsgen.WS}/{c}/Cargo.toml").decode())
        deps[c] = [d for d in m.get("dependencies", {}) if d in own]
    out = {}

    def visit(c):
        if c not in out:
            h = hashlib.sha256((base + own[c]).encode())
            for d in sorted(deps[c]):
                h.update(visit(d).encode())
            out[c] = h.hexdigest()
        return out[c]

    for c in names:
        visit(c)
    return out


def cargo_check(extra):
    n = nightly()
    env = dict(
        os.environ,
        RUSTUP_TOOLCHAIN="1.83.0",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC=f"{n}/bin/rustc",
        LD_LIBRARY_PATH=f"{n}/lib",
        MIRFACTS_SYSROOT=n,
        MIRFACTS_OUT=FACTS,
        RUSTC_WORKSPACE_WRAPPER=DRIVER,
        RUSTFLAGS="--cap-lints allow",
        CARGO_TARGET_DIR=TARGET,
    )
    return subprocess.run(
        ["cargo", "check", "--offline", "-q", "--keep-going"] + extra,
        cwd=wsgen.WS, env=env, capture_output=True, text=True,
    )


def fact_name(crate):
    return crate.replace("-", "_")


def run(force=False):
    """Returns {crate: digest} of the facts present; raises nothing for crates that fail to check."""
    os.makedirs(FACTS, exist_ok=True)
    with open(f"{OUT}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        base = build_driver()
        names = wsgen.main()
        base += tree_digest(wsgen.STUBS) + hashlib.sha256(wsgen.read(f"{wsgen.WS}/Cargo.toml")).hexdigest()
        want = closure_digests(names, base)
        stale = []
        for c in names:
            stamp = f"{FACTS}/{fact_name(c)}.digest"
            ok = (
                not force
                and os.path.exists(stamp)
                and open(stamp).read() == want[c]
                and os.path.exists(f"{FACTS}/{fact_name(c)}.json")
            )
            if not ok:
                stale.append(c)
        log = ""
        if stale:
            for c in stale:
                for ext in ("json", "std.json", "digest", "cache"):
                    p = f"{FACTS}/{fact_name(c)}.{ext}"
                    if os.path.exists(p):
                        os.remove(p)
                for p in glob.glob(f"{TARGET}/debug/.fingerprint/{c}-*"):
                    if os.path.basename(p).rsplit("-", 1)[0] == c:
                        shutil.rmtree(p)
            r = cargo_check(["--workspace"])
            log = r.stderr
            for c in stale:
                if os.path.exists(f"{FACTS}/{fact_name(c)}.json"):
                    open(f"{FACTS}/{fact_name(c)}.digest", "w").write(want[c])
        return want, [c for c in names if not os.path.exists(f"{FACTS}/{fact_name(c)}.json")], log


if __name__ == "__main__":
    want, missing, log = run("--force" in sys.argv)
    print(f"{len(want)} crates, {len(missing)} without facts {missing}")
    if missing:
        print(log[-6000:])
        sys.exit(1)
