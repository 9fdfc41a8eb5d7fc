"""Builds the monitors against /repo's current working tree, in several instrumentations.

Every flavour has its own cargo target directory under /verif/target. Cargo decides by time
stamps whether the observed crate changed; as trees get copied around, that is not enough, so the
contents of everything that is compiled are hashed, and a changed hash throws the old build of
the observed crate and of the monitors away."""

import hashlib
import os
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MONITOR = os.path.join(VERIF, "monitor")
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(MONITOR, "src"), os.path.join(MONITOR, ".cargo"),
                 os.path.join(VERIF, "standins"), os.path.join(VERIF, "tracer")):
        for top, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(top, f)
                h.update(p.encode() + b"\0")
                try:
                    with open(p, "rb") as fd:
                        h.update(hashlib.sha256(fd.read()).digest())
                except OSError:
                    h.update(b"?")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"), os.path.join(MONITOR, "Cargo.toml"),
              os.path.join(MONITOR, "Cargo.lock")):
        try:
            with open(p, "rb") as fd:
                h.update(p.encode() + b"\0" + hashlib.sha256(fd.read()).digest())
        except OSError:
            h.update(p.encode() + b"-")
    return h.hexdigest()


def env_for(extra=None):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.setdefault("CARGO_HOME", "/root/.cargo")
    e.setdefault("RUSTUP_HOME", "/root/.rustup")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS",
              "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(extra or {})
    return e


# flavour -> (cargo arguments, environment, where the binaries are)
FLAVOURS = {
    "release": (["build", "--release"], {}, "release"),
    "checked": (["build", "--profile", "checked"], {}, "checked"),
    "asan": (["+nightly", "build", "--profile", "checked", "--target", TRIPLE],
             {"RUSTFLAGS": "-Zsanitizer=address"}, TRIPLE + "/checked"),
    "tsan": (["+nightly", "build", "--release", "-Zbuild-std", "--target", TRIPLE],
             {"RUSTFLAGS": "-Zsanitizer=thread"}, TRIPLE + "/release"),
    "miri": (["+nightly", "miri", "run", "--bin", "monitor"],
             {"MIRIFLAGS": "-Zmiri-disable-isolation"}, None),
    "traced": (["build", "--release", "--features", "traced"],
               {"RUSTC_WRAPPER": os.path.join(VERIF, "tracer", "rustc.sh")}, "release"),
}


def forget(directory):
    """Drops what was built from the observed crate and the monitors; keeps the dependencies."""
    for top, dirs, _ in os.walk(directory):
        if os.path.basename(top) == ".fingerprint":
            for d in list(dirs):
                if d.startswith(("zkevm_opcode_defs-", "monitor-", "pricegen-")):
                    shutil.rmtree(os.path.join(top, d), ignore_errors=True)
            dirs[:] = []


def prepare(flavour):
    directory = os.path.join(TARGET, flavour)
    os.makedirs(directory, exist_ok=True)
    stamp = os.path.join(directory, "stamp")
    h = tree_hash()
    try:
        with open(stamp) as f:
            same = f.read() == h
    except OSError:
        same = False
    if not same:
        forget(directory)
    return directory, stamp, h


def build(flavour, timeout=700):
    """Returns the directory of the binaries; raises BuildError."""
    args, env, out = FLAVOURS[flavour]
    directory, stamp, h = prepare(flavour)
    cmd = ["cargo"] + args + ["--offline", "--bins"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=MONITOR, env=env_for(dict(env, CARGO_TARGET_DIR=directory)), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise BuildError(f"building {flavour} took over {timeout} s")
    except OSError as e:
        raise BuildError(f"building {flavour}: {e}")
    if p.returncode != 0:
        raise BuildError(f"building {flavour} failed:\n" + p.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(h)
    return os.path.join(directory, out), time.time() - t
