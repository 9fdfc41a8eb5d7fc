"""C12: runs the price generator of the observed tree in scratch directories, as an unprivileged
user, from many starting states and repeatedly, watches which files it touches, compiles what it
wrote and compares that with the constants the library is compiled with."""

import hashlib
import os
import random
import re
import shutil
import subprocess
import tempfile

import build as B
from check import Inconclusive, Violation
from common import run

NOBODY = 65534

# per-unit price -> units one circuit takes
CAPACITY = {
    "VM_CYCLE_COST_IN_ERGS": 23000,
    "RAM_PERMUTATION_COST_IN_ERGS": 260000,
    "CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS": 2 * 12100,
    "STORAGE_APPLICATION_COST_IN_ERGS": 118,
    "CODE_DECOMMITTER_SORTER_COST_IN_ERGS": 192500,
    "CODE_DECOMMITMENT_SORTER_COST_IN_ERGS": 192500,
    "LOG_DEMUXER_COST_IN_ERGS": 101500,
    "STORAGE_SORTER_COST_IN_ERGS": 79000,
    "EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS": 88000,
    "INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS": 4600,
    "REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS": 7400,
    "KECCAK256_CIRCUIT_COST_IN_ERGS": 2050,
    "SHA256_CIRCUIT_COST_IN_ERGS": 11500,
    "ECRECOVER_CIRCUIT_COST_IN_ERGS": 72,
}


def snapshot(root):
    out = {}
    for top, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.join(top, d)
            out[os.path.relpath(p, root) + "/"] = "dir" if not os.path.islink(p) else os.readlink(p)
        for f in files:
            p = os.path.join(top, f)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "link " + os.readlink(p)
                continue
            with open(p, "rb") as fd:
                out[os.path.relpath(p, root)] = hashlib.sha256(fd.read()).hexdigest()
    return out


def give(root):
    for top, dirs, files in os.walk(root):
        for x in [top] + [os.path.join(top, f) for f in files]:
            os.chown(x, NOBODY, NOBODY)


def constants(text):
    """(name, type, expression) of every constant item in a Rust source."""
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    return re.findall(r"\bpub\s+const\s+(\w+)\s*:\s*(\w+)\s*=\s*([^;]+);", text)


def evaluate(path, names, work):
    """Compiles the generated file and prints its constants; None if it does not compile."""
    src = os.path.join(work, "show.rs")
    with open(src, "w") as f:
        f.write(f'#![allow(dead_code)]\n#[path = "{path}"] mod g;\nfn main() {{\n')
        for n in names:
            f.write(f'    let x: u32 = g::{n}; println!("{n} {{}}", x);\n')
        f.write("}\n")
    exe = os.path.join(work, "show")
    r = run(["rustc", "-Cdebuginfo=0", "-o", exe, src], 120, env=B.env_for(), cwd=work)
    if r.rc != 0:
        return None, r.stderr
    r = run([exe], 30)
    return dict((k, int(v)) for k, v in (x.split() for x in r.stdout.splitlines())), ""


def check(ctx):
    bins = ctx.builds(["release", "checked"])
    r = run([os.path.join(bins["release"], "monitor"), "prices"], 60, env=B.env_for())
    if r.rc != 0:
        raise Inconclusive("cannot read the library's prices: " + r.stderr[-500:])
    prices_text, _, params_text = r.stdout.partition("--\n")
    shipped = dict((k, int(v)) for k, v in (x.split() for x in prices_text.splitlines()))
    params = dict((k, int(v)) for k, v in (x.split() for x in params_text.splitlines()))
    cov = ctx.cov
    cov["rule"] = (
        "A case is one run of the generator (one build, one starting state, one position in a sequence of runs) or one published price "
        "judged. Starting states: no output file, the shipped one, longer garbage, an empty file, decoys beside it; distinct by build, "
        "state and position. Non-trivial: the run wrote an output that was read back."
    )
    cases = set()

    def fail(what, text):
        raise Violation(what, ctx.replay_file("prices.txt", what + "\n\n" + text + "\n"))

    # 1. the rounding of every shipped price
    e = params["ERGS_PER_CIRCUIT"]
    for n, cap in CAPACITY.items():
        p = shipped[n]
        if not (p * cap >= e and (p == 0 or (p - 1) * cap < e)):
            fail(f"{n} = {p} is not the smallest price with which {cap} units cover {e} ergs", r.stdout)
        cases.add(("rounding", n))
    lim, pub = params["MAX_TX_ERGS_LIMIT"], params["MAX_PUBDATA_PER_BLOCK"]

    def single(limit, unit):
        if unit is not None and pub <= limit * unit:
            return 0
        return -(-lim // limit)

    want = {
        "L1_MESSAGE_MIN_COST_IN_ERGS": single(512, None),
        "INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS": single(4600, params["INITIAL_STORAGE_WRITE_PUBDATA_BYTES"]),
        "REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS": single(7400, params["REPEATED_STORAGE_WRITE_PUBDATA_BYTES"]),
    }
    want["STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS"] = max(want["INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS"],
                                                        want["REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS"])
    for n, v in want.items():
        if shipped[n] != v:
            fail(f"{n} = {shipped[n]}, the single-instance circuit needs {v}", r.stdout)
        cases.add(("minimum", n))
    names = set(CAPACITY) | set(want)

    # what the library is compiled with, beyond the names known here
    try:
        with open(os.path.join(B.REPO, "src", "circuit_prices.rs")) as f:
            listed = [c[0] for c in constants(f.read())]
    except OSError:
        listed = sorted(names)
    published = names | set(listed)

    # 2. the generator itself
    rng = random.Random(ctx.seed)
    shipped_file = os.path.join(B.REPO, "src", "circuit_prices.rs")
    states = ["absent", "shipped", "garbage", "empty", "long"]
    sequences = 24 if ctx.thorough else 6
    runs = reads = 0
    traced = 0
    outputs = set()
    for flavour in ("release", "checked"):
        gen = os.path.join(bins[flavour], "pricegen")
        for s in range(sequences):
            state = states[s % len(states)]
            scratch = tempfile.mkdtemp(prefix="c12-")
            try:
                box = os.path.join(scratch, "tree")
                os.makedirs(os.path.join(box, "src", "definitions"))
                os.makedirs(os.path.join(box, "target"))
                out = os.path.join(box, "src", "circuit_prices.rs")
                for rel in ("Cargo.toml", "src/lib.rs", "src/system_params.rs", "src/definitions/log.rs", "circuit_prices.rs"):
                    with open(os.path.join(box, rel), "w") as f:
                        f.write(f"// decoy {rng.random()}\n")
                if state == "shipped" and os.path.exists(shipped_file):
                    shutil.copy(shipped_file, out)
                elif state == "garbage":
                    with open(out, "wb") as f:
                        f.write(rng.randbytes(1000))
                elif state == "long":
                    with open(out, "w") as f:
                        f.write("pub const STALE: u32 = 1;\n" * 2000)
                elif state == "empty":
                    open(out, "w").close()
                exe = os.path.join(scratch, "generator")
                shutil.copy(gen, exe)
                os.chmod(exe, 0o755)
                os.chmod(scratch, 0o755)
                give(box)
                os.chown(scratch, NOBODY, NOBODY)
                previous = None
                for k in range(rng.randint(2, 4)):
                    before = snapshot(scratch)
                    log = os.path.join(scratch, f"trace{k}")
                    use_trace = traced >= 0 and k == 0
                    cmd = [exe]
                    if use_trace:
                        cmd = ["strace", "-f", "-e", "trace=%file", "-o", os.path.join(box, "target", "trace"), exe]
                    res = as_nobody(ctx, cmd, box)
                    trace_file = os.path.join(box, "target", "trace")
                    if use_trace:
                        if os.path.exists(trace_file):
                            with open(trace_file, errors="replace") as f:
                                trace = f.read()
                            os.remove(trace_file)
                            if "exited with" in trace:
                                traced += 1
                                judge_trace(trace, box, fail)
                            else:
                                traced = -1
                                res = as_nobody(ctx, [exe], box)
                        else:
                            traced = -1
                            res = as_nobody(ctx, [exe], box)
                    runs += 1
                    if res.timed_out:
                        if as_nobody(ctx, [exe], box, 240).timed_out:
                            fail("the generator does not end", f"{flavour} build, starting with {state} output, run {k + 1}")
                        raise Inconclusive("the generator did not end within a minute, but then it did")
                    if res.rc != 0:
                        fail(f"the generator failed with {res.rc} ({flavour} build, starting with {state} output, run {k + 1})", res.stderr)
                    after = snapshot(scratch)
                    rel = os.path.relpath(out, scratch)
                    touched = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p) and p != rel)
                    if touched:
                        fail(f"the generator touched other files: {touched}", "")
                    if rel not in after:
                        fail("the generator did not write src/circuit_prices.rs", str(after))
                    with open(out, "rb") as f:
                        data = f.read()
                    reads += 1
                    if previous is not None and data != previous:
                        fail(f"running the generator again changes its output (run {k + 1})", data.decode("utf-8", "replace"))
                    previous = data
                    cases.add(("run", flavour, state, k))
                    if data in outputs:
                        continue
                    outputs.add(data)
                    text = data.decode("utf-8", "replace")
                    got = [c[0] for c in constants(text)]
                    dup = sorted(n for n in set(got) if got.count(n) > 1)
                    if dup:
                        fail(f"the generator wrote {dup} more than once", text)
                    if set(got) != published:
                        fail(f"generated but not published: {sorted(set(got) - published)}; "
                             f"published but not generated: {sorted(published - set(got))}", text)
                    values, err = evaluate(out, got, scratch)
                    if values is None:
                        if "error" in err:
                            fail("the generated file does not compile", err + "\n" + text)
                        raise Inconclusive("rustc failed on the generated file: " + err[-500:])
                    for n in sorted(names):
                        if values[n] != shipped[n]:
                            fail(f"the generator writes {n} = {values[n]}, the library is compiled with {shipped[n]}", text)
                        cases.add(("value", n, values[n]))
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
    if traced < 0:
        ctx.notes.append("strace is not usable here: files outside the scratch directory were protected by permissions, not watched")
    cov["evaluations"] = runs + sum(c[0] != "run" for c in cases)
    cov["distinct_nontrivial"] = len(cases)
    cov["generator_runs"] = runs
    cov["outputs_read_back"] = reads
    cov["distinct_outputs"] = len(outputs)
    cov["runs_with_system_calls_watched"] = max(traced, 0)
    cov["published_prices"] = len(published)
    cov["samples"] = [f"{n} = {shipped[n]}" for n in sorted(names)[:6]] + [str(c) for c in sorted(c for c in cases if c[0] == "run")[:4]]


def judge_trace(trace, box, fail):
    """Every call that can change the file system names the output file."""
    out = os.path.join(box, "src", "circuit_prices.rs")
    for line in trace.splitlines():
        line = re.sub(r"^\d+\s+", "", line)
        m = re.match(r"(\w+)\(", line)
        if not m:
            continue
        # an attempt counts even when it failed: only this sandbox's permissions stopped it
        call = m.group(1)
        if call in ("open", "openat", "openat2", "creat"):
            if not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND", line) and call != "creat":
                continue
        elif not re.match(r"(rename|unlink|link|symlink|mkdir|rmdir|truncate|chmod|fchmodat|chown|lchown|fchownat|mknod|utime)", call):
            continue
        paths = [os.path.normpath(os.path.join(box, p)) for p in re.findall(r'"([^"]*)"', line)]
        for p in paths:
            # a temporary file beside the output is fine as long as nothing is left of it
            if p != out and not p.startswith(os.path.dirname(out) + os.sep) and not p.startswith(("/dev/", "/proc/self")):
                fail(f"the generator changes {p}", line)


def as_nobody(ctx, cmd, cwd, limit=60):
    env = {"PATH": "/usr/bin:/bin", "HOME": cwd, "LANG": "C"}
    try:
        return run(cmd, limit, env=env, cwd=cwd, user=NOBODY, group=NOBODY, extra_groups=[])
    except (PermissionError, subprocess.SubprocessError, FileNotFoundError) as e:
        if isinstance(e, FileNotFoundError) and "strace" in str(e):
            return run(["false"], 10)
        raise Inconclusive(f"cannot run the generator as an unprivileged user: {e}")
