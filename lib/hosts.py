"""C31: the same calls on hosts with another byte order or word size, interpreted by Miri, give
the results they give here. Digests are compared with each other only."""

import concurrent.futures
import os

import build as B
from check import Inconclusive, Violation, first_line
from common import run

# (target, what is different there)
TARGETS = [
    ("s390x-unknown-linux-gnu", "big-endian, 64 bits"),
    ("i686-unknown-linux-gnu", "little-endian, 32 bits"),
]


def cmd(target, p):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", target, "--bin", "monitor", "--"] + [str(a) for a in p]


def check(ctx):
    bins = ctx.builds(["release"])
    mon = os.path.join(bins["release"], "monitor")
    cov = ctx.cov
    cov["rule"] = (
        "A case is one call (one of the kinds of calls covering the public interface, arguments of boundary and random words), one use of "
        "a shared table or one hash of a long code, interpreted by Miri for a host of another byte order or word size, its result digest compared with that of the "
        "native build. Distinct: by call; every call returns something to compare."
    )

    def fail(name, what, text):
        raise Violation(what, ctx.replay_file(name, what + "\n" + text + "\n"))

    if ctx.thorough:
        plan = [("digest", ctx.seed * 77 + k, 1200, "tablefree") for k in range(4)] + [("digest", ctx.seed, 250, "decode"), ("touch", ctx.seed, 1)]
        plan += [("code", ctx.seed, n) for n in (32769, 65535)]
        begun = []
        limit = 3000
    else:
        plan = [("digest", ctx.seed * 77 + k, 600, "tablefree") for k in range(3)] + [("digest", ctx.seed, 100, "decode")]
        # a code this long takes the interpreter too long to hash, but a refusal would be instant
        begun = [("code", ctx.seed, 65535)]
        plan += begun
        limit = 600
    plan += [("small", ctx.seed)] + [("code", ctx.seed, n) for n in (1, 3, 255, 4097, 65536, 65537)]
    started = []
    directory, stamp, h = B.prepare("hosts")
    env = B.env_for({"MIRIFLAGS": "-Zmiri-disable-isolation", "CARGO_TARGET_DIR": directory})
    todo = []
    for target, what in TARGETS:
        first = run(cmd(target, ("digest", 1, 1, "tablefree")), 400, env=env, cwd=B.MONITOR)
        if first.rc != 0 and "Undefined Behavior" not in first.stderr and "PANIC" not in first.stdout:
            ctx.notes.append(f"Miri does not run for {target} here: {first.stderr[-300:]}")
            continue
        todo += [(target, what, p) for p in plan]
    with open(stamp, "w") as f:
        f.write(h)
    # the long ones first
    todo.sort(key=lambda x: (x[2][0] != "touch", x[2][0] != "code", -x[2][-1] if x[2][0] == "code" else 0))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        ran = ex.map(lambda x: run(cmd(x[0], x[2]), 100 if x[2] in begun else limit, env=env, cwd=B.MONITOR), todo)
        jobs = [x + (j,) for x, j in zip(todo, ran)]
    calls, distinct, done = 0, set(), []
    native = {}
    for target, what, p, j in jobs:
        where = f"{target} ({what})"
        if "Undefined Behavior" in j.stderr:
            # what is undefined is C26's business
            ctx.notes.append(f"{where}: {first_line(j.stderr, 'Undefined Behavior')}")
            continue
        if j.timed_out and p in begun:
            started.append(f"{where}: {' '.join(map(str, p))}")
            continue
        if j.timed_out:
            ctx.notes.append(f"{where}: {p} did not finish in time; not covered")
            continue
        if p not in native:
            r = run([mon] + [str(a) for a in p], 120, env=B.env_for())
            if r.rc not in (0, 1) or r.timed_out:
                raise Inconclusive(f"{p} ended with {r.rc} on this host: {r.stderr[-300:]}")
            native[p] = sorted(r.stdout.splitlines())
        ref, got = native[p], sorted(j.stdout.splitlines())
        if j.rc not in (0, 1):
            ctx.notes.append(f"{where}: {p} ended with {j.rc}: {j.stderr[-300:]}")
            continue
        if ref != got:
            a, b = next((x, y) for x, y in zip(ref + [""], got + [""]) if x != y)
            fail("host.txt", f"{' '.join(map(str, p))} on {where}: here {a!r}, there {b!r}",
                 f"cd {B.MONITOR}; CARGO_TARGET_DIR={directory} MIRIFLAGS=-Zmiri-disable-isolation {' '.join(j.cmd)}")
        calls += len(got)
        distinct.update((p[0], x.split(" ", 1)[1] if p[0] in ("digest", "touch") else x) for x in got if " " in x)
        done.append(f"{where}: {' '.join(map(str, p))}")
        if len(cov["samples"]) < 6:
            cov["samples"] += [f"{where}: {x}" for x in got[:1]]
    cov["evaluations"] = calls
    cov["distinct_nontrivial"] = len(distinct)
    cov["runs_compared"] = done
    cov["runs_not_refused_and_still_hashing"] = started
