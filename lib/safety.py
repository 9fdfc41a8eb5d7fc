"""C26: the same calls in builds with and without assertions, under AddressSanitizer and under
Miri. A violation is a panic, a sanitizer report, undefined behaviour, or a result that differs
between builds; wrong results that agree are the business of the other properties."""

import json
import os

import build as B
from check import PROBED, Inconclusive, Violation, first_line
from common import Job, pool, run


def check(ctx):
    bins = ctx.builds(["release", "checked"], ["asan", "tsan"])
    cov = ctx.cov
    cov["rule"] = (
        "A case is one call (28 kinds covering the public interface) with valid arguments made of boundary values, integer literals of the "
        "sources, repeated and random words, executed in every build and its result digest compared; plus every case of the other "
        "properties' probes, watched for panics and sanitizer reports only. Distinct: by kind and arguments digest, per seed; all calls "
        "return something to compare, so all are non-trivial."
    )

    def fail(name, what, text):
        raise Violation(what, ctx.replay_file(name, what + "\n" + text + "\n"))

    env = B.env_for({"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1"})
    miri_jobs = start_miri(ctx)

    # 1. the same calls in every build
    n = 400_000 if ctx.thorough else 60_000
    seeds = [ctx.seed * 1000 + k for k in range(24 if ctx.thorough else 4)]
    evaluations, rows_seen, kinds = 0, set(), {}
    samples = []
    flavours = [f for f in ("release", "checked", "asan") if f in bins]
    jobs = pool([[os.path.join(bins[f], "monitor"), "digest", str(s), str(n)] for s in seeds for f in flavours], 6, 900, env=env)
    it = iter(jobs)
    for s in seeds:
        ref = None
        for f in flavours:
            j = next(it)
            judge_job(ctx, j, f, fail)
            lines = j.stdout.splitlines()
            bad = next((x for x in lines if " PANIC " in x), None)
            if bad:
                fail("panic.sh", f"{f} build: a call with valid arguments panics: {bad}", replay_text(j))
            if len(lines) != n:
                raise Inconclusive(f"{f}: {len(lines)} results of {n}")
            evaluations += n
            if ref is None:
                ref = (f, lines)
                for x in lines:
                    _, k, d = x.split()
                    kinds[k] = kinds.get(k, 0) + 1
                    rows_seen.add((k, d))
                samples += [f"seed {s}: call {x}" for x in lines[:2]]
            else:
                for a, b in zip(ref[1], lines):
                    if a != b:
                        fail("builds.sh", f"a call differs between builds: {ref[0]} {a}, {f} {b}", replay_text(j))
    cov["calls_compared_between_builds"] = evaluations
    cov["builds_compared"] = flavours
    cov["calls_by_kind"] = kinds

    # 2. the workloads of all other properties, watched for panics and reports
    watched = 0
    for f in [x for x in ("asan", "checked") if x in bins][: 2 if ctx.thorough else 1]:
        outs, cmds = [], []
        for p in PROBED:
            parts = 4
            for k in range(parts if ctx.thorough else 1):
                o = os.path.join(ctx.work, f"{f}-{p}-{k}.json")
                outs.append(o)
                cmds.append([os.path.join(bins[f], "monitor"), "run", p, "quick", str(ctx.seed + 7), o, str(k), str(parts if ctx.thorough else 16)])
        for o, j in zip(outs, pool(cmds, 6, 900, env=env)):
            judge_job(ctx, j, f, fail)
            try:
                with open(o) as fd:
                    d = json.load(fd)
            except (OSError, ValueError):
                ctx.notes.append(f"{' '.join(j.cmd[1:3])} ended with {j.rc} and no result")
                continue
            watched += d.get("evaluations", 0)
            v = d["violation"]
            if v and v["message"].startswith(("the library panicked", "a call did not return", "a call blocks for good")):
                fail("probe-panic.txt", f"{f} build: {v['message']} (workload of {j.cmd[2]}, probe {v['probe']}, input {v['data']})",
                     f"python3 {B.VERIF}/check.py replay {j.cmd[2]} checked {v['probe']} {v['data']}")
    cov["cases_watched_for_panics_and_reports"] = watched
    evaluations += watched

    # 3. threads
    evaluations += races(ctx, bins, fail)

    # 4. Miri
    evaluations += finish_miri(ctx, miri_jobs, bins, fail)

    # 5. memcheck
    if ctx.thorough:
        j = run(["valgrind", "--error-exitcode=99", "-q", os.path.join(bins["release"], "monitor"), "digest", str(ctx.seed), "20000"], 1500, env=env)
        if j.rc == 99:
            fail("memcheck.txt", "valgrind memcheck report: " + first_line(j.stderr, "=="), j.stderr)
        if j.rc == 0:
            cov["calls_under_memcheck"] = 20000
            evaluations += 20000
        else:
            ctx.notes.append(f"valgrind ended with {j.rc}")
    cov["evaluations"] = evaluations
    cov["distinct_nontrivial"] = len(rows_seen)
    cov["samples"] = samples[:8]


def races(ctx, bins, fail):
    """Calls from several threads at once under ThreadSanitizer."""
    if "tsan" not in bins:
        return 0
    env = B.env_for({"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
    mon = os.path.join(bins["tsan"], "monitor")
    alone = run([mon, "together", "1", "40", "1"], 120, env=env)
    if alone.rc not in (0, 1) and "WARNING: ThreadSanitizer" not in alone.stderr:
        ctx.notes.append(f"ThreadSanitizer does not run here: {alone.stderr[-200:]}")
        return 0
    s = ctx.seed * 100
    cmds = [[mon, "together", str(s + k), "20000" if ctx.thorough else "4000", "4"] for k in range(8 if ctx.thorough else 2)]
    cmds += [[mon, "purity", str(s + 50 + k), "1500" if ctx.thorough else "400"] for k in range(8 if ctx.thorough else 2)]
    calls = done = 0
    for j in pool(cmds, 4, 600, env=env):
        if "WARNING: ThreadSanitizer" in j.stderr:
            fail("race.txt", f"ThreadSanitizer report ({' '.join(j.cmd)}): {first_line(j.stderr, 'WARNING')}", j.stderr)
        if j.timed_out or j.rc != 0:
            # what a call answers is C25's business; here only reports count
            ctx.notes.append(f"{' '.join(j.cmd[1:])} under ThreadSanitizer ended with {j.rc}: {(j.stdout + j.stderr)[-200:]}")
            continue
        done += 1
        calls += int(j.stdout.split("calls=")[1].split()[0])
    ctx.cov["concurrent_calls_under_thread_sanitizer"] = calls
    ctx.cov["thread_sanitizer_runs"] = done
    return calls


def replay_text(j):
    return "#!/bin/sh\n# build as in lib/build.py, then\n" + " ".join(j.cmd) + "\n"


def judge_job(ctx, j, flavour, fail):
    if "AddressSanitizer" in j.stderr:
        fail("asan.txt", "AddressSanitizer report: " + first_line(j.stderr, "AddressSanitizer"), " ".join(j.cmd) + "\n" + j.stderr)
    if "HANG" in j.stdout:
        fail("hang.txt", f"{flavour} build: {j.stdout.strip().splitlines()[-1]}", " ".join(j.cmd))
    if j.timed_out:
        raise Inconclusive(f"{' '.join(j.cmd)} did not end in time")
    if j.rc is not None and j.rc < 0 and j.rc != -9:
        fail("crash.txt", f"{flavour} build: a workload crashes with signal {-j.rc}", " ".join(j.cmd) + "\n" + j.stderr)
    if j.rc not in (0, 1):
        raise Inconclusive(f"{' '.join(j.cmd)} ended with {j.rc}: {j.stderr[-500:]}")


def miri_cmd(*args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "monitor", "--"] + [str(a) for a in args]


def start_miri(ctx):
    directory, stamp, h = B.prepare("miri")
    env = B.env_for(dict(B.FLAVOURS["miri"][1], CARGO_TARGET_DIR=directory))
    first = run(miri_cmd("digest", 1, 1, "tablefree"), 300, env=env, cwd=B.MONITOR)
    if "Undefined Behavior" in first.stderr:
        return [(("digest", 1, 1, "tablefree"), first)]
    if first.rc != 0 and "PANIC" not in first.stdout:
        ctx.notes.append("Miri does not run here, its stage did not run: " + first.stderr[-300:])
        return []
    with open(stamp, "w") as f:
        f.write(h)
    plan = []
    if ctx.thorough:
        limit = 2400
        plan += [("digest", ctx.seed * 1000 + k, 1500, "tablefree") for k in range(4)]
        plan += [("digest", ctx.seed * 1000 + k, 300, "decode") for k in range(2)]
        plan += [("touch", ctx.seed, 2), ("digest", ctx.seed, 60)]
        plan += [("together", ctx.seed * 100 + k, 400, 3) for k in range(4)]
    else:
        limit = 420
        plan += [("digest", ctx.seed * 1000 + k, 150, "tablefree") for k in range(3)]
        plan += [("digest", ctx.seed * 1000, 60, "decode"), ("together", ctx.seed, 60, 3)]
    return [(p, Job(miri_cmd(*p), limit, env=env, cwd=B.MONITOR)) for p in plan]


def finish_miri(ctx, jobs, bins, fail):
    calls = 0
    done = []
    for p, j in jobs:
        j.wait()
        if "Undefined Behavior" in j.stderr:
            fail("miri.txt", f"Miri ({' '.join(map(str, p))}): " + first_line(j.stderr, "Undefined Behavior"), " ".join(j.cmd) + "\n" + j.stderr)
        if j.timed_out:
            ctx.notes.append(f"Miri did not finish {p} in time; not covered")
            continue
        if p[0] == "digest":
            bad = next((x for x in j.stdout.splitlines() if " PANIC " in x), None)
            if bad:
                fail("miri-panic.txt", f"under Miri a call with valid arguments panics: {bad}", " ".join(j.cmd))
            if j.rc != 0:
                ctx.notes.append(f"Miri ended {p} with {j.rc}: {j.stderr[-300:]}")
                continue
            ref = run([os.path.join(bins["release"], "monitor")] + [str(a) for a in p], 120, env=B.env_for())
            if ref.rc == 0 and ref.stdout != j.stdout:
                fail("miri-differs.txt", f"results under Miri differ from the release build ({p})", " ".join(j.cmd))
            calls += p[2]
        elif j.rc != 0:
            ctx.notes.append(f"Miri ended {p} with {j.rc}: {j.stderr[-300:]}")
            continue
        done.append(" ".join(map(str, p)))
    ctx.cov["calls_under_miri"] = calls
    ctx.cov["miri_runs"] = done
    return calls
