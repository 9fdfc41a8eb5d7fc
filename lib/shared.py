"""C25: fresh processes use the shared tables for the first time in random orders from many
threads, under the plain builds and under ThreadSanitizer; lists of calls are repeated under
different histories, threads and environments. Digests are compared with each other only."""

import os
import random
import tempfile
import time

import build as B
from check import Inconclusive, Violation, first_line
from common import Job, pool, run


def tasks(pid):
    """(state, cpu ticks) of every thread of the process."""
    out = []
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/stat") as f:
                x = f.read().rpartition(")")[2].split()
            out.append((x[0], int(x[11]) + int(x[12])))
    except (OSError, IndexError):
        return None
    return out


def stuck(pid):
    """True when no thread can run: all sleep, and none used the processor for a while."""
    a = tasks(pid)
    for _ in range(4):
        time.sleep(3)
        b = tasks(pid)
        if not a or not b or a != b or any(s != "S" for s, _ in b):
            return False
    return True


def used(pid):
    """Processor time of the process, in seconds."""
    return sum(t for _, t in tasks(pid) or []) / os.sysconf("SC_CLK_TCK")


def touch_all(binary, seeds_threads, width, env):
    """Runs the children; each is (job, seed, threads, stuck?)."""
    todo = list(seeds_threads)
    live, out = [], []
    while todo or live:
        while todo and len(live) < width:
            s, t = todo.pop(0)
            live.append((Job([binary, "touch", str(s), str(t)], 10_000, env=env), s, t))
        for x in list(live):
            j, s, t = x
            if not j.t.is_alive():
                out.append((j, s, t, None))
                live.remove(x)
            elif time.time() - j.t0 > 60:
                dead = "every thread sleeps for good" if stuck(j.p.pid) else None
                if used(j.p.pid) > 60:
                    dead = "it does not end within a minute of processor time"
                if dead or time.time() - j.t0 > 240:
                    j.kill()
                    j.t.join(10)
                    if not dead:
                        j.timed_out = True
                    out.append((j, s, t, dead))
                    live.remove(x)
        time.sleep(0.002)
    return out


def parse(text):
    rows = []
    for line in text.splitlines():
        x = line.split(" ", 2)
        if len(x) == 3 and x[0].isdigit() and x[1].isdigit():
            rows.append((int(x[0]), int(x[1]), x[2]))
    return rows


def shim():
    """Compiles the library that shows and moves the surroundings of a process; None if it cannot."""
    src = os.path.join(B.VERIF, "lib", "shim.c")
    out = os.path.join(B.TARGET, "shim.so")
    for cc in ("gcc", "clang"):
        try:
            if run([cc, "-O1", "-shared", "-fPIC", "-o", out, src, "-ldl"], 60).rc == 0:
                return out
        except OSError:
            pass
    return None


def surroundings(ctx, mon, fail):
    """The same calls with other environment variables, directories, users, clocks, processors."""
    calls = "40000" if not ctx.thorough else "400000"
    made = 0
    lib = shim()

    def nobody():
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)

    def one_processor():
        os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})

    with tempfile.TemporaryDirectory() as d:
        os.chmod(d, 0o777)
        log = os.path.join(d, "asked")
        base = B.env_for()
        runs = [
            ("as it is", base, VERIFDIR, {}),
            ("without environment, in /", {}, "/", {}),
            ("with another environment",
             {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "Asia/Kathmandu", "RUST_BACKTRACE": "full", "DEBUG": "1", "CI": "1",
              "TEST": "1", "HOME": d, "USER": "nobody"}, d, {}),
            ("with yet another environment",
             {"RUST_LOG": "trace", "RUST_MIN_STACK": "1000000", "PATH": d, "PROFILE": "debug", "ZKSYNC_ENV": "test"}, "/tmp", {}),
            ("on one processor", base, VERIFDIR, {"preexec_fn": one_processor}),
            ("as user nobody", base, d, {"preexec_fn": nobody}),
        ]
        if lib:
            runs.append(("with its questions to the environment logged", dict(base, LD_PRELOAD=lib, SHIM_LOG=log), VERIFDIR, {}))
            for shift in (-900_000_000, -86_400 * 45, 3600 * 11, 400_000_000, 2_300_000_000):
                runs.append((f"with its clocks moved by {shift} s", dict(base, LD_PRELOAD=lib, SHIM_SHIFT=str(shift)), VERIFDIR, {}))
            runs.append(("where files that exist are missing and missing ones exist", dict(base, LD_PRELOAD=lib, SHIM_FLIP="1"), VERIFDIR, {}))
            for n in (1, 3, 128):
                runs.append((f"believing in {n} processors", dict(base, LD_PRELOAD=lib, SHIM_CPUS=str(n)), VERIFDIR, {}))
        else:
            ctx.notes.append("no C compiler: clocks and questions to the environment are not observed")
        ref = None
        asked = set()

        def judge(runs):
            nonlocal ref, made
            jobs = []
            for k in range(0, len(runs), 8):
                batch = [(r, Job([mon, "digest", str(ctx.seed), calls], 400, env=r[1], cwd=r[2], **r[3])) for r in runs[k:k + 8]]
                jobs += [(r, j.wait()) for r, j in batch]
            for (what, env, cwd, kw), j in jobs:
                if "HANG" in j.stdout:
                    fail("hang.txt", f"{what}: {j.stdout.strip().splitlines()[-1]}", " ".join(j.cmd))
                if j.rc not in (0, 1):
                    if kw or "LD_PRELOAD" in env:
                        ctx.notes.append(f"a run {what} ended with {j.rc}: {j.stderr[-200:]}")
                        continue
                    raise Inconclusive(f"digest ended with {j.rc}: {j.stderr[-300:]}")
                made += int(calls)
                if ref is None:
                    ref = j.stdout
                elif j.stdout != ref:
                    a, b = next((x, y) for x, y in zip(ref.splitlines() + [""], j.stdout.splitlines() + [""]) if x != y)
                    fail("environment.txt", f"a call depends on its surroundings: {a} / {b} {what}", f"{env} in {cwd}")

        judge(runs)
        try:
            with open(log) as f:
                asked = set(f.read().splitlines())
        except OSError:
            pass
        files = {x[1:] for x in asked if x.startswith(">")}
        asked = {x for x in asked if not x.startswith(">")}
        # variables the process really asked for, with other values
        usual = {"RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK"}
        more = []
        for name in sorted(asked - usual)[:12]:
            for value in ("", "0", "1", "true", "false", "100", "debug", "testing", "/"):
                more.append((f"with {name}={value}", dict(base, **{name: value}), VERIFDIR, {}))
        judge(more)
        ctx.cov["surroundings_tried"] = len(runs) + len(more)
        ctx.cov["environment_variables_asked_for"] = sorted(asked)
        ctx.cov["files_asked_for"] = sorted(files)[:40]
    return made


def check(ctx):
    bins = ctx.builds(["release", "checked"], ["tsan"])
    rng = random.Random(ctx.seed)
    cov = ctx.cov
    cov["rule"] = (
        "First uses: a fresh process starts 1 to 16 threads at a barrier, each using all 26 shared objects and first calls in a random "
        "order; a case is one (object, thread) use in one process. Histories: lists of calls of 28 kinds are repeated reversed, grouped, "
        "shuffled, doubled, from 8 threads at once, a few calls of one kind over a million times, and in processes with other environments; a case is one call. Distinct counts the "
        "distinct global orders of first use seen plus the distinct calls; non-trivial: the use or call returned something to compare."
    )
    base = {}
    orders, uses, processes, winners = set(), 0, 0, set()

    def fail(name, what, text):
        raise Violation(what, ctx.replay_file(name, what + "\n" + text + "\n"))

    def judge(flavour, results):
        nonlocal uses, processes
        for j, s, t, dead in results:
            cmd = f"{flavour}: monitor touch {s} {t}"
            if dead:
                fail("deadlock.txt", f"first use of the shared tables hangs ({cmd}): {dead}", j.stdout)
            if "WARNING: ThreadSanitizer" in j.stderr:
                fail("race.txt", f"ThreadSanitizer report ({cmd}): {first_line(j.stderr, 'WARNING')}", j.stderr)
            if j.timed_out:
                raise Inconclusive(f"{cmd} did not end within 240 s")
            if j.rc not in (0, 1):
                if flavour == "tsan":
                    ctx.notes.append(f"a ThreadSanitizer process ended with {j.rc}: {j.stderr[-200:]}")
                    continue
                if j.rc is not None and j.rc < 0 and j.rc != -9:
                    fail("crash.txt", f"first use of the shared tables crashes with signal {-j.rc} ({cmd})", j.stderr)
                raise Inconclusive(f"{cmd} ended with {j.rc}: {j.stderr[-500:]}")
            rows = parse(j.stdout)
            if len(rows) != 26 * t:
                raise Inconclusive(f"{cmd} reported {len(rows)} uses of {26 * t}")
            processes += 1
            for th, i, d in rows:
                uses += 1
                if d.startswith("panic"):
                    fail("panic.txt", f"first use of shared object {i} fails ({cmd}): {d}", j.stdout)
                if base.setdefault(i, d) != d:
                    fail("differs.txt", f"shared object {i} has other contents ({cmd}): {d}, elsewhere {base[i]}", j.stdout)
            first = {}
            for th, i, d in rows:
                first.setdefault(th, i)
            winners.update(first.values())
            orders.add((t, tuple(i for _, i, _ in rows)))

    n = 4000 if ctx.thorough else 400
    for flavour, share in (("release", n), ("checked", n // 2)):
        plan = [(rng.randrange(1 << 30), rng.choice([1, 1, 2, 2, 3, 4, 8, 16])) for _ in range(share)]
        judge(flavour, touch_all(os.path.join(bins[flavour], "monitor"), plan, 8, B.env_for()))
    tsan_processes = processes
    if "tsan" in bins:
        env = B.env_for({"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})
        mon = os.path.join(bins["tsan"], "monitor")
        probe = run([mon, "touch", "1", "1"], 120, env=env)
        if probe.rc != 0 and "WARNING: ThreadSanitizer" not in probe.stderr:
            ctx.notes.append(f"ThreadSanitizer does not run here: {probe.stderr[-200:]}")
        else:
            plan = [(rng.randrange(1 << 30), rng.choice([2, 4, 8, 16])) for _ in range(200 if ctx.thorough else 24)]
            judge("tsan", touch_all(mon, plan, 4, env))
            r = pool([[mon, "purity", str(ctx.seed * 100 + k), "1500"] for k in range(4)], 4, 600, env=env)
            for j in r:
                if "WARNING: ThreadSanitizer" in j.stderr:
                    fail("race.txt", f"ThreadSanitizer report ({' '.join(j.cmd)}): {first_line(j.stderr, 'WARNING')}", j.stderr)
                if j.rc == 1 and ("IMPURE" in j.stdout or "HANG" in j.stdout):
                    fail("impure.txt", j.stdout.strip(), " ".join(j.cmd))
                if j.rc != 0:
                    ctx.notes.append(f"a ThreadSanitizer history ended with {j.rc}")
    tsan_processes = processes - tsan_processes

    # histories
    calls = distinct = 0
    samples = []
    size = "60000" if ctx.thorough else "15000"
    count = 64 if ctx.thorough else 8
    for flavour in ("release", "checked"):
        mon = os.path.join(bins[flavour], "monitor")
        r = pool([[mon, "purity", str(ctx.seed * 1000 + k), size] for k in range(count)], 4, 900, env=B.env_for())
        for j in r:
            if j.timed_out:
                raise Inconclusive("a history did not end within its time limit")
            if j.rc == 1 and ("IMPURE" in j.stdout or "HANG" in j.stdout):
                fail("impure.txt", j.stdout.strip(), " ".join(j.cmd))
            if j.rc != 0:
                if j.rc is not None and j.rc < 0 and j.rc != -9:
                    fail("crash.txt", f"a history of calls crashes with signal {-j.rc}", " ".join(j.cmd) + j.stderr)
                raise Inconclusive(f"{' '.join(j.cmd)} ended with {j.rc}: {j.stderr[-500:]}")
            f = dict(x.split("=") for x in j.stdout.split()[1:] if "=" in x)
            calls += int(f["calls"])
            if flavour == "release":
                distinct += int(f["distinct_calls"])
            if len(samples) < 3:
                samples.append(j.stdout.strip())

    # the same few calls of every kind, very often
    longest = 0
    mon = os.path.join(bins["release"], "monitor")
    reps, ms = ("40000000", "240000") if ctx.thorough else ("1200000", "30000")
    for j in pool([[mon, "marathon", str(ctx.seed), str(k), reps, ms] for k in range(KINDS)], 8, 400, env=B.env_for()):
        if j.rc == 1 and ("IMPURE" in j.stdout or "HANG" in j.stdout):
            fail("impure.txt", j.stdout.strip(), " ".join(j.cmd))
        if j.timed_out:
            ctx.notes.append(f"{' '.join(j.cmd[1:])} did not end within its time limit")
            continue
        if j.rc != 0:
            if j.rc is not None and j.rc < 0 and j.rc != -9:
                fail("crash.txt", f"a history of calls crashes with signal {-j.rc}", " ".join(j.cmd) + j.stderr)
            raise Inconclusive(f"{' '.join(j.cmd)} ended with {j.rc}: {j.stderr[-500:]}")
        k = int(j.stdout.split("calls=")[1].split()[0])
        calls += k
        longest = max(longest, k)
    cov["longest_history_of_one_kind"] = longest

    calls += surroundings(ctx, os.path.join(bins["release"], "monitor"), fail)
    cov["evaluations"] = uses + calls
    cov["distinct_nontrivial"] = len(orders) + distinct
    cov["fresh_processes"] = processes
    cov["processes_under_thread_sanitizer"] = tsan_processes
    cov["first_uses_observed"] = uses
    cov["distinct_orders_of_first_use"] = len(orders)
    cov["objects_used_first_by_some_thread"] = len(winners)
    cov["calls_compared"] = calls
    cov["distinct_calls"] = distinct
    cov["samples"] = samples + [f"{t} threads, order of the first ten uses {list(o[:10])}" for t, o in list(orders)[:3]]


VERIFDIR = B.VERIF
KINDS = 28
