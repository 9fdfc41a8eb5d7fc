#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current working tree by
watching executions of it. Exit 0: held on everything observed. Exit 1, with a VIOLATION line:
broken. Exit 2: no verdict (the machinery failed).
check.py setup: builds everything ahead of time."""

import json
import os
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build as B  # noqa: E402
from common import Job, pool, run  # noqa: E402

VERIF = B.VERIF
PROBED = [f"C{i:02d}" for i in range(1, 31) if i not in (12, 25, 26)]
ALL = [f"C{i:02d}" for i in range(1, 32)]

ASSUMPTIONS = [
    "sha2, sha3 and blake2 come from git and are unreachable offline: sha2 is the crates.io release of the same crate, "
    "the other two are empty (the library only re-exports them)",
    "the reference model in monitor/src/spec.rs states the instruction set; it shares no code or data with the library",
]


class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.notes = []
        self.work = os.path.join(B.TARGET, "work", f"{pid}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(VERIF, "replays")

    def replay_file(self, name, text):
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, f"{self.pid}-{name}")
        with open(p, "w") as f:
            f.write(text)
        return p

    def builds(self, needed, optional=()):
        """Builds flavours in parallel. Needed ones must succeed; optional ones may be missing."""
        out, err = {}, {}

        def one(f):
            try:
                out[f] = B.build(f)
            except B.BuildError as e:
                err[f] = str(e)

        ts = [threading.Thread(target=one, args=(f,)) for f in list(needed) + list(optional)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for f in needed:
            if f in err:
                raise Inconclusive(err[f])
        for f in optional:
            if f in err:
                self.notes.append(f"build {f} is not available here, its stage did not run: {err[f].splitlines()[0]}")
        self.cov["build_seconds"] = {f: round(x[1], 1) for f, x in out.items()}
        return {f: x[0] for f, x in out.items()}


def probe_violation(ctx, v, flavour, binary_args):
    script = (
        "#!/bin/sh\n"
        f"# {ctx.pid}, probe {v['probe']}, build {flavour}, seed {ctx.seed}\n"
        f"# {v['message']}\n".replace("\r", " ")
        + "# Runs this one case again against /repo's current tree: exit 1 if it is still violated.\n"
        f"exec python3 {VERIF}/check.py replay {ctx.pid} {flavour} {v['probe']} {v['data']}\n"
    )
    raise Violation(f"[{flavour} build, probe {v['probe']}, input {v['data']}] {v['message']}",
                    ctx.replay_file(f"{v['probe']}.sh", script))


def merge_counts(into, other):
    for k, n in other.items():
        into[k] = into.get(k, 0) + n


def explore(ctx, flavour, binary, tier, seed, parts, limit):
    """Hostile workload of a property's probes, in `parts` disjoint parts at once."""
    outs = [os.path.join(ctx.work, f"{flavour}-{k}.json") for k in range(parts)]
    cmds = [[binary, "run", ctx.pid, tier, str(seed), outs[k], str(k), str(parts)] for k in range(parts)]
    return outs, cmds, [Job(c, limit, env=B.env_for({"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1"})) for c in cmds]


def collect(ctx, flavour, outs, jobs):
    res = {"evaluations": 0, "distinct_nontrivial": 0, "cases_per_probe": {}, "distinct_values_observed": {}, "events_observed": {},
           "samples": []}
    for o, j in zip(outs, jobs):
        j.wait()
    for o, j in zip(outs, jobs):
        if "AddressSanitizer" in j.stderr:
            p = ctx.replay_file(f"asan-{flavour}.txt", " ".join(j.cmd) + "\n" + j.stderr)
            raise Violation("AddressSanitizer report: " + first_line(j.stderr, "AddressSanitizer"), p)
        if j.timed_out:
            ctx.notes.append(f"one part of the {flavour} exploration did not end within its time limit; it is not counted")
            continue
        if j.rc not in (0, 1):
            if j.rc is not None and j.rc < 0 and j.rc != -9:
                p = ctx.replay_file(f"crash-{flavour}.txt", " ".join(j.cmd) + f"\nended by signal {-j.rc}\n" + j.stderr)
                raise Violation(f"the {flavour} build crashed with signal {-j.rc} while exploring", p)
            raise Inconclusive(f"{' '.join(j.cmd)} ended with {j.rc}: {j.stderr[-2000:]}")
        with open(o) as f:
            d = json.load(f)
        if d["violation"]:
            probe_violation(ctx, d["violation"], flavour, j.cmd)
        res["evaluations"] += d["evaluations"]
        res["distinct_nontrivial"] += d["distinct_nontrivial"]
        for k in ("cases_per_probe", "events_observed"):
            merge_counts(res[k], d[k])
        for k, n in d["distinct_values_observed"].items():
            res["distinct_values_observed"][k] = max(n, res["distinct_values_observed"].get(k, 0))
        for s in d["samples"]:
            if len(res["samples"]) < 12:
                res["samples"].append(s)
        res["enumerated_completely"] = d["enumerated_completely"]
        res["dictionary"] = d["dictionary"]
    return res


def first_line(text, what):
    for line in text.splitlines():
        if what in line:
            return line.strip()
    return text.strip().splitlines()[0] if text.strip() else ""


def check_probed(ctx):
    guided = has_bytes(ctx.pid)
    needed = ["release", "checked"]
    optional = (["traced"] if guided else []) + (["asan"] if ctx.thorough else [])
    bins = ctx.builds(needed, optional)
    mon = {f: os.path.join(d, "monitor") for f, d in bins.items()}
    cov = ctx.cov
    cov["rule"] = (
        "Cases are made by the probes of this property: finite domains are enumerated completely; byte inputs are walked bit by bit "
        "and in pairs, swept lane by lane through all 16-bit values, filled with boundary values and with every integer literal of the "
        "observed sources, related to each other, and drawn at random (uniform, sparse, dense, mutated). A case counts as non-trivial when "
        "the monitor had something to judge (the precondition of the property held), and as distinct by its input; distinct cases are "
        "counted in the build without assertions only, disjoint parts added up."
    )
    cov["stages"] = {}
    if ctx.thorough:
        plan = [("release", "thorough", 8, 1500), ("checked", "thorough", 8, 1500)]
        if "asan" in mon:
            plan.append(("asan", "quick", 8, 1200))
    else:
        plan = [("release", "quick", 4, 300), ("checked", "quick", 4, 300)]
    started = []
    for n, (flavour, tier, parts, limit) in enumerate(plan):
        # the two plain builds share the machine in the quick tier; otherwise one at a time
        s = explore(ctx, flavour, mon[flavour], tier, ctx.seed * 4 + n, parts, limit)
        started.append((flavour, s))
        if ctx.thorough:
            finish_stage(ctx, *started.pop())
    for st in started:
        finish_stage(ctx, *st)
    if guided and "traced" in mon:
        guide_stage(ctx, mon["traced"])


def finish_stage(ctx, flavour, s):
    outs, _, jobs = s
    res = collect(ctx, flavour, outs, jobs)
    ctx.cov["evaluations"] += res["evaluations"]
    if flavour == "release":
        ctx.cov["distinct_nontrivial"] = res["distinct_nontrivial"]
        ctx.cov["samples"] = res["samples"]
        for k in ("enumerated_completely", "dictionary", "distinct_values_observed"):
            if k in res:
                ctx.cov[k] = res[k]
    ctx.cov["stages"][flavour] = {k: res[k] for k in ("evaluations", "distinct_nontrivial", "cases_per_probe", "events_observed")}


def has_bytes(pid):
    return pid in ("C01", "C02", "C03", "C04", "C05", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C27", "C28", "C30")


def confirm(ctx, v, j):
    """The verdict is that of the plain builds: a guided case has to fail there, too."""
    for flavour in ("release", "checked"):
        b = os.path.join(B.TARGET, flavour, B.FLAVOURS[flavour][2], "monitor")
        r = run([b, "replay", ctx.pid, v["probe"], v["data"]], 120, env=B.env_for())
        if r.rc == 1 or (r.rc is not None and r.rc < 0 and r.rc != -9):
            probe_violation(ctx, v, flavour, j.cmd)


def guide_stage(ctx, mon):
    execs = 6_000_000 if ctx.thorough else 250_000
    limit = 1500 if ctx.thorough else 240
    outs = [os.path.join(ctx.work, f"guide-{k}.json") for k in range(8)]
    jobs = [Job([mon, "guide", ctx.pid, str(ctx.seed * 8 + k), str(execs), outs[k]], limit, env=B.env_for()) for k in range(8)]
    st = {"execs": 0, "kept": 0, "comparisons_observed": 0, "branches_reached": 0, "comparison_states": 0}
    for j in jobs:
        j.wait()
    for o, j in zip(outs, jobs):
        if j.timed_out:
            ctx.notes.append("a guided run did not end within its time limit; it is not counted")
            continue
        if j.rc not in (0, 1):
            try:
                with open(o + ".now") as f:
                    probe, data = f.read().split()
            except (OSError, ValueError):
                probe, data = None, None
            if probe and j.rc is not None and j.rc < 0 and j.rc != -9:
                confirm(ctx, {"probe": probe, "data": data, "message": f"the process dies of signal {-j.rc}"}, j)
            ctx.notes.append(f"a guided run ended with {j.rc}; it is not counted")
            continue
        with open(o) as f:
            d = json.load(f)
        if d["violation"]:
            confirm(ctx, d["violation"], j)
            ctx.notes.append(f"a guided case failed in the traced build only: {d['violation']}")
            continue
        for k in ("execs", "kept", "comparisons_observed"):
            st[k] += d[k]
        for k in ("branches_reached", "comparison_states"):
            st[k] = max(st[k], d[k])
        if len(ctx.cov["samples"]) < 16:
            ctx.cov["samples"] += d["samples"][:1]
    ctx.cov["stages"]["guided"] = st
    ctx.cov["evaluations"] += st["execs"]


def replay(pid, flavour, probe, data):
    d, _ = B.build(flavour)
    r = run([os.path.join(d, "monitor"), "replay", pid, probe, data], 300, env=B.env_for())
    sys.stdout.write(r.stdout + r.stderr)
    return r.rc


def known_findings(pid):
    """Open findings of this property (lines `known: property=<id> ...`)."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:") and f"property={pid} " in line + " ":
                    out.append(line[len("known:"):].strip().replace(f"property={pid}", "").strip())
    except OSError:
        pass
    return out


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        ok = True
        for f in ("release", "checked", "traced"):
            try:
                print(f"built {f}: {B.build(f)}")
            except B.BuildError as e:
                print(e)
                ok = ok and f == "traced"
        return 0 if ok else 1
    if a[:1] == ["replay"]:
        return replay(*a[1:5])
    if not a or a[0] not in ALL:
        print(__doc__)
        return 2
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    code, violations = 0, 0
    try:
        if pid == "C12":
            import prices
            prices.check(ctx)
        elif pid == "C25":
            import shared
            shared.check(ctx)
        elif pid == "C26":
            import safety
            safety.check(ctx)
        elif pid == "C31":
            import hosts
            hosts.check(ctx)
        else:
            check_probed(ctx)
        for k in known_findings(pid):
            print(f"KNOWN-FINDING: property={pid} {k}")
        if ctx.cov["evaluations"] == 0 or ctx.cov["distinct_nontrivial"] < 2:
            raise Inconclusive("the monitors observed nothing")
        print(f"{pid}: held on {ctx.cov['evaluations']} executions ({ctx.cov['distinct_nontrivial']} distinct, non-trivial)")
    except Violation as v:
        code, violations = 1, 1
        print(f"{pid}: {v.message}")
        print(f"VIOLATION property={pid} replay={v.replay}")
        ctx.cov["violation"] = v.message
    except Inconclusive as e:
        code = 2
        print(f"{pid}: no verdict: {e}")
        ctx.cov["no_verdict"] = str(e)[-2000:]
    except Exception:
        code = 2
        traceback.print_exc()
        ctx.cov["no_verdict"] = traceback.format_exc()[-2000:]
    ctx.cov["not_covered"] = ctx.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": ctx.cov, "assumptions": ASSUMPTIONS,
                   "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)
    for n in ctx.notes:
        print("note:", n)
    for top, dirs, files in os.walk(ctx.work, topdown=False):
        for x in files:
            os.remove(os.path.join(top, x))
        for x in dirs:
            os.rmdir(os.path.join(top, x))
    os.rmdir(ctx.work)
    return code


if __name__ == "__main__":
    # `import check` from the stages must see these very classes
    sys.modules["check"] = sys.modules["__main__"]
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
