"""Case context, workload runner, verdicts, evidence, known findings and replay."""
import collections
import hashlib
import json
import math
import multiprocessing
import os
import random
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT_BUDGET = 8_000_000  # library steps per case
Z_LIMIT = 7.0                # |z| allowed for a tally: two-sided p < 3e-12 each
MIN_VAR = 30.0               # tallies with less expected variance are not judged


class CaseFailed(Exception):
    def __init__(self, kind, message, mechanism=None):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message, self.mechanism = kind, message, mechanism


class Workload:
    def __init__(self, name, fn, quick, thorough, budget=DEFAULT_BUDGET, needs=()):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.budget = budget
        self.needs = tuple(needs)  # oracle kinds that must have been evaluated


class Ctx:
    """What one case records."""

    def __init__(self, seed, index, tier):
        self.seed, self.index, self.tier = seed, index, tier
        self.rng = np.random.default_rng(seed)
        self.oracles = collections.Counter()
        self.events = collections.Counter()
        self.tallies = {}
        self.keys = set()
        self.sample = None
        self.findings = []
        self.known = {}

    # -- oracle results
    def check(self, cond, kind, message="", mechanism=None):
        self.oracles[kind] += 1
        if not cond:
            if callable(message):
                message = message()
            if mechanism is not None and mechanism in self.known:
                self.findings.append((mechanism, f"{kind}: {message}"))
                return False
            raise CaseFailed(kind, message, mechanism)
        return True

    def close(self, value, expected, tol, kind, message=""):
        ok = bool(np.isfinite(value)) and abs(value - expected) <= tol
        return self.check(ok, kind, lambda: f"{message} got {value!r}, expected {expected!r} (tolerance {tol})")

    def rejects(self, kind, fn, what):
        """The call must raise an ordinary exception."""
        self.oracles[kind] += 1
        try:
            result = fn()
        except Exception:
            return
        raise CaseFailed(kind, f"accepted {what} and returned {result!r}")

    # -- evidence
    def event(self, name, n=1):
        self.events[name] += n

    def waive(self, *kinds):
        """These oracles cannot be evaluated on this implementation (not: this case); the evidence says so."""
        for kind in kinds:
            self.events["waived_" + kind] += 1

    def key(self, *parts):
        """Registers a distinct, non-trivial case by its defining parts."""
        digest = hashlib.sha1(repr(parts).encode()).digest()
        self.keys.add(int.from_bytes(digest[:8], "big"))

    def show(self, obj):
        if self.sample is None:
            self.sample = obj

    # -- statistics: sums over all cases of observed minus expected
    def tally(self, name, observed, expected, variance):
        self.oracles[name.split("|")[0]] += 1
        t = self.tallies.setdefault(name, [0.0, 0.0, 0.0, 0])
        t[0] += float(observed)
        t[1] += float(expected)
        t[2] += float(variance)
        t[3] += 1

    def bernoulli(self, name, hit, p):
        """One trial with success probability p; impossible outcomes fail at once."""
        if p <= 1e-15:
            self.check(not hit, name, f"an event of probability {p:.3g} happened")
        elif p >= 1.0:
            self.check(hit, name, "an event of probability one did not happen")
        else:
            self.tally(name, 1.0 if hit else 0.0, p, p * (1 - p))

    def spread(self, name, total, count, variance, fourth):
        """
        The square of a centred sum of count independent draws (per-draw variance and fourth central moment known):
        draws that are too even or too lumpy show here although every single one has the right distribution.
        """
        if count < 8 or count * variance < 1.5:
            return
        v = count * variance
        self.tally(name, total * total / v / 3, 1 / 3, (2 * v * v + count * (fourth - 3 * variance ** 2)) / v ** 2 / 9)

    def count_spread(self, name, hits, count, p):
        """The same for a number of hits, each with probability p."""
        self.spread(name, hits - count * p, count, p * (1 - p), p * (1 - p) * (1 - 3 * p * (1 - p)))

    def uniform(self, name, value01, bins=8):
        """One draw that should be uniform on [0,1]; judged by equal bins and by its mean."""
        self.check(-1e-12 <= value01 <= 1 + 1e-12, name, f"normalised draw {value01} outside [0,1]")
        b = min(int(value01 * bins), bins - 1)
        for i in range(bins):
            self.tally(f"{name}|bin{i}", float(i == b), 1 / bins, (bins - 1) / bins ** 2)
        # edges: draws that never come near an end
        self.tally(f"{name}|low1/64", float(value01 < 1 / 64), 1 / 64, 63 / 64 ** 2)
        self.tally(f"{name}|high1/64", float(value01 > 63 / 64), 1 / 64, 63 / 64 ** 2)
        self.tally(f"{name}|sum", value01, 0.5, 1 / 12)


def case_seed(seed, pid, workload, index):
    text = f"{seed}/{pid}/{workload}/{index}".encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:6], "big")


_STATE = {}


def _init_worker(pid, seed, tier, known):
    from .probe import Probe
    _STATE.update(pid=pid, seed=seed, tier=tier, known=known, probe=Probe())


def run_case(workload, index):
    from .probe import StepBudget
    st = _STATE
    seed = case_seed(st["seed"], st["pid"], workload.name, index)
    ctx = Ctx(seed, index, st["tier"])
    ctx.known = st["known"]
    np.random.seed(seed % 2 ** 32)
    random.seed(seed)
    probe = st["probe"]
    probe.begin(workload.budget)
    violation = None
    try:
        workload.fn(ctx)
    except CaseFailed as e:
        violation = dict(kind=e.kind, message=e.message[:4000], mechanism=e.mechanism)
    except StepBudget:
        violation = dict(kind="no_result", message=f"no result within {workload.budget} library steps", mechanism=None)
    except MemoryError:
        raise
    except Exception as e:  # the library (or what it returned) broke on a valid input
        violation = dict(kind="unexpected_exception", mechanism=None,
                         message=f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exc())[-3500:])
    steps = probe.end()
    if violation is not None:
        violation.update(workload=workload.name, index=index, case_seed=seed)
    return dict(workload=workload.name, index=index, oracles=dict(ctx.oracles), events=dict(ctx.events),
                tallies=ctx.tallies, keys=ctx.keys, sample=ctx.sample, violation=violation,
                findings=ctx.findings, steps=steps, lines=len(probe.lines) and set(probe.lines))


def _run_chunk(args):
    name, indices = args
    workload = _STATE["workloads"][name]
    return [run_case(workload, i) for i in indices]


def load_known(pid):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)["findings"]
    return {e["mechanism"]: e["what"] for e in entries if e["property"] == pid and e["status"] == "known"}


def judge_tallies(tallies):
    bad, judged, max_z = [], 0, (0.0, None)
    for name, (obs, exp, var, n) in sorted(tallies.items()):
        if var < MIN_VAR:
            continue
        judged += 1
        z = (obs - exp) / math.sqrt(var)
        max_z = max(max_z, (abs(z), name), key=lambda x: x[0])
        if abs(z) > Z_LIMIT:
            bad.append(dict(kind="distribution", mechanism=None, workload="*", index=-1, case_seed=-1,
                            message=f"{name}: observed {obs:.6g}, expected {exp:.6g} over {n} trials, z = {z:.1f}"))
    bad.sort(key=lambda v: -abs(float(v["message"].rsplit("z = ", 1)[1])))
    return bad, judged, max_z


def run_property(pid, workloads, rule, assumptions, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    known = load_known(pid)
    byname = {w.name: w for w in workloads}
    _STATE["workloads"] = byname
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "420" if tier == "quick" else "780"))

    if replay:
        with open(replay) as f:
            rec = json.load(f)
        seed, tier = rec["seed"], rec["tier"]
        if rec["index"] >= 0:
            _init_worker(pid, seed, tier, known)
            out = run_case(byname[rec["workload"]], rec["index"])
            print(json.dumps(out["violation"], indent=1) if out["violation"] else "no violation on replay")
            return 1 if out["violation"] else 0
        # a distribution verdict replays the whole run

    only = os.environ.get("VERIF_WORKLOAD")
    tasks = []
    for w in workloads:
        if only and w.name not in only.split(","):
            continue
        n = w.quick if tier == "quick" else w.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        n = max(1, int(round(n * scale)))
        size = max(1, min(16, n // 64))
        per = [(w.name, list(range(i, min(n, i + size)))) for i in range(0, n, size)]
        tasks += [(j / len(per), t) for j, t in enumerate(per)]
    tasks = [t for _, t in sorted(tasks, key=lambda x: x[0])]  # interleave the workloads

    procs = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))
    agg = dict(oracles=collections.Counter(), events=collections.Counter(), tallies={}, keys=set(), lines=set(),
               samples={}, cases=collections.Counter(), steps=0, max_steps=0)
    violations, findings = [], collections.OrderedDict()
    timed_out = False
    with multiprocessing.get_context("fork").Pool(procs, _init_worker, (pid, seed, tier, known)) as pool:
        it = pool.imap_unordered(_run_chunk, tasks)
        while True:
            try:
                chunk = it.next(timeout=max(1.0, deadline - time.time()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                timed_out = True
                break
            for r in chunk:
                agg["oracles"].update(r["oracles"])
                agg["events"].update(r["events"])
                agg["keys"] |= r["keys"]
                agg["cases"][r["workload"]] += 1
                agg["steps"] += r["steps"]
                agg["max_steps"] = max(agg["max_steps"], r["steps"])
                if r["lines"]:
                    agg["lines"] |= r["lines"]
                for k, t in r["tallies"].items():
                    a = agg["tallies"].setdefault(k, [0.0, 0.0, 0.0, 0])
                    for i in range(4):
                        a[i] += t[i]
                if r["sample"] is not None and len(agg["samples"].setdefault(r["workload"], [])) < 2:
                    agg["samples"][r["workload"]].append(r["sample"])
                for mech, msg in r["findings"]:
                    findings.setdefault(mech, msg)
                if r["violation"]:
                    violations.append(r["violation"])
            if len(violations) >= 20:
                pool.terminate()
                break
            if time.time() > deadline:
                timed_out = True
                pool.terminate()
                break
        if timed_out:
            pool.terminate()

    bad, judged, max_z = judge_tallies(agg["tallies"])
    violations += bad
    violations.sort(key=lambda v: (v["index"] < 0, v["index"]))
    wall = time.time() - t0

    missing = []
    for w in workloads:
        if only and w.name not in only.split(","):
            continue
        if agg["cases"][w.name] == 0:
            missing.append(f"workload {w.name} did not run")
        for kind in w.needs:
            if agg["oracles"][kind] == 0 and agg["events"]["waived_" + kind] == 0:
                missing.append(f"oracle {kind} ({w.name}) was never evaluated")

    replays = []
    if violations:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations[:3]):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, **v), f, indent=1, default=str)
            replays.append(path)

    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(agg["cases"].values()),
            distinct_nontrivial=len(agg["keys"]),
            rule=rule,
            samples=[dict(workload=k, case=s) for k, v in sorted(agg["samples"].items()) for s in v] or ["none"],
            cases_by_workload=dict(agg["cases"]),
            oracle_evaluations=dict(sorted(agg["oracles"].items())),
            observed_events=dict(sorted(agg["events"].items())),
            statistics=dict(tallies=len(agg["tallies"]), judged=judged, max_abs_z=round(max_z[0], 2), max_abs_z_of=max_z[1]),
            library_steps=agg["steps"], library_steps_max_case=agg["max_steps"],
            library_lines_reached=len(agg["lines"]),
            library_lines_by_file=dict(sorted(collections.Counter(f for f, _ in agg["lines"]).items())),
            stopped_at_deadline=timed_out,
            known_findings_seen=list(findings)),
        assumptions=assumptions, wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for mech, msg in findings.items():
        print(f"KNOWN-FINDING: property={pid} {known[mech]} [{mech}; e.g. {msg[:200]!r}]")
    n = sum(agg["cases"].values())
    print(f"{pid} {tier} seed={seed}: {n} cases, {len(agg['keys'])} distinct, "
          f"{sum(agg['oracles'].values())} oracle evaluations, {agg['steps']} library steps, "
          f"{len(agg['lines'])} library lines, {judged} statistics (max |z| {max_z[0]:.2f}), {wall:.1f}s")
    if violations:
        for v, path in zip(violations, replays):
            print(f"  {v['workload']}#{v['index']} {v['kind']}: {v['message'][:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    short = n < 0.5 * sum(len(t[1]) for t in tasks)
    if timed_out and tier == "quick" and short or missing:
        print("INCONCLUSIVE:", "; ".join(missing) or "deadline reached before all cases ran")
        return 2
    return 0
