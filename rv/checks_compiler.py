"""C11-C14: the STOQ search."""
import contextlib
import functools
import itertools
import math
import time

import numpy as np

from . import gen, ref
from .core import Workload
from .lib import (
    Compiler, ParameterizedUnitary, ParameterizedUnitaryDefinitions,
    ParameterizedUnitaryParameter, Unitary,
    UnitaryDefinitions, UnitaryPrimitive, Verification)
from .monitors import slow_machine

INF = 10 ** 9


def layer_counts(rng, prims, max_total=4):
    if rng.random() < 0.02:  # a thick layer
        few = [p.primitive for p in prims[:int(rng.integers(1, 4))]]
        return {p: int(rng.integers(1, 22)) for p in few}
    if rng.random() < 0.06:
        max_total = 9
        prims = prims[:4]
    elif len(prims) > 6:
        prims = prims[:3]
    while True:
        counts = {p.primitive: int(rng.integers(0 if len(prims) > 1 else 1, 3)) for p in prims}
        if 1 <= sum(counts.values()) <= max_total:
            return counts


def usable_probabilities(rng, prims, zeros=True):
    """A probability vector that leaves something usable."""
    while True:
        p = gen.probabilities(rng, len(prims), zeros)
        if sum(x for x, q in zip(p, prims) if q.allowed is None or len(q.allowed)) > 0.05:
            return p


class Problem:
    """A random compilation problem that can be run again and again with the same random stream."""

    def __init__(self, rng, layered, max_n=3, near=None, allow_empty=False, max_qubits=None):
        if max_qubits is None:
            max_qubits = 3 if rng.random() < 0.25 else 2
        self.n = int(rng.choice([1, 1, 2, 2, 3][:3 + max_n - 1]))
        if max_n == 3 and rng.random() < 0.02:
            self.n = int(rng.integers(4, 6))
        self.d = 2 ** self.n
        self.layered = layered
        self.prims = gen.primitive_set(rng, self.n, max_qubits, allow_empty=allow_empty and not layered)
        self.byname = {p.name: p for p in self.prims}
        self.counts = layer_counts(rng, self.prims)
        self.probs = usable_probabilities(rng, self.prims) if rng.random() < 0.4 else None
        self.append = float(rng.choice([0.5, 0.5, 0.3, 0.7, 1.0, 0.0]))
        self.rate = float(rng.choice([0.1, 0.1, 0.0, 1.0, 20.0]))
        self.seed = int(rng.integers(2 ** 31))
        r = rng.random()
        if r < 0.15:
            m = np.eye(self.d)
        elif r < 0.3:
            m, _ = gen.unitary(rng, self.d, "near_identity")
        elif r < 0.7:
            m, _ = gen.unitary(rng, self.d)
        else:  # reachable: a product of a few allowed operations
            usable = [p for p in self.prims if p.allowed is None or len(p.allowed)]
            mats = []
            for _ in range(int(rng.integers(1, 3))):
                p = usable[rng.integers(len(usable))]
                q = [int(x) for x in rng.permutation(self.n)[:p.qubits]] if p.allowed is None else p.allowed[rng.integers(len(p.allowed))]
                mats.append(ref.embed(p.fn(*[rng.uniform(lo, hi) for _, lo, hi, _ in p.ranges]), q, self.n))
            m = ref.product(mats, self.d)
        self.target_matrix = np.array(m, dtype=complex)
        self.target = Unitary(self.d, self.target_matrix, "T")
        self.threshold = [None, 1.0, 0.0, float(rng.uniform(0.2, 0.8)), float(rng.uniform(0.8, 1)), 0.9][rng.integers(6)]
        given = [p.primitive for p in self.prims]
        if rng.random() < 0.2:
            arr = np.empty(len(given), dtype=object)
            arr[:] = given
            given = arr
        self.given = given
        kwargs = dict(unitary_primitive_probabilities=self.probs, append_probability=self.append, annealing_rate=self.rate)
        if rng.random() < 0.3 and self.append == 0.5:
            del kwargs["append_probability"]
        if rng.random() < 0.3 and self.rate == 0.1:
            del kwargs["annealing_rate"]
        self.make = lambda: Compiler(self.d, given, **kwargs)
        self.compiler = self.make()

    def run(self, steps=None, compiler=None):
        np.random.seed(self.seed)
        c = compiler or self.compiler
        kw = {} if steps is None else dict(max_step_count=steps)
        if self.layered:
            return c.compile_layered(self.target, self.counts, self.threshold, **kw)
        return c.compile(self.target, self.threshold, **kw)

    def distance(self, s):
        return ref.hs_distance(gen.sequence_matrix(s.get_sequence_entries(), self.n), self.target_matrix)

    def limit(self):
        return 0.0 if self.threshold is None else 1.0 - self.threshold

    def describe(self):
        return dict(qubits=self.n, primitives=[p.describe() for p in self.prims], probabilities=self.probs, threshold=self.threshold,
                    append_probability=self.append, annealing_rate=self.rate, layered=self.layered,
                    layer=list(self.counts.values()) if self.layered else None)

    def key(self):
        return (self.n, tuple(p.name for p in self.prims), self.seed, self.threshold, self.append, self.rate, self.layered)


@functools.lru_cache(maxsize=None)
def same_trajectory():
    """Does a run with a smaller step limit follow the same path? It does as long as the library draws its random numbers step by step. If an
    implementation draws them ahead of time, the states in between cannot be recovered this way, and each run is only judged by itself."""
    state = np.random.get_state()
    other = 0
    try:
        for seed in range(8):
            prims = [UnitaryPrimitive(f()) for f in (ParameterizedUnitaryDefinitions.rotation_xyz, ParameterizedUnitaryDefinitions.xx)]
            target = Unitary(4, gen.haar(np.random.default_rng(seed), 4))
            traces = []
            for limit in (16, 12, 7, 3):
                np.random.seed(seed)
                traces.append(list(Compiler(4, prims).compile(target, None, limit).cost_by_step))
            other += any(t[:-1] != traces[0][:max(0, len(t) - 1)] for t in traces)
    except Exception:
        return True
    finally:
        np.random.set_state(state)
    return other < 4


# ------------------------------------------------------------------ C11

EDGE = 2e-8  # distances up to numpy's default tolerance (1e-8) count as zero
TIGHT = 1e-10  # otherwise states closer to the threshold than this are not judged as "should (not) have stopped"


def c11_trajectory(ctx, layered):
    """The whole trajectory, recovered by running the same random stream with every shorter step limit."""
    rng = ctx.rng
    p = Problem(rng, layered)
    steps = int(rng.choice([3, 8, 16, 16]))
    if rng.random() < 0.5:  # earlier compilations with the same compiler, of either kind
        for _ in range(int(rng.integers(1, 3))):
            p.layered = bool(rng.integers(2))
            p.run(int(rng.integers(0, 6)))
            time.sleep(0.003)
        p.layered = layered
        ctx.event("reused_compiler")
    stalled = bool(rng.random() < 0.25)
    t0 = time.perf_counter()
    with slow_machine(rng, stalled):
        full = p.run(steps)
    wall = time.perf_counter() - t0
    costs = list(full.cost_by_step)
    if stalled:
        ctx.event("slow_machine")
        ctx.check(full.total_elapsed_time >= 0.0, "elapsed", lambda: f"{full.total_elapsed_time} s on a slow machine")
    else:
        ctx.check(0.0 <= full.total_elapsed_time <= wall + 1e-3, "elapsed", lambda: f"{full.total_elapsed_time} of {wall} s measured")
    ctx.check(len(costs) <= steps, "step_limit", lambda: f"{len(costs)} steps with limit {steps}")
    for i, c in enumerate(costs):
        ctx.check(np.isfinite(c) and -1e-9 <= c <= 1 + 1e-9, "cost_range", lambda: f"cost {c} at step {i}")
    lim = p.limit()
    previous = None
    recovered = same_trajectory()
    ctx.event("trajectory_recovered" if recovered else "runs_judged_separately")
    for k in range(len(costs) + 1):
        r = full if k == len(costs) else p.run(k)
        got = list(r.cost_by_step)
        if not recovered and r is not full:
            ctx.check(len(got) <= k, "step_limit", lambda: f"{len(got)} steps with limit {k}")
            if got:
                ctx.close(got[-1], p.distance(r.compiled_sequence), 1e-9, "true_cost", f"limit {k} of {p.describe()}:")
            continue
        ctx.check(got == costs[:k], "cost_trace", lambda: f"with limit {k}: costs {got}, in the longer run {costs[:k]}")
        dist = p.distance(r.compiled_sequence)
        if k:
            ctx.close(got[-1], dist, 1e-9, "true_cost", f"step {k} of {p.describe()}:")
        diff = ref.phase_diff(r.compiled_sequence.product().get_matrix(), gen.sequence_matrix(r.compiled_sequence.get_sequence_entries(), p.n))
        ctx.check(diff < 1e-9, "result_product", lambda: f"the result's product is off by {diff}")
        if k < len(costs):
            ctx.check(dist > lim - TIGHT or dist > lim and lim > 0, "stops_when_reached",
                      lambda: f"continued after step {k} at distance {dist}, limit {lim}") if lim > 0 else \
                ctx.check(dist > 1e-9, "stops_when_reached", lambda: f"continued after step {k} at distance {dist}, limit {lim}")
        names = [(e.get_full_unitary(p.d).get_qasm()) for e in r.compiled_sequence.get_sequence_entries()]
        if previous is not None and abs(len(names) - len(previous)) > (sum(p.counts.values()) if layered else 1):
            ctx.check(False, "one_change_per_step", f"{previous} -> {names}")
        previous = names
        ctx.event("trajectory_point")
    final = p.distance(full.compiled_sequence)
    if len(costs) < steps:
        ctx.event("stopped_early")
        ctx.check(final <= lim + EDGE, "meets_threshold", lambda: f"stopped after {len(costs)} of {steps} steps at distance {final}, limit {lim}")
    else:
        ctx.event("ran_to_limit")
    if ref.hs_distance(np.eye(p.d), p.target_matrix) < lim - TIGHT:
        ctx.event("met_at_start")
        ctx.check(len(costs) == 0 and full.compiled_sequence.get_length() == 0, "stops_when_reached", "an already met target was not returned at once")
    ctx.key(*p.key(), steps)
    ctx.show(dict(p.describe(), steps=steps, taken=len(costs), costs=costs[:5]))


def c11_plain(ctx):
    c11_trajectory(ctx, False)


def c11_layered(ctx):
    c11_trajectory(ctx, True)


def c11_longrun(ctx):
    """Long runs with one compiler, some of them after earlier runs: limits, thresholds, cost of the result."""
    rng = ctx.rng
    p = Problem(rng, bool(rng.integers(2)))
    if rng.random() < 0.5:
        p.run(int(rng.integers(1, 50)))
    steps = int(rng.choice([50, 150, 400])) if p.n > 2 or rng.random() < 0.9 else int(10.0 ** rng.uniform(2.3, 3.3))
    with slow_machine(rng, bool(rng.random() < 0.3)):
        r = p.run(steps)
    costs = list(r.cost_by_step)
    dist = p.distance(r.compiled_sequence)
    lim = p.limit()
    ctx.check(len(costs) <= steps, "step_limit", lambda: f"{len(costs)} steps with limit {steps}")
    if costs:
        ctx.close(costs[-1], dist, 1e-9, "true_cost", "last step:")
    if len(costs) < steps:
        ctx.check(dist <= lim + EDGE, "meets_threshold", lambda: f"stopped after {len(costs)} steps at {dist}, limit {lim}")
        ctx.event("stopped_early")
    for i, c in enumerate(costs[:-1]):
        ctx.check(-1e-9 <= c <= 1 + 1e-9, "cost_range", lambda: f"{c}")
        ctx.check(c > (lim - TIGHT if lim > 0 else 1e-9), "stops_when_reached", lambda: f"continued after step {i + 1} at {c}, limit {lim}")
    for k in sorted(int(x) for x in rng.integers(1, len(costs), 2)) if len(costs) > 1 and same_trajectory() else []:
        q = p.run(k)  # the same run, cut short
        ctx.check(list(q.cost_by_step) == costs[:k], "cost_trace", lambda: f"with limit {k}: costs end in {list(q.cost_by_step)[-3:]}, in the longer run {costs[:k][-3:]}")
        ctx.close(costs[k - 1], p.distance(q.compiled_sequence), 1e-9, "true_cost", f"step {k} of {steps}:")
    ctx.key("long", *p.key(), steps)
    ctx.show(dict(p.describe(), steps=steps, taken=len(costs)))


def c11_boundary(ctx):
    """Thresholds a hair above and below the distance of a state on the path: the run ends at the first state that meets the threshold."""
    rng = ctx.rng
    p = Problem(rng, bool(rng.integers(2)))
    p.threshold = None
    steps = 20
    start = ref.hs_distance(np.eye(p.d), p.target_matrix)
    trace = [start] + list(p.run(steps).cost_by_step)
    usable = [c for c in trace if 1e-3 < c < 1 - 1e-3]
    for _ in range(4 if usable and same_trajectory() else 0):
        cost = usable[rng.integers(len(usable))]
        delta = float(rng.choice([1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9]) * rng.choice([1, -1]))
        p.threshold = 1.0 - (cost + delta)
        lim = p.limit()
        r = p.run(steps)
        want = next((i for i, c in enumerate(trace) if c <= lim), len(trace) - 1)
        if min(abs(c - lim) for c in trace) < 1e-10:
            continue
        ctx.check(len(r.cost_by_step) == want, "stops_at_boundary",
                  lambda: f"threshold {p.threshold!r}: {len(r.cost_by_step)} steps, not {want}; without one the distances are {trace}")
        ctx.event("just_above" if delta < 0 else "just_below")
    ctx.key("boundary", *p.key())
    ctx.show(dict(p.describe(), start=start))


def c11_exact(ctx):
    """Exactly reachable targets with the default step limit: the run must end, and end at the target."""
    rng = ctx.rng
    which = int(rng.integers(5))
    D = UnitaryDefinitions
    if which == 0:
        n, prims = 1, [UnitaryPrimitive(D.sigmax()), UnitaryPrimitive(D.sigmaz())]
        target = [ref.X, ref.Y, ref.Z][rng.integers(3)]
    elif which == 1:
        order = int(rng.integers(3, 7))
        n, prims = 1, [UnitaryPrimitive(D.rz(2 * np.pi / order))]
        target = ref.rot(ref.Z, 2 * np.pi / order * int(rng.integers(1, order // 2 + 1)))
    elif which == 2:
        n, prims = 2, [UnitaryPrimitive(D.cnot(), [[0, 1]]), UnitaryPrimitive(D.cnot(), [[1, 0]])]
        target = ref.bit_action(2, lambda b: (b[1], b[0])) if rng.random() < 0.5 else ref.bit_action(2, lambda b: (b[0] ^ b[1], b[0]))
    elif which == 3:
        n, prims = 1, [UnitaryPrimitive(D.h()), UnitaryPrimitive(D.rz(np.pi / 2))]
        target = ref.rot(ref.X, np.pi / 2)
    else:
        n, prims = 2, [UnitaryPrimitive(D.sigmax())]
        target = ref.kron(ref.X, ref.X)
    target = target * np.exp(1j * rng.uniform(-np.pi, np.pi))
    threshold = [None, 1.0][rng.integers(2)]
    layered = which == 1 and bool(rng.integers(2))
    # between these states no rise in cost ever stands in the way, so the default limit must not be needed
    limit = {} if which in (0, 1, 4) else dict(max_step_count=400)
    c = Compiler(2 ** n, prims)
    if layered:
        r = c.compile_layered(Unitary(2 ** n, target), {prims[0]: 1}, threshold, **limit)
    else:
        r = c.compile(Unitary(2 ** n, target), threshold, **limit)
    dist = ref.hs_distance(gen.sequence_matrix(r.compiled_sequence.get_sequence_entries(), n), target)
    costs = list(r.cost_by_step)
    if not limit or len(costs) < 400:
        ctx.check(dist < EDGE, "exact_reached", lambda: f"ended at distance {dist} with threshold {threshold}")
    for i, x in enumerate(costs[:-1]):
        ctx.check(x > 1e-9, "stops_when_reached", lambda: f"continued after step {i + 1} at exact distance {x}")
    if costs:
        ctx.close(costs[-1], dist, 1e-9, "true_cost", "last step:")
    ctx.event("exact_runs")
    ctx.key("exact", which, threshold, layered, len(costs), ctx.index)
    ctx.show(dict(case=which, threshold=threshold, layered=layered, steps=len(costs)))


# ------------------------------------------------------------------ C12

def check_layers(ctx, entries, prims, counts, n, where):
    """Whole layers with the requested counts; returns the decoded entries."""
    byname = {p.name: p for p in prims}
    size = sum(counts.values())
    ctx.check(len(entries) % size == 0, "whole_layers", lambda: f"{where}: {len(entries)} entries for layers of {size}")
    want = sorted(itertools.chain(*[[p.name] * counts.get(p.primitive, 0) for p in prims]))
    decoded = []
    for i in range(0, len(entries), size):
        layer = [gen.read_entry(ctx, e, byname, n) for e in entries[i:i + size]]
        got = sorted(p.name for p, *_ in layer)
        ctx.check(got == want, "layer_counts", lambda: f"{where}: layer {got}, expected {want}")
        decoded += layer
        ctx.event("layer")
    return decoded


def check_plain(ctx, entries, p, probs):
    zero = {q.name for q, x in zip(p.prims, probs) if x == 0.0} if probs is not None else set()
    for e in entries:
        q, *_ = gen.read_entry(ctx, e, p.byname, p.n)
        ctx.check(q.name not in zero, "zero_probability", lambda: f"{q.name} has probability zero")
        ctx.check(q.allowed is None or len(q.allowed) > 0, "no_allowed_qubits", lambda: f"{q.name} has no allowed qubits")
        ctx.event("entry")


def c12_entries(ctx):
    rng = ctx.rng
    p = Problem(rng, False, allow_empty=True)
    for _ in range(30):
        e = Compiler.create_random_sequence_entry(p.d, p.given, p.probs) if p.probs is not None or rng.random() < 0.5 \
            else Compiler.create_random_sequence_entry(p.d, p.given)
        check_plain(ctx, [e], p, p.probs)
    counts = layer_counts(rng, [q for q in p.prims if q.allowed is None or len(q.allowed)])
    usable = [q for q in p.prims if q.primitive in counts]
    for _ in range(5):
        check_layers(ctx, Compiler.create_random_layer(p.d, counts), usable, counts, p.n, "layer")
    ctx.key("entries", p.n, [q.describe() for q in p.prims], p.probs)
    ctx.show(p.describe())


def namesakes(rng, n):
    """Primitives that share their name and parameter name, differing in what they do, their range and their qubits."""
    prims = []
    same_range = bool(rng.integers(2))
    for i in range(int(rng.integers(2, 5))):
        q = gen.primitive(rng, n, "G", kind=str(rng.choice(["fixed", "fixed", "param"])))
        if q.ranges:
            g = gen.hermitian(rng, 2 ** q.qubits, "dense")
            lo, hi = (0.0, 1.0) if same_range else sorted(float(x) for x in rng.uniform(-3, 3, 2))
            fn = lambda v, g=g: ref.expi(g, v)
            q = gen.Prim("G", q.qubits, fn, [("p", lo, hi, True)], q.allowed,
                         ParameterizedUnitary(2 ** q.qubits, fn, [ParameterizedUnitaryParameter("p", lo, hi, True)], "G"))
        else:
            m = gen.haar(rng, 2 ** q.qubits)
            q = gen.Prim("G", q.qubits, lambda m=m: m, [], q.allowed, Unitary(len(m), np.array(m), "G"))
        prims.append(q)
    return prims


def which_namesake(ctx, entry, prims, n, kind):
    """The index of the primitive an entry is an instance of."""
    full = entry.get_full_unitary(2 ** n)
    qubits = [int(q) for q in entry.get_apply_to()]
    value = full.get_parameter_value("p")
    for i, q in enumerate(prims):
        if len(qubits) != q.qubits or q.allowed is not None and qubits not in [list(a) for a in q.allowed] or (value is None) != (not q.ranges):
            continue
        if q.ranges and not q.ranges[0][1] <= value[0] <= q.ranges[0][2]:
            continue
        if ref.phase_diff(full.get_matrix(), ref.embed(q.fn(*([value[0]] if q.ranges else [])), qubits, n)) < 1e-8:
            ctx.oracles[kind] += 1
            return i
    ctx.check(False, kind, f"an entry on {qubits} with parameter {value} is an instance of none of {[q.describe() for q in prims]}")


def c12_namesakes(ctx):
    """Primitives told apart by what they do, not by their names."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3]))
    prims = namesakes(rng, n)
    given = [q.primitive for q in prims]
    probs = usable_probabilities(rng, prims) if rng.random() < 0.6 else None
    target = Unitary(2 ** n, gen.haar(rng, 2 ** n))
    c = Compiler(2 ** n, given, probs, append_probability=0.8, annealing_rate=float(rng.choice([0.0, 0.1])))
    entries = [Compiler.create_random_sequence_entry(2 ** n, given, probs) for _ in range(10)]
    entries += c.compile(target, 0.999, 40).compiled_sequence.get_sequence_entries()
    entries += Verification.generate_rav_sequence(2 ** n, given, 5, 0.9, unitary_primitive_probabilities=probs, max_step_count=15).compiled_sequence.get_sequence_entries()
    for e in entries:
        i = which_namesake(ctx, e, prims, n, "namesake_entry")
        ctx.check(probs is None or probs[i] > 0, "zero_probability", lambda: f"primitive {i} has probability zero")
    counts = layer_counts(rng, prims)
    size = sum(counts.values())
    want = sorted(itertools.chain(*[[i] * counts.get(q.primitive, 0) for i, q in enumerate(prims)]))
    layers = [list(Compiler.create_random_layer(2 ** n, counts)),
              c.compile_layered(target, counts, 0.999, 10).compiled_sequence.get_sequence_entries(),
              Verification.generate_layered_rav_sequence(2 ** n, counts, 3, 0.9, max_step_count=8).compiled_sequence.get_sequence_entries(),
              Verification.generate_xeb_sequence(2 ** n, counts, 3).compiled_sequence.get_sequence_entries()]
    for entries in layers:
        ctx.check(len(entries) % size == 0, "namesake_layers", lambda: f"{len(entries)} entries for layers of {size}")
        for k in range(0, len(entries), size):
            got = sorted(which_namesake(ctx, e, prims, n, "namesake_entry") for e in entries[k:k + size])
            ctx.check(got == want, "namesake_layers", lambda: f"a layer of primitives {got}, expected {want}")
    ctx.key("namesakes", n, [q.describe() for q in prims], probs)
    ctx.show(dict(qubits=n, primitives=[q.describe() for q in prims], probabilities=probs))


def c12_compiled(ctx):
    """Compiled sequences at the end and at every intermediate step."""
    rng = ctx.rng
    p = Problem(rng, False, allow_empty=True)
    for steps in [int(rng.integers(1, 12)), int(rng.integers(20, 80))]:
        check_plain(ctx, p.run(steps).compiled_sequence.get_sequence_entries(), p, p.probs)
    if rng.random() < 0.5:
        r = Verification.generate_rav_sequence(p.d, p.given, int(rng.integers(0, 6)), 0.9, p.append, p.probs, int(rng.integers(1, 40)))
        check_plain(ctx, r.compiled_sequence.get_sequence_entries(), p, p.probs)
        ctx.event("rav")
    ctx.key("compiled", *p.key())
    ctx.show(p.describe())


def c12_layered(ctx):
    rng = ctx.rng
    p = Problem(rng, True)
    steps = int(rng.choice([6, 14, 60]))
    where = lambda k: f"{list(p.counts.values())} per layer, after {k} steps"
    for k in (range(1, steps + 1) if steps < 20 else [steps]):
        check_layers(ctx, p.run(k).compiled_sequence.get_sequence_entries(), p.prims, p.counts, p.n, where(k))
    r = Verification.generate_layered_rav_sequence(p.d, p.counts, int(rng.integers(0, 4)), float(rng.choice([0.0, 0.8, 1.0])), p.append,
                                                   max_step_count=int(rng.integers(0, 25)))
    check_layers(ctx, r.compiled_sequence.get_sequence_entries(), p.prims, p.counts, p.n, "layered RAV")
    r = Verification.generate_xeb_sequence(p.d, p.counts, int(rng.integers(0, 5)))
    check_layers(ctx, r.compiled_sequence.get_sequence_entries(), p.prims, p.counts, p.n, "XEB")
    ctx.key("layered", *p.key(), steps)
    ctx.show(dict(p.describe(), steps=steps))


@contextlib.contextmanager
def extreme_draws(rng):
    """Injected fault: the generators' uniform draws return their extreme values."""
    top = 1.0 - 2.0 ** -53
    saved = {k: getattr(np.random, k) for k in ("random_sample", "rand", "random")}

    def draw(size=None):
        if size is None:
            return float(rng.choice([0.0, top, 2.0 ** -53, 0.5]))
        return rng.choice([0.0, top, 2.0 ** -53, 0.5], size=size)
    np.random.random_sample = np.random.random = draw
    np.random.rand = lambda *shape: draw(shape or None)
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


def c12_extreme(ctx):
    """Awkward ranges and extreme draws: every value must be inside its range and acceptable to the gate itself."""
    rng = ctx.rng
    for _ in range(10):
        r = rng.integers(5)
        if r == 0:
            lo, hi = sorted(float(x) for x in 10.0 ** rng.uniform(-12, 6, 2) * rng.choice([-1, 1], 2))
        elif r == 1:
            lo = float(rng.normal())
            hi = float(np.nextafter(lo, np.inf))
        elif r == 2:
            lo, hi = 0, int(rng.integers(0, 5))
        elif r == 3:
            lo = hi = float(rng.normal())
        else:
            lo, hi = float(-rng.integers(1, 9) / 10), float(rng.integers(1, 9) / 10)
        param = ParameterizedUnitaryParameter("x", lo, hi, True)
        g = ParameterizedUnitary(2, lambda v: ref.rot(ref.Z, v), [param], "P")
        prim = UnitaryPrimitive(g)
        with extreme_draws(rng):
            for _ in range(12):
                v = param.random_value()
                ctx.check(lo <= v <= hi, "parameter_in_range", lambda: f"random value {v!r} outside [{lo!r}, {hi!r}]")
                ctx.check(bool(param.is_valid(v)), "parameter_in_range", lambda: f"is_valid({v!r}) is false in [{lo!r}, {hi!r}]")
        for _ in range(6):
            e = Compiler.create_random_sequence_entry(2, [prim])
            v = e.get_full_unitary(2).get_parameter_value("x")[0]
            ctx.check(lo <= v <= hi, "parameter_in_range", lambda: f"entry value {v!r} outside [{lo!r}, {hi!r}]")
        ctx.key("extreme", lo, hi)
    ctx.show(dict(range=[lo, hi]))


# ------------------------------------------------------------------ C13

def ladder_costs(theta, x, d):
    return lambda j: 1.0 - abs(np.cos((j * theta - x) / 2))


def stage(k, beta, cap):
    if beta >= cap:
        return "capped"
    return "1" if k == 1 else "2-4" if k < 5 else "5-20" if k <= 20 else "21-200" if k <= 200 else "201+"


def c13_ladder(ctx):
    """
    Commuting rungs: the state is the number of gates (or layers), and the cost tells which. Every step is one trial
    whose probabilities follow from the statement.
    """
    rng = ctx.rng
    n = int(rng.choice([1] * 15 + [2] * 10 + [3] * 5 + [4, 5]))
    d = 2 ** n
    cap = (2 ** d) ** 2
    p_append = float(rng.choice([0.5, 0.5, 0.3, 0.8, 1.0, 0.0]))
    layered = bool(rng.integers(2))
    regime = int(rng.integers(3 if n < 4 else 2))
    if regime == 0:      # growing beta
        rate, steps, scale = float(rng.choice([0.1, 0.5, 1.0])), 60, rng.uniform(0.3, 1.6)
    elif regime == 1:    # the very first steps
        rate, steps, scale = float(rng.uniform(1, 8)), 8, rng.uniform(0.4, 1.4)
    else:                # at the cap
        rate = float(rng.choice([cap * 0.3, cap, cap * 3]))
        steps, scale = 60, np.sqrt(8 * rng.uniform(0.2, 2.5) / cap)
        if n == 1:
            scale = float(rng.uniform(0.25, 1.0))
    if rng.random() < 0.12:
        rate = 0.0
    elif regime == 0 and n < 4 and rng.random() < 0.15:
        # a search that settles and then goes on for a long time
        rate, steps, scale = float(rng.choice([0.5, 2.0, 8.0])), int(rng.integers(250, 700)), rng.uniform(0.3, 1.6)
        p_append = float(rng.choice([1.0, 0.8, p_append]))
        ctx.event("long_ladder")
    theta = float(scale)
    x = float((rng.integers(-1, 5) + 0.3) * theta)
    gates = [UnitaryDefinitions.rz(theta)]
    counts = None
    if layered:
        parts = rng.dirichlet([1, 1]) * theta
        if rng.random() < 0.5:
            gates = [UnitaryDefinitions.rz(float(parts[0])), UnitaryDefinitions.rz(float(parts[1]))]
            mult = [1, 1]
        else:
            gates, mult = [UnitaryDefinitions.rz(theta / 2)], [2]
    prims = [UnitaryPrimitive(g, [[0]]) for g in gates]
    if layered:
        counts = dict(zip(prims, mult))
    kwargs = dict(append_probability=p_append, annealing_rate=rate)
    if p_append == 0.5 and rng.random() < 0.5:
        del kwargs["append_probability"]
    if rate == 0.1 and rng.random() < 0.7:
        del kwargs["annealing_rate"]
    rav = rng.random() < 0.25
    if rav:  # through the verification generators, which use the default annealing rate
        length = int(rng.integers(1, 6))
        x, rate, steps = -length * theta, 0.1, int(rng.choice([30, 60]))
    width = d  # sizes computed with numpy are numpy integers
    if n >= 4 or rng.random() < 0.1:
        width = [int, np.int64, np.int32][rng.integers(3)](d)
    c = Compiler(width, prims, **kwargs)
    target = Unitary(d, ref.embed(ref.rot(ref.Z, x), [0], n), "T")
    if not rav and rng.random() < 0.3:  # earlier use of the same compiler
        c.compile(target, None, int(rng.integers(1, 40)))
        ctx.event("reused_compiler")
    if rav:
        extra = {} if p_append == 0.5 and rng.random() < 0.5 else dict(stoq_append_probability=p_append)
        make = Verification.generate_layered_rav_sequence if layered else Verification.generate_rav_sequence
        costs = make(width, counts if layered else prims, length, 1.0, max_step_count=steps, **extra).cost_by_step
        ctx.event("rav_ladder")
    else:
        costs = (c.compile_layered(target, counts, None, steps) if layered else c.compile(target, None, steps)).cost_by_step
    cost = ladder_costs(theta, x, d)
    j, last_move = 0, "start"
    ctx.check(len(costs) == steps or min(costs) < 1e-7, "ladder_length", lambda: f"{len(costs)} of {steps} steps")
    kind = ("rav_" if rav else "") + ("layered" if layered else "plain")
    for k, got in enumerate(costs, 1):
        beta = min(k * rate, cap)
        options = {"stay": cost(j), "up": cost(j + 1)}
        if j > 0:
            options["down"] = cost(j - 1)
        match = [o for o, v in options.items() if abs(v - got) < 1e-9]
        ctx.check(len(match) >= 1, "ladder_step", lambda: f"step {k}: cost {got} from rung {j} is none of {options}")
        values = sorted(options.values())
        if any(b - a < 1e-8 for a, b in zip(values, values[1:])):
            ctx.event("ambiguous_rung")
            break
        move = match[0]
        delta_up = options["up"] - options["stay"]
        a_up = 1.0 if delta_up <= 0 else float(np.exp(-beta * delta_up))
        p_up = p_append * a_up
        st = f"{kind}|n{n}|{stage(k, beta, cap)}"
        ctx.bernoulli(f"step_up|{'raises' if delta_up > 0 else 'lowers'}|{st}", move == "up", p_up)
        ctx.bernoulli(f"step_up|{'raises' if delta_up > 0 else 'lowers'}|after_{last_move}|{kind}", move == "up", p_up)
        if j > 0:
            delta_down = options["down"] - options["stay"]
            a_down = 1.0 if delta_down <= 0 else float(np.exp(-beta * delta_down))
            ctx.bernoulli(f"step_down|{'raises' if delta_down > 0 else 'lowers'}|{st}", move == "down", (1 - p_append) * a_down)
            ctx.bernoulli(f"step_down|{'raises' if delta_down > 0 else 'lowers'}|after_{last_move}|{kind}", move == "down", (1 - p_append) * a_down)
            # sharper: given the change was small or large
            if delta_down > 0 and beta > 0:
                ctx.bernoulli(f"step_down|exponent{min(int(beta * delta_down * 2), 8)}|{kind}", move == "down", (1 - p_append) * a_down)
        if delta_up > 0 and beta > 0:
            ctx.bernoulli(f"step_up|exponent{min(int(beta * delta_up * 2), 8)}|{kind}", move == "up", p_up)
        if beta == 0:
            ctx.event("always_accepted_step")
        j += {"stay": 0, "up": 1, "down": -1}[move]
        last_move = move
        ctx.event("move_" + move)
    ctx.key("ladder", n, theta, x, rate, p_append, layered)
    ctx.show(dict(qubits=n, rung=theta, target=x, rate=rate, append_probability=p_append, layered=layered, steps=len(costs)))


def unique_primitive(name="V"):
    return gen.Prim(name, 1, lambda v: ref.rot(ref.X, v), [("v", 0.0, 1.0, False)], None,
                    ParameterizedUnitary(2, lambda v: ref.rot(ref.X, v), [ParameterizedUnitaryParameter("v", 0.0, 1.0, False)], name))


EXPONENTS = [0.02, 0.04, 0.07, 0.12, 0.2, 0.33, 0.45, 0.65, 0.9, 1.25, 1.7, 2.3, 3.0, 4.0, 5.5, 7.5]


def c13_single(ctx):
    """One proposal that raises the cost, over and over: the acceptance curve itself, point by point."""
    rng = ctx.rng
    n = int(rng.choice([1, 1, 2]))
    d = 2 ** n
    layered = bool(rng.integers(2))
    for exponent in rng.choice(EXPONENTS, 3, replace=False):
        off = float(rng.uniform(0.2, 0.8))
        theta = float(rng.uniform(0.5, 2.0))
        rise = np.cos(off / 2) - np.cos((off + theta) / 2)
        prim = UnitaryPrimitive(UnitaryDefinitions.rz(theta), [[0]])
        target = Unitary(d, ref.embed(ref.rot(ref.Z, -off), [0], n), "T")
        rate = exponent * float(rng.uniform(0.99, 1.01)) / rise
        c = Compiler(d, [prim], append_probability=1.0, annealing_rate=rate)
        kept = 0
        p = float(np.exp(-min(rate, (2 ** d) ** 2) * rise))
        for _ in range(40):
            r = c.compile_layered(target, {prim: 1}, None, 1) if layered else c.compile(target, None, 1)
            ctx.check(len(r.cost_by_step) == 1, "single_length", lambda: f"{len(r.cost_by_step)} steps of 1")
            up = abs(r.cost_by_step[0] - (1 - np.cos((off + theta) / 2))) < 1e-9
            ctx.check(up or abs(r.cost_by_step[0] - (1 - np.cos(off / 2))) < 1e-9, "single_step", lambda: f"cost {r.cost_by_step[0]}")
            ctx.bernoulli(f"acceptance|{exponent}|{'layered' if layered else 'plain'}", up, p)
            kept += up
        ctx.count_spread("acceptance_spread", kept, 40, p)
    ctx.key("single", n, layered, theta, off)
    ctx.show(dict(qubits=n, layered=layered, exponent=float(exponent), rise=float(rise), kept=int(kept)))


def c13_ends(ctx):
    """Which end changes: entries carry unique values, and runs with every shorter limit give each state."""
    rng = ctx.rng
    n = int(rng.choice([1, 2]))
    layered = bool(rng.integers(2))
    p_append = float(rng.choice([0.5, 0.6, 0.75, 1.0]))
    rate = float(rng.choice([0.0, 0.0, 0.0, 2.0]))
    steps = 16
    prims = [unique_primitive("V"), unique_primitive("W")]
    counts = {prims[0].primitive: int(rng.integers(1, 3)), prims[1].primitive: int(rng.integers(0, 2))}
    size = sum(counts.values()) if layered else 1
    c = Compiler(2 ** n, [p.primitive for p in prims], append_probability=p_append, annealing_rate=rate)
    target_matrix = gen.haar(rng, 2 ** n)
    target = Unitary(2 ** n, target_matrix)
    seed = int(rng.integers(2 ** 31))
    if not same_trajectory():
        return ctx.waive("one_end_changes", "rejected_unchanged", "end_append_first")
    last_move = "start"
    prev, prev_cost = [], ref.hs_distance(np.eye(2 ** n), target_matrix)
    for k in range(1, steps + 1):
        np.random.seed(seed)
        r = c.compile_layered(target, counts, None, k) if layered else c.compile(target, None, k)
        entries = r.compiled_sequence.get_sequence_entries()
        cur = [(e.get_full_unitary(2 ** n).get_operation_name(), tuple(int(q) for q in e.get_apply_to()),
                e.get_full_unitary(2 ** n).get_parameter_value("v")[0]) for e in entries]
        cost = ref.hs_distance(gen.sequence_matrix(entries, n), target_matrix)
        ctx.close(r.cost_by_step[-1], cost, 1e-9, "ends_cost", f"step {k}:")
        L = len(prev)
        if len(cur) == L:
            move = "none"
            ctx.check(cur == prev, "rejected_unchanged", lambda: f"{prev} -> {cur}")
        elif len(cur) == L + size:
            first, last = cur[size:] == prev, cur[:L] == prev
            ctx.check(first or last, "one_end_changes", lambda: f"{prev} -> {cur}")
            move = "append_any" if first and last else "append_first" if first else "append_last"
            fresh = cur[:size] if first else cur[L:]
            ctx.check(not set(v for *_, v in fresh) & set(v for *_, v in prev), "fresh_values", lambda: f"{prev} -> {cur}")
        elif len(cur) == L - size:
            first, last = prev[size:] == cur, prev[:L - size] == cur
            ctx.check(first or last, "one_end_changes", lambda: f"{prev} -> {cur}")
            move = "remove_any" if first and last else "remove_first" if first else "remove_last"
        else:
            ctx.check(False, "one_end_changes", lambda: f"{prev} -> {cur}")
        ctx.event(move)
        kind = "layered" if layered else "plain"
        if rate == 0.0:
            pa, pr = p_append / 2, (1 - p_append) / 2
            if L == 0:
                ctx.bernoulli(f"end_append_any|{kind}|{p_append}", move == "append_any", 2 * pa)
                ctx.bernoulli(f"end_none|{kind}|{p_append}", move == "none", 2 * pr)
            else:
                ctx.bernoulli(f"end_append_first|{kind}|{p_append}", move == "append_first", pa)
                ctx.bernoulli(f"end_append_last|{kind}|{p_append}", move == "append_last", pa)
                ctx.bernoulli(f"end_append_first|{kind}|after_{last_move}", move == "append_first", pa)
                ctx.bernoulli(f"end_append_last|{kind}|after_{last_move}", move == "append_last", pa)
                if L == size:
                    ctx.bernoulli(f"end_remove_any|{kind}|{p_append}", move == "remove_any", 2 * pr)
                else:
                    ctx.bernoulli(f"end_remove_first|{kind}|{p_append}", move == "remove_first", pr)
                    ctx.bernoulli(f"end_remove_last|{kind}|{p_append}", move == "remove_last", pr)
                    ctx.bernoulli(f"end_remove_first|{kind}|after_{last_move}", move == "remove_first", pr)
                    ctx.bernoulli(f"end_remove_last|{kind}|after_{last_move}", move == "remove_last", pr)
        else:
            # any downhill change is kept and both ends stay equally likely overall is not derivable; structure is judged above
            ctx.event("annealed_step")
        prev, prev_cost, last_move = cur, cost, move
    ctx.key("ends", n, layered, p_append, rate, seed)
    ctx.show(dict(qubits=n, layered=layered, append_probability=p_append, rate=rate, final_length=len(prev)))


def c13_greedy(ctx):
    """At very large beta no cost ever rises; at beta zero every proposal is kept (lengths always change unless empty)."""
    rng = ctx.rng
    p = Problem(rng, bool(rng.integers(2)), max_n=2)
    p.threshold = None
    hot = rng.random() < 0.5
    n_cap = (2 ** p.d) ** 2
    c = Compiler(p.d, p.given, p.probs, append_probability=0.6, annealing_rate=0.0 if hot else 1e6)
    steps = 80
    np.random.seed(p.seed)
    r = c.compile_layered(p.target, p.counts, None, steps) if p.layered else c.compile(p.target, None, steps)
    costs = [ref.hs_distance(np.eye(p.d), p.target_matrix)] + list(r.cost_by_step)
    if not hot:
        for k, (a, b) in enumerate(zip(costs, costs[1:])):
            # at the cap, exp(-cap * rise) bounds the chance of a rise
            ctx.check((b - a) * n_cap < 60, "no_large_rise", lambda: f"step {k + 1}: {a} -> {b} at the cap {n_cap}")
            if b > a + 1e-12:
                ctx.event("rise_at_cap")
    else:
        lengths = []
        for k in range(1, 13) if same_trajectory() else []:
            np.random.seed(p.seed)
            q = c.compile_layered(p.target, p.counts, None, k) if p.layered else c.compile(p.target, None, k)
            lengths.append(q.compiled_sequence.get_length())
            if len(q.cost_by_step) < k:
                break
        for a, b in zip([0] + lengths, lengths):
            if len(lengths) == 12:
                ctx.check(a != b or a == 0, "beta_zero_keeps_all", lambda: f"lengths {lengths}")
        grow = Compiler(p.d, p.given, p.probs, append_probability=1.0, annealing_rate=0.0)
        q = grow.compile_layered(p.target, p.counts, None, 30) if p.layered else grow.compile(p.target, None, 30)
        length, taken = q.compiled_sequence.get_length(), len(q.cost_by_step)
        ctx.check(length == taken * (sum(p.counts.values()) if p.layered else 1), "beta_zero_keeps_all", lambda: f"{length} entries after {taken} appending steps")
    ctx.key("greedy", *p.key(), hot)
    ctx.show(dict(p.describe(), hot=hot))


# ------------------------------------------------------------------ C14

def pbin(p):
    return f"p{int(p * 12)}"


def count_entry(ctx, name, prims, probs, decoded, tag):
    for q, p in zip(prims, probs):
        if p == 0:
            ctx.check(q.name != name, "primitive_frequency", lambda: f"{name} has probability zero")
        else:
            ctx.bernoulli(f"primitive_frequency|{tag}|{pbin(p)}", q.name == name, p)


def param_draws(ctx, prim, values, tag):
    us = []
    for j, (v, (_, lo, hi, _)) in enumerate(zip(values, prim.ranges)):
        if hi > lo:
            u = (v - lo) / (hi - lo)
            us.append(u)
            ctx.uniform(f"parameter_uniform|{tag}|{j}", u)
    for a, b in zip(us, us[1:]):
        ctx.tally(f"parameters_independent|{tag}", (a - 0.5) * (b - 0.5), 0.0, 1 / 144)
    return us


def qubit_draw(ctx, prim, qubits, n, tag):
    if prim.allowed is None:
        tuples = list(itertools.permutations(range(n), prim.qubits))
        if len(tuples) > 24:
            first = sorted(qubits)
            for t in itertools.combinations(range(n), prim.qubits):
                ctx.bernoulli(f"qubits_uniform|set{prim.qubits}of{n}|{t}", tuple(first) == t, 1 / math.comb(n, prim.qubits))
            for i, q in enumerate(qubits):
                for j in range(n):
                    ctx.bernoulli(f"qubits_uniform|position{i}of{prim.qubits}in{n}|{j}", q == j, 1 / n)
        if len(tuples) > 1:
            for t in tuples:
                ctx.bernoulli(f"qubits_uniform|any{prim.qubits}of{n}|{t}", tuple(qubits) == t, 1 / len(tuples))
    else:
        options = [tuple(a) for a in prim.allowed]
        if len(set(options)) > 1:
            for i, o in enumerate(options):
                if o not in options[:i]:
                    ctx.bernoulli(f"qubits_uniform|listed{len(options)}|{i}", tuple(qubits) == o, options.count(o) / len(options))


def c14_entries(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 4]))
    prims = gen.primitive_set(rng, n, 3 if rng.random() < 0.4 else 2, allow_empty=True)
    if n > 2 and rng.random() < 0.3:  # wide gates anywhere
        prims = [gen.primitive(rng, n, f"G{i}", max_qubits=3) for i in range(2)]
        for q in prims:
            q.allowed, q.primitive = None, UnitaryPrimitive(q.primitive.get_unitary())
    byname = {p.name: p for p in prims}
    usable = [p.allowed is None or len(p.allowed) > 0 for p in prims]
    probs = usable_probabilities(rng, prims) if rng.random() < 0.7 else None
    p = np.array(probs if probs is not None else [1.0] * len(prims)) * usable
    p = p / p.sum()
    given = [q.primitive for q in prims]
    mode = int(rng.integers(4))
    draws = 60
    if mode == 0:
        entries = [Compiler.create_random_sequence_entry(2 ** n, given, probs) for _ in range(draws)]
        tag = "entry"
    elif mode == 1:  # inside the compiler: all proposals are kept, all are appends
        c = Compiler(2 ** n, given, probs, append_probability=1.0, annealing_rate=0.0)
        entries = c.compile(Unitary(2 ** n, gen.haar(rng, 2 ** n)), 1.0, draws).compiled_sequence.get_sequence_entries()
        tag = "compiled"
    elif mode == 2:
        entries = Verification.generate_rav_sequence(2 ** n, given, draws, 0.0, unitary_primitive_probabilities=probs).compiled_sequence.get_sequence_entries()
        tag = "rav"
    else:  # the compiled part of a RAV sequence
        r = Verification.generate_rav_sequence(2 ** n, given, 3, 1.0, 1.0, probs, 40)
        entries = r.compiled_sequence.get_sequence_entries()[:3]
        tag = "rav"
    last_name, last_u = None, None
    drawn = {}
    for e in entries:
        # no full decoding here (C12 does that): name, parameters and qubits
        full = e.get_full_unitary(2 ** n)
        prim = byname.get(full.get_operation_name())
        ctx.check(prim is not None, "primitive_frequency", "unknown operation")
        values = [full.get_parameter_value(nm)[0] for nm, *_ in prim.ranges]
        count_entry(ctx, prim.name, prims, p, None, tag)
        us = param_draws(ctx, prim, values, tag)
        qubits = [int(q) for q in e.get_apply_to()]
        qubit_draw(ctx, prim, qubits, n, tag)
        drawn.setdefault(prim.name, []).append((us, qubits))
        if last_name is not None and np.max(p) < 0.999:
            ctx.bernoulli(f"draws_independent|{tag}|{pbin(float(np.sum(p ** 2)))}", last_name == prim.name, float(np.sum(p ** 2)))
        if us:
            if last_u is not None:
                ctx.tally(f"successive_parameters|{tag}", (us[0] - 0.5) * (last_u - 0.5), 0.0, 1 / 144)
                ctx.check(us[0] != last_u, "fresh_draws", "a parameter value was drawn twice in a row")
            last_u = us[0]
        last_name = prim.name
        ctx.event("entry_" + tag)
    # independent draws are neither too even nor too lumpy within one run
    one = int(rng.integers(len(prims)))  # the counts of several primitives of one run depend on each other
    for i, (prim, share) in enumerate(zip(prims, p)):
        mine = drawn.get(prim.name, [])
        if i == one and 0 < share < 1:
            ctx.count_spread(f"primitive_spread|{tag}", len(mine), len(entries), share)
        for column in zip(*[us for us, _ in mine]):
            ctx.spread(f"parameter_spread|{tag}", sum(u - 0.5 for u in column), len(column), 1 / 12, 1 / 80)
        options = [list(a) for a in prim.allowed] if prim.allowed is not None else [list(t) for t in itertools.permutations(range(n), prim.qubits)]
        hit = options.count(options[0]) / len(options) if options else 1.0
        if hit < 1:
            ctx.count_spread(f"qubits_spread|{tag}", sum(q == options[0] for _, q in mine), len(mine), hit)
    ctx.key("entries", n, [q.describe() for q in prims], probs, tag)
    ctx.show(dict(qubits=n, primitives=[q.describe() for q in prims], probabilities=probs, source=tag))


def c14_many(ctx):
    """Many qubit lists, many primitives, many parameters: all of them take part equally."""
    rng = ctx.rng
    kind = ["lists", "primitives", "parameters"][rng.integers(3)]
    n = int(rng.choice([4, 5])) if kind == "lists" else int(rng.integers(1, 3))
    d = 2 ** n

    def draw(primitives, probs=None):
        how = int(rng.integers(3))
        if how == 0 or how == 2 and probs is not None:
            return [Compiler.create_random_sequence_entry(d, primitives, probs) for _ in range(60)]
        if how == 1:
            return Verification.generate_rav_sequence(d, primitives, 60, 0.0, unitary_primitive_probabilities=probs).compiled_sequence.get_sequence_entries()
        return [e for _ in range(60 // len(primitives) + 1) for e in Compiler.create_random_layer(d, {p: 1 for p in primitives})]
    if kind == "lists":
        k = int(rng.choice([2, 2, 3]))
        tuples = list(itertools.permutations(range(n), k))
        count = int(rng.integers(6, len(tuples) + 1))
        lists = [list(tuples[i]) for i in rng.choice(len(tuples), count, replace=False)]
        prim = UnitaryPrimitive(Unitary(2 ** k, gen.haar(rng, 2 ** k), "L"), [list(a) for a in lists])
        places = []
        for e in draw([prim]):
            q = [int(x) for x in e.get_apply_to()]
            ctx.check(q in lists, "many_lists", lambda: f"placed on {q}, allowed {lists}")
            places.append(lists.index(q))
        options = count
    elif kind == "primitives":
        options = int(rng.integers(6, 60))
        names = [f"M{i}" for i in range(options)]
        prims = [UnitaryPrimitive(Unitary(2, gen.haar(rng, 2), nm)) for nm in names]
        probs = None if rng.random() < 0.5 else [1 / options] * options
        places = [names.index(e.get_full_unitary(d).get_operation_name()) for e in
                  ([Compiler.create_random_sequence_entry(d, prims, probs) for _ in range(60)] if rng.random() < 0.5 else
                   Verification.generate_rav_sequence(d, prims, 60, 0.0, unitary_primitive_probabilities=probs).compiled_sequence.get_sequence_entries())]
    else:
        options = int(rng.integers(4, 12))
        ranges = [(f"p{j}", *[float(x) for x in sorted(rng.uniform(-3, 3, 2))], bool(rng.integers(2))) for j in range(options)]
        fn = lambda *v: ref.rot(ref.X, sum(v))
        prim = UnitaryPrimitive(ParameterizedUnitary(2, fn, [ParameterizedUnitaryParameter(*r) for r in ranges], "W"))
        for e in draw([prim])[:40]:
            full = e.get_full_unitary(d)
            us = [(full.get_parameter_value(nm)[0] - lo) / (hi - lo) for nm, lo, hi, _ in ranges]
            for j, u in enumerate(us):
                ctx.uniform(f"many_parameters|{j}", u)
            for a, b in zip(us, us[1:]):
                ctx.tally("many_parameters_independent", (a - 0.5) * (b - 0.5), 0.0, 1 / 144)
            ctx.tally("many_parameters_independent|ends", (us[0] - 0.5) * (us[-1] - 0.5), 0.0, 1 / 144)
        places = []
    for place in places:
        u = (place + 0.5) / options
        ctx.tally(f"many_{kind}|mean", u, 0.5, (1 - 1 / options ** 2) / 12)
        ctx.tally(f"many_{kind}|square", (u - 0.5) ** 2, (1 - 1 / options ** 2) / 12,
                  float(np.var(((np.arange(options) + 0.5) / options - 0.5) ** 2)))
        ctx.bernoulli(f"many_{kind}|first", place == 0, 1 / options)
        ctx.bernoulli(f"many_{kind}|last", place == options - 1, 1 / options)
        for edge in (8, 16, 32):
            if options > edge:
                ctx.bernoulli(f"many_{kind}|from{edge}", place >= edge, (options - edge) / options)
    ctx.event("many_" + kind)
    ctx.key("many", kind, n, options, ctx.index)
    ctx.show(dict(kind=kind, qubits=n, options=options))


def c14_namesakes(ctx):
    """Frequencies of primitives that share their name."""
    rng = ctx.rng
    n = int(rng.choice([1, 2]))
    prims = namesakes(rng, n)
    given = [q.primitive for q in prims]
    probs = gen.probabilities(rng, len(prims), False) if rng.random() < 0.6 else None
    p = probs or [1 / len(prims)] * len(prims)
    last = None
    for _ in range(30):
        i = which_namesake(ctx, Compiler.create_random_sequence_entry(2 ** n, given, probs), prims, n, "namesake_entry")
        for k, x in enumerate(p):
            ctx.bernoulli(f"namesake_frequency|{'first' if k == 0 else 'last' if k == len(p) - 1 else 'middle'}|{pbin(x)}", i == k, x)
        if last is not None:
            ctx.bernoulli(f"namesake_independent|{pbin(sum(x * x for x in p))}", i == last, sum(x * x for x in p))
        last = i
        ctx.event("namesake")
    ctx.key("namesakes", n, [q.describe() for q in prims], probs)
    ctx.show(dict(qubits=n, primitives=[q.describe() for q in prims], probabilities=probs))


def c14_layers(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2]))
    prims = [unique_primitive(x) for x in "ABC"]
    shape = [(1, 1, 1), (2, 1, 0), (1, 1, 0), (2, 2, 0), (1, 1, 2)][rng.integers(5)]
    counts = {p.primitive: c for p, c in zip(prims, shape) if c or rng.random() < 0.5}
    base = "".join(p.name * c for p, c in zip(prims, shape))
    orders = sorted(set("".join(o) for o in itertools.permutations(base)))
    p = 1 / len(orders)
    last = None
    seen, values = [], {}
    for _ in range(20):
        source = int(rng.integers(2))
        if source == 0:
            entries = Compiler.create_random_layer(2 ** n, counts)
        else:
            entries = Verification.generate_xeb_sequence(2 ** n, counts, 1).compiled_sequence.get_sequence_entries()
        got = "".join(e.get_full_unitary(2 ** n).get_operation_name() for e in entries)
        ctx.check(got in orders, "layer_order", lambda: f"{got} is no order of {base}")
        for o in orders:
            ctx.bernoulli(f"layer_order|{base}|{o}", got == o, p)
        if last is not None:
            ctx.bernoulli(f"layers_independent|{base}", got == last, p)
        last = got
        us = []
        for e in entries:
            u = e.get_full_unitary(2 ** n).get_parameter_value("v")[0]
            ctx.uniform("layer_parameter", u)
            us.append(u)
            values.setdefault(e.get_full_unitary(2 ** n).get_operation_name(), []).append(u)
            if n == 2:
                ctx.bernoulli("layer_qubit", list(e.get_apply_to()) == [1], 0.5)
        for a, b in zip(us, us[1:]):
            ctx.tally("layer_parameters_independent", (a - 0.5) * (b - 0.5), 0.0, 1 / 144)
        seen.append(got)
        ctx.event("layer")
    if len(orders) > 1:
        ctx.count_spread(f"layer_spread|{base}", seen.count(orders[0]), len(seen), p)
    for column in values.values():
        ctx.spread("layer_parameter_spread", sum(u - 0.5 for u in column), len(column), 1 / 12, 1 / 80)
    # two layers added by layered compilation (everything kept, only appends): each is a fresh random layer
    c = Compiler(2 ** n, [q.primitive for q in prims], append_probability=1.0, annealing_rate=0.0)
    entries = c.compile_layered(Unitary(2 ** n, gen.haar(rng, 2 ** n)), counts, 1.0, 4).compiled_sequence.get_sequence_entries()
    size = len(base)
    for i in range(0, len(entries), size):
        got = "".join(e.get_full_unitary(2 ** n).get_operation_name() for e in entries[i:i + size])
        for o in orders:
            ctx.bernoulli(f"compiled_layer_order|{base}|{o}", got == o, p)
    ctx.key("layers", n, shape, ctx.index)
    ctx.show(dict(qubits=n, layer=base, last_order=last))


def c14_values(ctx):
    rng = ctx.rng
    lo, hi = sorted(float(x) for x in rng.normal(size=2) * 10.0 ** rng.uniform(-3, 3))
    r = rng.random()
    if r < 0.15:
        lo, hi = int(-3), int(5)
    elif r < 0.35:  # a narrow range, perhaps far from zero
        width = 10.0 ** rng.uniform(-9, -3)
        lo = float(rng.choice([0.0, -width / 2, rng.normal(), rng.normal() * 100 if width > 1e-6 else 0.0]))
        hi = lo + width
        ctx.event("narrow_range")
    param = ParameterizedUnitaryParameter("x", lo, hi, bool(rng.integers(2)))
    last = None
    total, draws = 0.0, int(rng.choice([16, 40, 80, 80]))
    for _ in range(draws):
        v = param.random_value()
        u = (v - lo) / (hi - lo)
        total += u - 0.5
        ctx.uniform("value_uniform", u)
        if last is not None:
            ctx.tally("values_independent", (u - 0.5) * (last - 0.5), 0.0, 1 / 144)
            ctx.check(u != last, "fresh_draws", "the same value twice in a row")
        last = u
        ctx.event("value")
    ctx.spread("values_spread", total, draws, 1 / 12, 1 / 80)
    ctx.key("values", lo, hi)
    ctx.show(dict(range=[lo, hi]))


def c14_haar(ctx):
    """Moments of random operations that hold for Haar-distributed unitaries, whatever the global phase."""
    rng = ctx.rng
    d = int(rng.choice([2, 2, 3, 4, 4, 8])) if rng.random() < 0.85 else int(rng.choice([9, 16, 17, 20, 32, 33, 64]))
    group = d if d < 9 else "large"
    previous = None
    for _ in range(25):
        m = Unitary.random(d).get_matrix()
        for tag, x in (("single", m),) + ((("successive", previous.conj().T @ m),) if previous is not None else ()):
            t = abs(np.trace(x)) ** 2
            ctx.tally(f"haar|trace2|{tag}|{group}", t, 1.0, 1.0)
            ctx.tally(f"haar|trace4|{tag}|{group}", t * t, 2.0, 20.0)
            ctx.tally(f"haar|square_trace2|{tag}|{group}", abs(np.trace(x @ x)) ** 2, 2.0, 12.0)
            i, j = 0, d - 1
            var = (d - 1) / (d * d * (d + 1))
            for a, b in ((0, 0), (0, d - 1), (d - 1, 0), (1, 1)):
                ctx.tally(f"haar|entry{a}{b}|{tag}|{d}", abs(x[a, b]) ** 2, 1 / d, var)
                ctx.tally(f"haar|entry4{a}{b}|{tag}|{d}", abs(x[a, b]) ** 4, 2 / (d * (d + 1)), 24 / d ** 4)
            z = x[i, j] * np.conj(x[0, 0])
            ctx.tally(f"haar|phase_re|{tag}|{d}", z.real, 0.0, 1 / (d * (d + 1)))
            ctx.tally(f"haar|phase_im|{tag}|{d}", z.imag, 0.0, 1 / (d * (d + 1)))
            # real (orthogonal) matrices would have equal-phase entries
            w = (x[0, 0] * np.conj(x[0, 1])) ** 2
            ctx.tally(f"haar|phase2|{tag}|{d}", w.real, 0.0, 1 / d ** 2)
        previous = m
        ctx.event("random_operation")
    ctx.oracles["haar"] += 25
    ctx.key("haar", d, ctx.index)
    ctx.show(dict(dimension=d))


PROPERTIES = {
    "C11": dict(
        workloads=[Workload("boundary", c11_boundary, 60, 2500),
                   Workload("plain", c11_plain, 250, 12000, needs=["true_cost", "cost_trace", "stops_when_reached", "elapsed"]),
                   Workload("layered", c11_layered, 150, 7000, needs=["true_cost", "cost_trace"]),
                   Workload("longrun", c11_longrun, 100, 4000, needs=["meets_threshold"]),
                   Workload("exact", c11_exact, 150, 6000, needs=["exact_reached"])],
        rule="Random compilation problems (1-3 qubits, primitives, thresholds None/1/0/between, probabilities, rates); each trajectory recovered state by state by "
             "re-running the random stream with every shorter limit; thresholds just below and above costs the run itself met; clocks that jump. Distinct by problem, random stream and limit.",
        assumptions=["a run with a smaller step limit follows the same trajectory (probed; where it does not, each run is judged by itself)",
                     "states within 1e-10 of the threshold, or 2e-8 of zero distance, are not judged for stopping"]),
    "C12": dict(
        workloads=[Workload("entries", c12_entries, 250, 10000, needs=["known_primitive", "parameter_in_range", "allowed_qubits", "entry_matrix", "zero_probability"]),
                   Workload("compiled", c12_compiled, 150, 6000),
                   Workload("layered", c12_layered, 150, 6000, needs=["whole_layers", "layer_counts"]),
                   Workload("namesakes", c12_namesakes, 60, 2500, needs=["namesake_entry", "namesake_layers"]),
                   Workload("extreme", c12_extreme, 100, 3000)],
        rule="Random primitive sets with connectivity lists (some empty), zero probabilities and layer compositions; every entry decoded and its matrix recomputed from "
             "name, parameters and qubits; extreme draws injected; several primitives of one name. Distinct by primitive set, probabilities and random stream.",
        assumptions=["primitives are identified by unique names (by matrix in the namesakes workload)"]),
    "C13": dict(
        workloads=[Workload("ladder", c13_ladder, 1500, 50000, needs=["step_up", "step_down", "ladder_step"]),
                   Workload("ends", c13_ends, 160, 6000, needs=["one_end_changes", "rejected_unchanged", "end_append_first"]),
                   Workload("single", c13_single, 300, 12000, needs=["acceptance"]),
                   Workload("greedy", c13_greedy, 80, 3000)],
        rule="Commuting rungs where the cost identifies the state: each step is a trial with known probabilities, tallied by step number, size of the rise and "
             "annealing stage, and by the previous move; single proposals at fixed exponents; unique gates to see which end changed. Distinct by parameters and random stream.",
        assumptions=["tallies are judged at |z| > 7 when the expected variance exceeds 30; outcomes of probability zero or one fail at once"]),
    "C14": dict(
        workloads=[Workload("entries", c14_entries, 500, 25000, needs=["primitive_frequency", "parameter_uniform", "qubits_uniform"]),
                   Workload("namesakes", c14_namesakes, 100, 4000, needs=["namesake_frequency"]),
                   Workload("many", c14_many, 90, 4000, needs=["many_lists", "many_primitives", "many_parameters"]),
                   Workload("layers", c14_layers, 300, 12000, needs=["layer_order"]),
                   Workload("values", c14_values, 200, 6000),
                   Workload("haar", c14_haar, 250, 8000, needs=["haar"])],
        rule="Frequencies over draws from random primitive sets and probability vectors, tallied by probability, parameter position, qubit list and layer order (also with up to 60 lists or primitives and 11 parameters), in direct, "
             "compiled and RAV use; dispersion of counts within runs; Haar moments. Distinct by primitive set, probabilities or range.",
        assumptions=["tallies are judged at |z| > 7 when the expected variance exceeds 30"]),
}
