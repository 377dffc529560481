"""C15-C17: product formulas, QDRIFT, STOQ and RAV from Hamiltonians."""
import copy
import itertools
import random

import numpy as np

from . import gen, ref
from .checks_compiler import same_trajectory
from .core import Workload
from .lib import Hamiltonian, HamiltonianTerm
from .monitors import slow_machine


class Ham:
    """A Hamiltonian together with the harness's own term matrices."""

    def __init__(self, rng, max_n=3, max_terms=4, commuting=None, strength=None, min_terms=1, many=None):
        self.n = int(rng.integers(1, max_n + 1)) if rng.random() < 0.97 else max_n + int(rng.integers(1, 3))
        self.d = 2 ** self.n
        count = int(rng.integers(min_terms, max_terms + 1)) if many is None else many
        self.commuting = bool(rng.random() < 0.2) if commuting is None else commuting
        if self.commuting:
            q = gen.haar(rng, self.d)
            self.mats = [q @ np.diag(rng.normal(size=self.d)) @ q.conj().T for _ in range(count)]
            self.mats = [(m + m.conj().T) / 2 for m in self.mats]
        else:
            self.mats = [gen.hermitian(rng, self.d) for _ in range(count)]
        scales = 10.0 ** rng.uniform(-1.5, 0.7, count)
        equal = not self.commuting and strength is None and rng.random() < 0.25
        if equal:  # terms of exactly equal strength that differ only in what they do
            self.mats = [gen.pauli_string(rng, self.n) for _ in range(count)]
            scales = rng.choice([0.25, 0.5, 1.0, 2.0], count) if rng.random() < 0.5 else np.full(count, rng.choice([0.25, 0.7, 1.0]))
        if strength is not None:
            scales = scales / scales.sum() * strength
        self.mats = [m / max(np.linalg.norm(m, 2), 1e-9) * s for m, s in zip(self.mats, scales)]
        if equal:
            self.mats = [m * rng.choice([-1, 1]) for m in self.mats]
        if count > 1 and rng.random() < 0.15:
            self.mats[-1] = self.mats[0].copy()  # equal terms
        terms = [HamiltonianTerm(m.copy()) for m in self.mats]
        if count > 2 and rng.random() < 0.1:
            terms[1], self.mats[1] = terms[0], self.mats[0]  # the very same term object
        self.ham = Hamiltonian(terms)
        self.total = np.sum(self.mats, axis=0)
        self.coefficients = np.array([np.linalg.norm(m, 2) for m in self.mats])

    def twin(self, rng):
        """A Hamiltonian of the same shape and exactly the same strengths whose terms act differently."""
        other = copy.copy(self)
        kind = int(rng.integers(3))
        if kind == 0:
            other.mats = [-m for m in self.mats]
        elif kind == 1:
            flip = np.diag(rng.choice([-1.0, 1.0], self.d))
            other.mats = [flip @ m.conj() @ flip for m in self.mats]
        else:
            other.mats = self.mats[::-1]
        other.ham = Hamiltonian([HamiltonianTerm(m.copy()) for m in other.mats])
        other.total = np.sum(other.mats, axis=0)
        other.coefficients = np.array([np.linalg.norm(m, 2) for m in other.mats])
        return other

    def exact(self, t):
        return ref.expi(self.total, t)

    def describe(self):
        return dict(qubits=self.n, coefficients=[round(float(c), 4) for c in self.coefficients], commuting=self.commuting)


def pick_time(rng):
    return float(rng.choice([rng.uniform(0.05, 2), rng.uniform(0.05, 2), -rng.uniform(0.05, 2), 0.0, rng.uniform(2, 8)]))


def neighbours(ctx, h, t, count):
    """
    Other work in the same process before the judged call: twins of the Hamiltonian in the very same role, and the same
    object with other arguments. Yields (hamiltonian, time, count).
    """
    rng = ctx.rng
    if rng.random() < 0.4:
        yield h.twin(rng), t, count
        ctx.event("after_twin")
    if rng.random() < 0.3:
        yield h, float(t * rng.choice([-1.0, 0.5, 2.0, 1 + 1e-6])), count
        ctx.event("after_other_time")
    if rng.random() < 0.3:
        k = int(rng.choice([2, 3]))  # the same step, or the same time
        yield (h, t * k, count * k) if rng.random() < 0.5 and count * k < 60 else (h, t, count + k)
        ctx.event("after_other_count")


def classes(mats):
    """Labels equal matrices (up to phase) alike."""
    out = []
    for m in mats:
        for i, other in enumerate(mats[:len(out)]):
            if ref.phase_diff(m, other) < 1e-6:
                out.append(out[i])
                break
        else:
            out.append(len(out))
    return out


def decode(ctx, entry, n, kind):
    full = entry.get_full_unitary(2 ** n)
    ctx.check([int(q) for q in entry.get_apply_to()] == list(range(n)), kind, lambda: f"entry on qubits {entry.get_apply_to()} of {n}")
    return full.get_matrix(), full.get_operation_name(), full.get_parameter_value("t")


# ------------------------------------------------------------------ C15

LAGS = [2, 3, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024]


def c15_trotter(ctx):
    rng = ctx.rng
    many = int(rng.integers(9, 14)) if rng.random() < 0.05 else None
    deep = many is None and rng.random() < 0.01
    h = Ham(rng, max_n=1, max_terms=2) if deep else Ham(rng, many=many)
    t = pick_time(rng)
    steps = int(rng.choice([1, 2, 3, 5, 10, 25])) if many is None else int(rng.integers(1, 4))
    if deep:
        steps = int(10.0 ** rng.uniform(2, 3.5))
    if many is None and not deep and rng.random() < 0.02:
        steps = int(rng.integers(101, 300))
    randomize = bool(rng.integers(2))
    for other, t2, steps2 in neighbours(ctx, h, t, steps):
        other.ham.get_trotter_sequence(t2, steps2, bool(rng.integers(2)))
    if randomize:
        s = h.ham.get_trotter_sequence(t, steps, True) if rng.random() < 0.5 else h.ham.get_trotter_sequence(t, steps, randomize=True)
    else:
        s = h.ham.get_trotter_sequence(t, steps) if rng.random() < 0.5 else h.ham.get_trotter_sequence(t, num_trotter_steps=steps, randomize=False)
    T = len(h.mats)
    entries = s.get_sequence_entries()
    ctx.check(len(entries) == T * steps and s.get_length() == T * steps and s.get_dimension() == h.d, "trotter_length",
              lambda: f"{len(entries)} entries for {steps} steps of {T} terms")
    parts = [ref.expi(m, t / steps) for m in h.mats]
    labels = classes(parts)
    orders = []
    for k in range(steps):
        found = []
        for e in entries[k * T:(k + 1) * T]:
            m, _, value = decode(ctx, e, h.n, "trotter_term")
            match = [i for i, p in enumerate(parts) if ref.phase_diff(m, p) < 1e-9]
            ctx.check(len(match) > 0, "trotter_term", lambda: f"step {k} applies none of the terms for {t}/{steps}")
            ctx.check(value is not None and abs(value[0] - t / steps) <= 1e-12 * max(1, abs(t)), "trotter_time", lambda: f"entry time {value}, not {t / steps}")
            found.append(labels[match[0]])
        ctx.check(sorted(found) == sorted(labels), "trotter_each_once", lambda: f"step {k} applies terms {found}, expected {labels}")
        if not randomize:
            ctx.check(found == labels, "trotter_order", lambda: f"step {k} applies terms in order {found}, expected {labels}")
        orders.append(tuple(found))
        ctx.event("trotter_step")
    if randomize and len(set(labels)) == T and 2 <= T <= 3:
        perms = list(itertools.permutations(labels))
        for a in orders:
            for j, p in enumerate(perms):
                ctx.bernoulli(f"trotter_shuffled|{T}|{j}", a == p, 1 / len(perms))
        ctx.count_spread(f"trotter_order_spread|{T}", sum(a == perms[0] for a in orders), steps, 1 / len(perms))
        for a, b in zip(orders, orders[1:]):
            ctx.bernoulli(f"trotter_reshuffled|{T}", a == b, 1 / len(perms))
        for lag in LAGS:
            for a, b in zip(orders, orders[lag:]):
                ctx.bernoulli(f"trotter_lag|{lag}", a == b, 1 / len(perms))
    # distance from the exact evolution
    bound = 0.0
    for a, b in itertools.combinations(h.mats, 2):
        bound += np.linalg.norm(a @ b - b @ a, 2)
    eps = t * t / (2 * steps) * bound
    dist = ref.hs_distance(s.product().get_matrix(), h.exact(t))
    ctx.check(dist <= min(1.0, eps * eps / 2) + 1e-10, "trotter_bound", lambda: f"distance {dist} above the bound {eps * eps / 2} ({steps} steps)")
    if h.commuting:
        ctx.event("commuting")
    if eps < 0.5 and eps > 1e-3:
        ctx.event("meaningful_bound")
    ctx.key("trotter", h.n, T, t, steps, randomize)
    ctx.show(dict(h.describe(), time=t, steps=steps, randomize=randomize, distance=dist))


def c15_ideal(ctx):
    rng = ctx.rng
    h = Ham(rng)
    t = pick_time(rng)
    steps = int(rng.choice([1, 2, 3, 7, 30])) if h.n > 2 or rng.random() < 0.98 else int(10.0 ** rng.uniform(2, 3.5))
    for other, t2, steps2 in neighbours(ctx, h, t, steps):
        other.ham.get_ideal_sequence(t2, steps2)
    s = h.ham.get_ideal_sequence(t, steps)
    entries = s.get_sequence_entries()
    ctx.check(len(entries) == steps and s.get_dimension() == h.d, "ideal_length", lambda: f"{len(entries)} entries for {steps} steps")
    step = h.exact(t / steps)
    for e in entries:
        m, _, value = decode(ctx, e, h.n, "ideal_step")
        ctx.check(ref.phase_diff(m, step) < 1e-9, "ideal_step", lambda: f"a step is off by {ref.phase_diff(m, step)}")
        ctx.check(value is not None and abs(value[0] - t / steps) <= 1e-12 * max(1, abs(t)), "ideal_time", lambda: f"step time {value}, not {t / steps}")
    diff = ref.phase_diff(s.product().get_matrix(), h.exact(t))
    ctx.check(diff < 1e-9, "ideal_product", lambda: f"product off by {diff}")
    ctx.key("ideal", h.n, t, steps)
    ctx.show(dict(h.describe(), time=t, steps=steps))


def c15_convergence(ctx):
    """The error of one Hamiltonian over growing step counts, with and without shuffling."""
    rng = ctx.rng
    h = Ham(rng, max_n=2, max_terms=3, commuting=False, strength=float(rng.uniform(0.5, 2)), min_terms=2)
    t = float(rng.uniform(0.3, 1.5) * rng.choice([-1, 1]))
    bound = sum(np.linalg.norm(a @ b - b @ a, 2) for a, b in itertools.combinations(h.mats, 2))
    exact = h.exact(t)
    distances = []
    for steps in (1, 4, 16, 64):
        for randomize in (False, True):
            m = h.ham.get_trotter_sequence(t, steps, randomize).product().get_matrix()
            eps = t * t / (2 * steps) * bound
            dist = ref.hs_distance(m, exact)
            ctx.check(dist <= eps * eps / 2 + 1e-10, "trotter_bound", lambda: f"distance {dist} above {eps * eps / 2} at {steps} steps")
            distances.append(dist)
    ctx.key("convergence", h.n, t)
    ctx.show(dict(h.describe(), time=t, distances=distances))


# ------------------------------------------------------------------ C16

def lagged(ctx, order, probs):
    """Draws do not repeat earlier ones at any distance more often than independent draws do."""
    for lag in LAGS:
        for a, b in zip(order, order[lag:]):
            ctx.bernoulli(f"qdrift_lag|{lag}", a == b, probs[a])


def c16_entries(ctx):
    rng = ctx.rng
    h = Ham(rng, max_n=2, max_terms=5, many=int(rng.integers(9, 14)) if rng.random() < 0.06 else None)
    t = pick_time(rng)
    reps = int(rng.choice([1, 2, 10, 40, 80])) if rng.random() < 0.97 else int(10.0 ** rng.uniform(2, 3.3))
    for other, t2, reps2 in neighbours(ctx, h, t, reps):
        other.ham.get_qdrift_sequence(t2, reps2)
    s = h.ham.get_qdrift_sequence(t, reps)
    entries = s.get_sequence_entries()
    ctx.check(len(entries) == reps and s.get_dimension() == h.d, "qdrift_length", lambda: f"{len(entries)} entries for {reps} repetitions")
    lam = float(np.sum(h.coefficients))
    tau = lam * t / reps
    parts = [ref.expi(m / c, tau) for m, c in zip(h.mats, h.coefficients)]
    labels = classes(parts)
    names, counts = {}, {}
    last, order = None, []
    probs = {c: float(sum(h.coefficients[i] for i in range(len(labels)) if labels[i] == c) / lam) for c in set(labels)}
    for e in entries:
        m, name, value = decode(ctx, e, h.n, "qdrift_term")
        match = [i for i, p in enumerate(parts) if ref.phase_diff(m, p) < 1e-9]
        ctx.check(len(match) > 0, "qdrift_term", lambda: f"{name} applies none of the normalised terms for {tau}")
        ctx.check(value is not None and abs(value[0] - tau) <= 1e-9 * max(1, abs(tau)), "qdrift_step", lambda: f"entry time {value}, not {tau}")
        digits = "".join(ch for ch in name.split(" ")[0] if ch.isdigit())
        ctx.check(name.startswith("H") and digits.isdigit() and int(digits) in match, "qdrift_label", lambda: f"{name} applies term {match}")
        got = labels[match[0]]
        for c, p in probs.items():
            ctx.bernoulli(f"qdrift_frequency|p{int(p * 16)}", got == c, p)
        if last is not None:
            ctx.bernoulli(f"qdrift_independent|p{int(probs[last] * 16)}", got == last, probs[last])
        last = got
        order.append(got)
        names.setdefault(name, 0)
        counts[got] = counts.get(got, 0) + 1
        ctx.event("qdrift_entry")
    lagged(ctx, order, probs)
    c = sorted(probs)[int(rng.integers(len(probs)))]
    for p in [probs[c]]:  # independent draws vary from one sequence to the next as much as they must
        if p < 1:
            ctx.count_spread("qdrift_count_spread", counts.get(c, 0), reps, p)
    ctx.key("qdrift", h.n, len(h.mats), t, reps)
    ctx.show(dict(h.describe(), time=t, repetitions=reps, labels=sorted(names)[:4]))


def c16_weak(ctx):
    """Terms much weaker than the rest are drawn rarely, but as often as they must."""
    rng = ctx.rng
    n = int(rng.choice([1, 1, 2]))
    count = int(rng.integers(2, 5))
    h = Ham(rng, max_n=n, max_terms=count, min_terms=count, commuting=False, strength=1.0)
    mats = [m / np.linalg.norm(m, 2) for m in h.mats]
    weak = [float(rng.choice([rng.uniform(0.0015, 0.0048), rng.uniform(0.005, 0.02)])) if i < count // 2 else 1.0 for i in range(count)]
    order = rng.permutation(count)
    mats = [mats[i] * weak[i] for i in order]
    ham = Hamiltonian([HamiltonianTerm(m.copy()) for m in mats])
    p = np.array([weak[i] for i in order]) / sum(weak)
    t = pick_time(rng)
    reps = 1200
    tau = sum(weak) * t / reps
    parts = [ref.expi(m / weak[i], tau) for m, i in zip(mats, order)]
    drawn, order = np.zeros(count, dtype=int), []
    for e in ham.get_qdrift_sequence(t, reps).get_sequence_entries():
        m, name, value = decode(ctx, e, h.n, "qdrift_term")
        digits = "".join(ch for ch in name.split(" ")[0] if ch.isdigit())
        ctx.check(digits.isdigit() and int(digits) < count, "qdrift_label", lambda: f"{name} for {count} terms")
        i = int(digits)
        ctx.check(ref.phase_diff(m, parts[i]) < 1e-9, "qdrift_label", lambda: f"{name} does not apply the term it names for {tau}")
        drawn[i] += 1
        order.append(i)
    lagged(ctx, order, p)
    if abs(tau) > 1e-6 and all(np.linalg.norm(a / np.linalg.norm(a, 2) - b / np.linalg.norm(b, 2)) > 1e-3 for a, b in itertools.combinations(mats, 2)):
        for i in range(count):
            if p[i] < 0.1:
                kind = "rare" if p[i] < 0.005 else "seldom"
                ctx.tally(f"qdrift_weak|{kind}", float(drawn[i]), reps * p[i], reps * p[i] * (1 - p[i]))
                ctx.event("weak_term")
    ctx.key("weak", h.n, count, t)
    ctx.show(dict(qubits=h.n, probabilities=[float(x) for x in p], drawn=drawn.tolist()))


def c16_converges(ctx):
    rng = ctx.rng
    h = Ham(rng, max_n=2, max_terms=4, strength=1.0)
    t = float(rng.uniform(0.1, 0.5) * rng.choice([-1, 1]))
    s = h.ham.get_qdrift_sequence(t, 1500)
    dist = ref.hs_distance(s.product().get_matrix(), h.exact(t))
    ctx.check(dist < 0.02, "qdrift_converges", lambda: f"distance {dist} after 1500 repetitions at strength times time {abs(t)}")
    ctx.key("converges", h.n, t)
    ctx.show(dict(h.describe(), time=t, distance=dist))


# ------------------------------------------------------------------ C17

def legal_entry(ctx, entry, h, max_step, simultaneous):
    m, name, value = decode(ctx, entry, h.n, "whole_system")
    ctx.check(name.startswith("H"), "legal_label", lambda: f"entry named {name}")
    try:
        idx = [int(x) for x in name[1:].split("+")]
    except ValueError:
        idx = []
    ctx.check(len(idx) > 0 and len(set(idx)) == len(idx) and all(0 <= i < len(h.mats) for i in idx), "legal_label",
              lambda: f"{name} for {len(h.mats)} terms")
    ctx.check(simultaneous or len(idx) == 1, "legal_subset", lambda: f"{name} although simultaneous terms are not allowed")
    t = value[0]
    ctx.check(abs(t) <= max_step, "legal_step", lambda: f"{name} for time {t}, maximum {max_step}")
    diff = ref.phase_diff(m, ref.expi(np.sum([h.mats[i] for i in idx], axis=0), t))
    ctx.check(diff < 1e-9, "truthful_label", lambda: f"{name}(t={t}) is off by {diff}")
    ctx.event("terms_%d" % len(idx))
    return frozenset(idx), t


def other_work(ctx, h, max_step, simultaneous):
    """Earlier compilations in the same process: of a twin in the same role, and of the same object in other roles."""
    rng = ctx.rng
    if rng.random() < 0.4:
        other = h.twin(rng)
        if rng.random() < 0.5:
            other.ham.compile_rav_sequence(float(rng.choice([0.0, max_step])), max_step, 0.0, simultaneous)
        else:
            other.ham.compile_stoq_sequence(0.0, max_step, 0.5, simultaneous)
        ctx.event("after_twin")
    if rng.random() < 0.3:
        h.ham.compile_stoq_sequence(0.0, max_step * float(rng.choice([1.0, 2.0, 0.5])), 0.5, bool(rng.integers(2)) and len(h.mats) < 6)
        h.ham.compile_rav_sequence(max_step, max_step * 2, 0.0, not simultaneous and len(h.mats) < 6)
        ctx.event("after_other_role")


def c17_stoq(ctx):
    rng = ctx.rng
    many = int(rng.choice([4, 5, 11, 12])) if rng.random() < 0.08 else None
    h = Ham(rng, max_n=2, max_terms=3, strength=float(rng.uniform(0.5, 3)), many=many)
    t = float(rng.uniform(0.1, 1.2) * rng.choice([-1, 1, 1]))
    max_step = float(rng.choice([0.05, 0.2, 0.5, 2.0]))
    threshold = float(rng.choice([0.5, 0.9, 0.95, 0.0, rng.uniform(0.4, 0.97), rng.uniform(0.85, 0.97)]))
    simultaneous = bool(rng.integers(2)) and len(h.mats) < 6
    args = (t, max_step, threshold, simultaneous) if simultaneous or rng.random() < 0.5 else (t, max_step, threshold)
    other_work(ctx, h, max_step, simultaneous)
    with slow_machine(rng, bool(rng.random() < 0.2)):
        r = h.ham.compile_stoq_sequence(*args)
    entries = r.compiled_sequence.get_sequence_entries()
    for e in entries:
        legal_entry(ctx, e, h, max_step, simultaneous)
    costs = list(r.cost_by_step)
    dist = ref.hs_distance(gen.sequence_matrix(entries, h.n), h.exact(t))
    diff = ref.phase_diff(r.compiled_sequence.product().get_matrix(), gen.sequence_matrix(entries, h.n))
    ctx.check(diff < 1e-8, "stoq_product", lambda: f"the result's product is off by {diff}")
    ctx.check(len(costs) <= 10000, "stoq_limit", lambda: f"{len(costs)} steps")
    if costs:
        ctx.close(costs[-1], dist, 1e-8, "stoq_cost", "last step:")
    if len(costs) < 10000:
        ctx.check(dist <= 1 - threshold + 2e-8, "stoq_threshold", lambda: f"distance {dist} for threshold {threshold} after {len(costs)} steps")
        ctx.event("threshold_met")
    else:
        ctx.event("step_limit_reached")
    for c in costs[:-1]:
        ctx.check(c > 1 - threshold - 1e-10, "stoq_stops", lambda: f"continued at {c} for threshold {threshold}")
    if ref.hs_distance(np.eye(h.d), h.exact(t)) < 1 - threshold - 1e-10:
        ctx.check(not costs and not entries, "stoq_stops", "an already met target was not returned at once")
    ctx.key("stoq", h.n, len(h.mats), t, max_step, threshold, simultaneous)
    ctx.show(dict(h.describe(), time=t, max_step=max_step, threshold=threshold, simultaneous=simultaneous, steps=len(costs), entries=len(entries)))


def c17_boundary(ctx):
    """Thresholds a hair above and below the distance of a state on the path, with the same random stream."""
    rng = ctx.rng
    h = Ham(rng, max_n=2, max_terms=3, strength=float(rng.uniform(0.5, 2)))
    t, max_step = float(rng.uniform(0.5, 1.5)), float(rng.choice([0.2, 0.5]))
    simultaneous, rav = bool(rng.integers(2)), bool(rng.integers(2))
    seed = int(rng.integers(2 ** 31))

    def run(threshold):
        np.random.seed(seed)
        random.seed(seed)
        return (h.ham.compile_rav_sequence if rav else h.ham.compile_stoq_sequence)(t, max_step, threshold, simultaneous)
    final = 0.9
    trace = list(run(final).cost_by_step)
    usable = [c for c in trace if c > 1 - final + 2e-3]
    if usable and len(trace) < 10000 and same_trajectory():
        for _ in range(4):
            cost = usable[rng.integers(len(usable))]
            delta = float(rng.choice([1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9]) * rng.choice([1, -1]))
            threshold = 1.0 - (cost + delta)
            lim = 1.0 - threshold
            r = run(threshold)
            got = list(r.cost_by_step)
            if min(abs(c - lim) for c in trace) < 1e-10:
                continue
            want = next(i for i, c in enumerate(trace, 1) if c <= lim)
            ctx.check(len(got) == want or len(got) == 0, "stops_at_boundary",
                      lambda: f"{'RAV' if rav else 'STOQ'} threshold {threshold!r}: {len(got)} steps, not {want}; the distances are {trace[:want + 3]}")
            ctx.event("just_above" if delta < 0 else "just_below")
            dist = ref.hs_distance(gen.sequence_matrix(r.compiled_sequence.get_sequence_entries(), h.n), np.eye(h.d) if rav else h.exact(t))
            ctx.check(dist <= lim + 1e-10, "meets_boundary", lambda: f"distance {dist} for threshold {threshold!r}")
    ctx.key("boundary", h.n, len(h.mats), t, max_step, simultaneous, rav)
    ctx.show(dict(h.describe(), time=t, max_step=max_step, simultaneous=simultaneous, rav=rav))


def c17_rav(ctx):
    rng = ctx.rng
    h = Ham(rng, max_n=2, max_terms=3, strength=float(rng.uniform(0.5, 3)))
    time = float(rng.choice([rng.uniform(0.1, 2), rng.uniform(0.1, 2), 0.0]))
    max_step = float(rng.choice([0.1, 0.3, 1.0]))
    threshold = float(rng.choice([0.5, 0.9, 0.0, rng.uniform(0.4, 0.93), rng.uniform(0.8, 0.93)]))
    simultaneous = bool(rng.integers(2))
    args = (time, max_step, threshold, simultaneous) if simultaneous or rng.random() < 0.5 else (time, max_step, threshold)
    other_work(ctx, h, max_step, simultaneous)
    with slow_machine(rng, bool(rng.random() < 0.2)):
        r = h.ham.compile_rav_sequence(*args)
    entries = r.compiled_sequence.get_sequence_entries()
    total, m = 0.0, 0
    ts = []
    for e in entries:
        ts.append(legal_entry(ctx, e, h, max_step, simultaneous)[1])
    while total < time - 1e-12 and m < len(ts):
        total += abs(ts[m])
        m += 1
    costs = list(r.cost_by_step)
    ctx.check(total >= time - 1e-9, "rav_time", lambda: f"the whole sequence runs for {total} of {time}")
    ctx.check(len(entries) - m <= len(costs), "rav_shape",
              lambda: f"{len(entries)} entries: {m} cover time {time}, but only {len(costs)} compilation steps were taken")
    dist = ref.hs_distance(gen.sequence_matrix(entries, h.n), np.eye(h.d))
    diff = ref.phase_diff(r.compiled_sequence.product().get_matrix(), gen.sequence_matrix(entries, h.n))
    ctx.check(diff < 1e-8, "rav_product", lambda: f"the result's product is off by {diff}")
    if costs:
        ctx.close(costs[-1], dist, 1e-8, "rav_cost", "last step:")
    ctx.check(len(costs) <= 10000, "rav_limit", lambda: f"{len(costs)} steps")
    if len(costs) < 10000:
        ctx.check(dist <= 1 - threshold + 2e-8, "rav_threshold", lambda: f"distance {dist} from the identity for threshold {threshold}")
        ctx.event("threshold_met")
    for c in costs[:-1]:
        ctx.check(c > 1 - threshold - 1e-10, "rav_stops", lambda: f"continued at {c} for threshold {threshold}")
    ctx.key("rav", h.n, len(h.mats), time, max_step, threshold, simultaneous)
    ctx.show(dict(h.describe(), time=time, max_step=max_step, threshold=threshold, simultaneous=simultaneous, random=m, entries=len(entries)))


def c17_random_part(ctx):
    """At threshold zero the sequence is the random part alone: long ones show its direction, choices and total."""
    rng = ctx.rng
    many = int(rng.choice([4, 11, 12])) if rng.random() < 0.1 else None
    h = Ham(rng, max_n=2, max_terms=3, many=many)
    max_step = float(10.0 ** rng.uniform(-1.5, 0.3))
    simultaneous = bool(rng.integers(2)) and len(h.mats) < 6
    time = max_step * 150
    other_work(ctx, h, max_step, simultaneous)
    r = h.ham.compile_rav_sequence(time, max_step, 0.0, simultaneous)
    entries = r.compiled_sequence.get_sequence_entries()
    ctx.check(list(r.cost_by_step) == [], "rav_shape", "compiled although any sequence meets threshold zero")
    decoded = [legal_entry(ctx, e, h, max_step, simultaneous) for e in entries]
    ts = np.array([t for _, t in decoded])
    total = np.sum(np.abs(ts))
    ctx.check(total >= time - 1e-9, "rav_time", lambda: f"the random part totals {total} of {time}")
    ctx.check(total - abs(ts[-1]) < time + 1e-9, "rav_overshoot", lambda: f"{total} without its last step {abs(ts[-1])} already covers {time}")
    forward = float(np.mean(ts > 0))
    ctx.check(forward > 0.5, "rav_forward", lambda: f"only {forward:.2f} of {len(ts)} steps run forward")
    # forward steps prevail whatever the step's length: by quarters of the length, and among the longest tenth
    size = np.abs(ts) / max_step
    for what, part in [(f"steps of {q}/4 to {q + 1}/4 of the maximum", (size >= q / 4) & (size <= (q + 1) / 4)) for q in range(4)] + [("the longest steps", size > 0.9)]:
        count = int(np.sum(part))
        if count >= 25:
            hits = int(np.sum(ts[part] > 0))
            ctx.check(hits > 0.5 * count - 3.5 * np.sqrt(count) / 2, "rav_forward_by_length", lambda: f"{hits} of {count} {what} run forward")
            ctx.event("forward_quarter")
    half = len(ts) // 2  # and along the sequence
    for what, part in (("first", ts[:half]), ("second", ts[half:])):
        ctx.check(np.mean(part > 0) > 0.5, "rav_forward_along", lambda: f"only {np.mean(part > 0):.2f} of the {what} {len(part)} steps run forward")
    seen = {s for s, _ in decoded}
    T = len(h.mats)
    want = [frozenset(c) for k in (range(1, T + 1) if simultaneous else [1]) for c in itertools.combinations(range(T), k)]
    if len(entries) > 120:
        missing = [sorted(s) for s in want if s not in seen]
        ctx.check(not missing or len(entries) < 40 * len(want), "rav_choices", lambda: f"subsets {missing} never used in {len(entries)} steps")
    ctx.event("random_steps", len(entries))
    ctx.event("forward_steps", int(np.sum(ts > 0)))
    ctx.key("random", h.n, T, max_step, simultaneous)
    ctx.show(dict(h.describe(), time=time, max_step=max_step, simultaneous=simultaneous, steps=len(entries), forward=forward))


PROPERTIES = {
    "C15": dict(
        workloads=[Workload("trotter", c15_trotter, 400, 16000, needs=["trotter_each_once", "trotter_order", "trotter_bound", "trotter_shuffled"]),
                   Workload("ideal", c15_ideal, 150, 5000, needs=["ideal_step", "ideal_product"]),
                   Workload("convergence", c15_convergence, 60, 2500)],
        rule="Random Hamiltonians (1-3 qubits, 1-4 and sometimes 9-13 terms, equal, commuting, widely scaled), times of both signs, 1-64 and sometimes up to 300 steps; entries matched to exponentials of the terms "
             "computed by eigendecomposition, products to the analytic commutator bound; after work on a twin Hamiltonian. Distinct by Hamiltonian size, time, steps and order.",
        assumptions=["distance bound e^2/2 from operator-norm bound e = t^2/(2N) sum of commutator norms", "terms with equal effect are interchangeable"]),
    "C16": dict(
        workloads=[Workload("entries", c16_entries, 400, 16000, needs=["qdrift_term", "qdrift_step", "qdrift_label", "qdrift_frequency"]),
                   Workload("weak", c16_weak, 14, 1000, needs=["qdrift_weak"]),
                   Workload("converges", c16_converges, 16, 300, needs=["qdrift_converges"])],
        rule="Random Hamiltonians of 1-5 and sometimes 9-13 terms, times of both signs, 1-400 (weak terms: 1200) repetitions; entries matched to normalised terms, frequencies and their dispersion tallied; twin Hamiltonians; long sequences "
             "against the exact evolution. Distinct by Hamiltonian size, time and repetitions.",
        assumptions=["tallies are judged at |z| > 7 when the expected variance exceeds 30", "the digits of a label are the index of its term"]),
    "C17": dict(
        workloads=[Workload("stoq", c17_stoq, 120, 3000, needs=["legal_step", "truthful_label", "stoq_cost", "stoq_threshold"]),
                   Workload("boundary", c17_boundary, 30, 800),
                   Workload("rav", c17_rav, 100, 2500, needs=["rav_cost", "rav_threshold", "rav_shape"]),
                   Workload("random_part", c17_random_part, 60, 1500, needs=["rav_forward", "rav_forward_by_length", "rav_overshoot", "rav_choices"])],
        rule="Random Hamiltonians of 1-3 and sometimes 9-13 terms with maximum steps, thresholds and simultaneity settings; every entry decoded from its label and recomputed; thresholds just above and below costs met; twins and clocks that jump. "
             "Distinct by Hamiltonian size and parameters.",
        assumptions=["labels are H followed by the term indices joined by +", "the random part ends where the requested time is first reached"]),
}
