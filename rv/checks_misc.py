"""C18-C21: verification sequences, exports, reproducibility, rejection."""
import json
import os
import random
import re
import subprocess
import sys

import numpy as np

from . import gen, ref
from .checks_compiler import (
    EDGE, TIGHT, Problem, check_layers, check_plain, same_trajectory)
from .checks_hamiltonian import Ham, pick_time
from .checks_sequence import (
    DAGGER, Model, apply, check_entries, check_product, make_pool, script)
from .core import HERE, Workload
from .lib import (
    Compiler, Hamiltonian, HamiltonianTerm, ParameterizedUnitary,
    ParameterizedUnitaryDefinitions, ParameterizedUnitaryParameter, Unitary,
    UnitaryDefinitions, UnitaryPrimitive, UnitarySequence,
    UnitarySequenceEntry, Verification)
from .monitors import slow_machine


def entry_print(e, n):
    full = e.get_full_unitary(2 ** n)
    return full.get_display_name(), full.get_qasm(), full.get_jaqal()


# ------------------------------------------------------------------ C18

def c18_rav(ctx, layered):
    rng = ctx.rng
    p = Problem(rng, layered)
    length = int(rng.choice([0, 1, 2, 4, 7])) if rng.random() < 0.96 else int(rng.integers(20, 60))
    threshold = float(rng.choice([0.0, 1.0, rng.uniform(0.1, 0.9), rng.uniform(0.6, 0.99), 10.0 ** rng.uniform(-8, -1), 1 - 10.0 ** rng.uniform(-5, -1)]))
    limit = int(rng.choice([0, 1, 6, 12]))
    p_append = float(rng.choice([0.5, 0.5, 0.8, 1.0, 0.0]))
    size = sum(p.counts.values()) if layered else 1
    unset = threshold == 1.0 and bool(rng.random() < 0.5)  # None stands for 1.0
    identity = np.eye(p.d)

    def run(steps):
        np.random.seed(p.seed)
        bound = None if unset and threshold == 1.0 else threshold
        if layered:
            return Verification.generate_layered_rav_sequence(p.d, p.counts, length, bound, p_append, max_step_count=steps)
        if p_append == 0.5 and p.probs is None:
            return Verification.generate_rav_sequence(p.d, p.given, length, bound, max_step_count=steps)
        return Verification.generate_rav_sequence(p.d, p.given, length, bound, p_append, p.probs, steps)

    base = run(0)
    start = base.compiled_sequence.get_sequence_entries()
    ctx.check(len(start) == length * size and list(base.cost_by_step) == [], "random_part",
              lambda: f"step limit zero: {len(start)} entries for {length} times {size}, costs {base.cost_by_step}")
    head = [entry_print(e, p.n) for e in start]
    with slow_machine(rng, bool(rng.random() < 0.15)):
        r = run(limit)
    costs = list(r.cost_by_step)
    if threshold == 0.0 or limit == 0:
        ctx.check(costs == [] and r.compiled_sequence.get_length() == length * size, "random_only",
                  lambda: f"threshold {threshold}, limit {limit}: {r.compiled_sequence.get_length()} entries, costs {costs}")
        ctx.event("random_only")
    ctx.check(len(costs) <= limit, "rav_limit", lambda: f"{len(costs)} steps with limit {limit}")
    ctx.check(np.isfinite(r.total_elapsed_time) and r.total_elapsed_time >= 0, "rav_elapsed", lambda: f"{r.total_elapsed_time}")
    dist, previous = None, length * size
    for k in range(len(costs) + 1) if same_trajectory() else [len(costs)]:
        q = r if k == len(costs) else run(k)
        entries = q.compiled_sequence.get_sequence_entries()
        got = [entry_print(e, p.n) for e in entries]
        ctx.check(got[:len(head)] == head, "random_part_first", lambda: f"the sequence does not start with its random part: {got[:3]} / {head[:3]}")
        ctx.check((len(got) - len(head)) % size == 0 and len(got) - len(head) <= size * k, "rav_shape",
                  lambda: f"{len(got)} entries after {k} steps from {len(head)}")
        if p_append == 1.0:
            ctx.check(len(got) >= previous, "append_only", lambda: f"shrank to {len(got)} at append probability 1")
        elif p_append == 0.0:
            ctx.check(len(got) == len(head), "append_only", lambda: f"grew to {len(got)} at append probability 0")
        previous = len(got)
        m = gen.sequence_matrix(entries, p.n)
        dist = ref.hs_distance(m, identity)
        ctx.check(ref.phase_diff(q.compiled_sequence.product().get_matrix(), m) < 1e-9, "rav_product", "the product is not that of the entries")
        if k:
            ctx.close(list(q.cost_by_step)[-1], dist, 1e-9, "rav_cost", f"step {k}:")
            ctx.check(list(q.cost_by_step) == costs[:k], "rav_cost", "cost traces of shorter runs differ")
        if k < len(costs) and threshold < 1:
            ctx.check(dist > 1 - threshold - TIGHT, "rav_stops", lambda: f"continued at distance {dist} for threshold {threshold}")
        if layered:
            check_layers(ctx, entries, p.prims, p.counts, p.n, f"after {k} steps")
    if not layered:
        check_plain(ctx, entries, p, p.probs)
    if threshold > 0 and len(costs) < limit:
        ctx.check(dist <= 1 - threshold + EDGE, "rav_threshold", lambda: f"stopped after {len(costs)} of {limit} steps at {dist}, threshold {threshold}")
        ctx.event("threshold_met")
    # the same run with thresholds a hair above and below a distance it met
    if threshold == 1.0 and 0 < limit == len(costs) and same_trajectory():
        trace = [ref.hs_distance(gen.sequence_matrix(start, p.n), identity)] + costs
        for _ in range(3):
            cost = trace[rng.integers(len(trace))]
            if not 1e-3 < cost < 1 - 1e-3:
                continue
            threshold = 1.0 - (cost + float(rng.choice([1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9]) * rng.choice([1, -1])))
            lim = 1.0 - threshold
            if min(abs(c - lim) for c in trace) < 1e-10:
                continue
            want = next((i for i, c in enumerate(trace) if c <= lim), limit)
            got = list(run(limit).cost_by_step)
            ctx.check(len(got) == want, "stops_at_boundary", lambda: f"threshold {threshold!r}: {len(got)} steps, not {want}; without one the distances are {trace}")
            ctx.event("boundary")
        threshold = 1.0
    ctx.key("rav", *p.key(), length, threshold, limit, p_append)
    ctx.show(dict(p.describe(), length=length, rav_threshold=threshold, limit=limit, steps=len(costs)))


def c18_plain(ctx):
    c18_rav(ctx, False)


def c18_layered(ctx):
    c18_rav(ctx, True)


def c18_xeb(ctx):
    rng = ctx.rng
    p = Problem(rng, True)
    layers = int(rng.integers(0, 9)) if rng.random() < 0.96 else int(rng.integers(20, 60))
    r = Verification.generate_xeb_sequence(p.d, p.counts, layers)
    entries = r.compiled_sequence.get_sequence_entries()
    ctx.check(len(entries) == layers * sum(p.counts.values()) and list(r.cost_by_step) == [] and r.compiled_sequence.get_dimension() == p.d,
              "xeb_shape", lambda: f"{len(entries)} entries for {layers} layers of {list(p.counts.values())}")
    check_layers(ctx, entries, p.prims, p.counts, p.n, "XEB")
    diff = ref.phase_diff(r.compiled_sequence.product().get_matrix(), gen.sequence_matrix(entries, p.n))
    ctx.check(diff < 1e-9, "xeb_product", lambda: f"{diff}")
    # layers are drawn anew
    texts = ["\n".join(entry_print(e, p.n)[1] for e in entries[i:i + sum(p.counts.values())]) for i in range(0, len(entries), sum(p.counts.values()))]
    if any(hi > lo for q in p.prims if p.counts.get(q.primitive) for _, lo, hi, _ in q.ranges) and len(texts) > 1:
        ctx.check(len(set(texts)) == len(texts), "xeb_fresh", "two layers are identical")
    ctx.key("xeb", *p.key(), layers)
    ctx.show(dict(p.describe(), layers=layers))


def c18_deep(ctx):
    """Random parts of hundreds and thousands of gates or layers."""
    rng = ctx.rng
    x, z = (gen.Prim(nm, 1, fn, [], None, make()) for nm, fn, make in (("X", lambda: ref.X, UnitaryDefinitions.sigmax), ("Z", lambda: ref.Z, UnitaryDefinitions.sigmaz)))
    which = int(rng.integers(3)) if ctx.index else 0
    length = int(10.0 ** rng.uniform(2, 3.0)) if ctx.index else 2049 + 2 * int(rng.integers(100))
    counts = {x.primitive: 1} if which == 0 else {x.primitive: 1, z.primitive: int(rng.integers(1, 3))}
    size = sum(counts.values())
    if which == 0:
        r = Verification.generate_xeb_sequence(2, counts, length)
    elif which == 1:
        r = Verification.generate_layered_rav_sequence(2, counts, length, 1.0, 0.5, max_step_count=0)
    else:
        r, size = Verification.generate_rav_sequence(2, [x.primitive, z.primitive], length, 1.0, 0.5, max_step_count=0), 1
    entries = r.compiled_sequence.get_sequence_entries()
    ctx.check(len(entries) == length * size and list(r.cost_by_step) == [], "deep_shape", lambda: f"{len(entries)} entries for {length} times {size}, {len(r.cost_by_step)} costs")
    if which < 2:
        check_layers(ctx, entries, [x, z], counts, 1, "deep")
    diff = ref.phase_diff(r.compiled_sequence.product().get_matrix(), gen.sequence_matrix(entries, 1))
    ctx.check(diff < 1e-8, "deep_product", lambda: f"{diff}")
    ctx.key("deep", which, length)
    ctx.show(dict(routine=which, length=length, layer=size))


def c18_long(ctx):
    """Realistic RAV runs with the default step limit: their net effect is within the threshold of the identity."""
    rng = ctx.rng
    n = 1 if rng.random() < 0.6 else 2
    prims = gen.standard_prims(rng, n)[:2] if n == 1 else [q for q in gen.standard_prims(rng, n) if q.name in ("Rxyz", "XX")]
    prims = [gen.Prim(q.name, q.qubits, q.fn, q.ranges, None, q.primitive.get_unitary()) for q in prims]
    threshold = float(rng.choice([0.7, 0.8] if n == 2 else [0.9, 0.97]))
    length = int(rng.integers(0, 12))
    layered = n == 1 and bool(rng.integers(2))
    if layered:
        r = Verification.generate_layered_rav_sequence(2 ** n, {prims[0].primitive: 1, prims[1].primitive: 1}, length, threshold)
    else:
        r = Verification.generate_rav_sequence(2 ** n, [q.primitive for q in prims], length, threshold)
    entries = r.compiled_sequence.get_sequence_entries()
    dist = ref.hs_distance(gen.sequence_matrix(entries, n), np.eye(2 ** n))
    costs = list(r.cost_by_step)
    ctx.check(len(costs) <= 10000, "rav_limit", lambda: f"{len(costs)} steps")
    if len(costs) < 10000:
        ctx.check(dist <= 1 - threshold + EDGE, "rav_threshold", lambda: f"{dist} after {len(costs)} steps, threshold {threshold}")
        ctx.event("threshold_met")
    else:
        ctx.event("step_limit_reached")
    if costs:
        ctx.close(costs[-1], dist, 1e-9, "rav_cost", "last step:")
    ctx.key("long", n, length, threshold, layered, ctx.index)
    ctx.show(dict(qubits=n, length=length, threshold=threshold, layered=layered, steps=len(costs), entries=len(entries)))


# ------------------------------------------------------------------ C19

QASM = re.compile(r"^(?P<name>[^(\t]*?)(?:\((?P<params>[^()]*)\))?\t(?P<qubits>q\[\d+\](?:,q\[\d+\])*);$")
DISPLAY = re.compile(r"^(?P<name>[^\[(]*?)(?:\[(?P<qubits>\d+(?:, \d+)*)\])?(?:\((?P<params>[^()]*)\))?(?P<inv>" + DAGGER + ")?$")


def number(text):
    return float(text)


def parse_qasm(ctx, line):
    m = QASM.match(line)
    ctx.check(m is not None, "qasm_line", lambda: f"unreadable QASM line {line!r}")
    params = []
    for part in (m["params"] or "").split(","):
        if part:
            params.append((number(part[3:]) * np.pi, True) if part.startswith("pi*") else (number(part), False))
    return m["name"], params, [int(q) for q in re.findall(r"\d+", m["qubits"])]


def parse_jaqal(ctx, line):
    tokens = line.split()
    first = next((i for i, t in enumerate(tokens) if re.fullmatch(r"q\[\d+\]", t)), None)
    ctx.check(first is not None, "jaqal_line", lambda: f"unreadable JAQAL line {line!r}")
    qubits = [int(t[2:-1]) for t in tokens[first:] if re.fullmatch(r"q\[\d+\]", t)]
    rest = tokens[first + len(qubits):]
    try:
        params = [number(t) for t in rest]
    except ValueError:
        ctx.check(False, "jaqal_line", f"unreadable JAQAL line {line!r}")
    return " ".join(tokens[:first]), params, qubits


def parse_display(ctx, line):
    m = DISPLAY.match(line)
    ctx.check(m is not None, "display_line", lambda: f"unreadable display line {line!r}")
    params = []
    for part in (m["params"] or "").split(", "):
        if part:
            k, _, v = part.partition("=")
            params.append((k, number(v[:-1]) * np.pi, True) if v.endswith("π") else (k, number(v), False))
    qubits = [int(q) for q in m["qubits"].split(", ")] if m["qubits"] else []
    return m["name"], params, qubits, m["inv"] is not None


class Line:
    """What one exported line must say."""

    def __init__(self, name, params, qubits, fn, inverse=False):
        self.name, self.params, self.qubits, self.fn, self.inverse = name, params, qubits, fn, inverse


def lines_of(ctx, text, header, count, kind):
    rows = text.split("\n")
    ctx.check(rows[0] == header, kind, lambda: f"first line {rows[0]!r}")
    rows = [r for r in rows[1:] if r.strip()]
    ctx.check(len(rows) == count, kind, lambda: f"{len(rows)} lines for {count} entries")
    return rows


def check_exports(ctx, s, want, n, strength=3.0):
    """
    Reads back all three texts of s. want: the operations actually applied, in order. The circuit rebuilt from the text
    must have the sequence's product.
    """
    entries = s.get_sequence_entries()
    qasm = lines_of(ctx, s.get_qasm(), "# QASM generated from UnitarySequence.get_qasm()", len(entries), "qasm_line")
    jaqal = lines_of(ctx, s.get_jaqal(), "// JAQAL generated from UnitarySequence.get_jaqal()", len(entries), "jaqal_line")
    display = lines_of(ctx, s.get_display_output(), "# Generated from UnitarySequence.get_display_output()", len(entries), "display_line")
    ctx.check(len(entries) == len(want), "export_lines", lambda: f"{len(entries)} entries, {len(want)} expected")
    rebuilt = {"qasm": [], "jaqal": []}
    for i, w in enumerate(want):
        name, params, qubits = parse_qasm(ctx, qasm[i])
        ctx.check(qubits == w.qubits and [a for _, a in params] == [a for _, _, a in w.params], "qasm_line",
                  lambda: f"{qasm[i]!r} for {w.name}{w.params} on {w.qubits}")
        ok = all(abs(v - x) <= (2e-7 if a else 6e-8) + 1e-12 * abs(x) for (v, _), (_, x, a) in zip(params, w.params))
        ctx.check(ok, "qasm_values", lambda: f"{qasm[i]!r} for {w.params}")
        unmarked = name == w.name
        jname, jparams, jqubits = parse_jaqal(ctx, jaqal[i])
        ctx.check(jqubits == w.qubits and len(jparams) == len(w.params), "jaqal_line", lambda: f"{jaqal[i]!r} for {w.name}{w.params} on {w.qubits}")
        ok = all(abs(v - x) <= 6e-8 + 1e-12 * abs(x) for v, (_, x, _) in zip(jparams, w.params))
        ctx.check(ok, "jaqal_values", lambda: f"{jaqal[i]!r} for {w.params}")
        if w.inverse:
            # The text of an inverse must differ from the text of the operation itself.
            ctx.check(not unmarked, "inverse_in_qasm", lambda: f"{qasm[i]!r} stands for the inverse of {w.name}", mechanism="inverse-export-unmarked")
            ctx.check(jname != w.name, "inverse_in_jaqal", lambda: f"{jaqal[i]!r} stands for the inverse of {w.name}", mechanism="inverse-export-unmarked")
            ctx.event("inverse_line")
        else:
            ctx.check(name == w.name and jname == w.name, "export_name", lambda: f"{qasm[i]!r} / {jaqal[i]!r} for {w.name}")
        dname, dparams, dqubits, inv = parse_display(ctx, display[i])
        ctx.check(dname == w.name and dqubits == w.qubits and inv == w.inverse, "display_line",
                  lambda: f"{display[i]!r} for {'inverse of ' if w.inverse else ''}{w.name} on {w.qubits}")
        ctx.check([(k, a) for k, _, a in dparams] == [(k, a) for k, _, a in w.params], "display_line", lambda: f"{display[i]!r} for {w.params}")
        ok = all(abs(v - x) <= (1.6e-3 if a else 6e-5) + 1e-12 * abs(x) for (_, v, _), (_, x, a) in zip(dparams, w.params))
        ctx.check(ok, "display_values", lambda: f"{display[i]!r} for {w.params}")
        for which, values in (("qasm", [v for v, _ in params]), ("jaqal", jparams)):
            m = ref.embed(w.fn(*values), w.qubits, n)
            rebuilt[which].append(m.conj().T if w.inverse else m)
        ctx.event("exported_line")
    p = s.product().get_matrix()
    tol = 1e-7 + 2e-7 * strength * sum(len(w.params) for w in want)
    for which, mats in rebuilt.items():
        diff = ref.phase_diff(ref.product(mats, 2 ** n), p)
        ctx.check(diff < tol, "rebuilt_" + which, lambda: f"the circuit read back from {which} is off by {diff} (tolerance {tol})")


ANGLE_NAMES = {"Rx": ["θ"], "Ry": ["θ"], "Rz": ["θ"], "R": ["θ", "Φ"], "XX": ["θ"], "GMS2": ["θ"], "GMS3": ["θ"]}


def random_line(rng, n):
    """A library entry and what its line must say."""
    r = rng.random()
    if r < 0.45:
        u, m, name, values = gen.fixed_gate(rng, min(n, 3))
        k = gen.GATE_QUBITS.get(name, 1)
        params = [(p, v, True) for p, v in zip(ANGLE_NAMES.get(name, []), values)]
        fn = lambda *v, name=name: ref.gate(name, v)
    elif r < 0.6:
        k = int(rng.integers(1, min(n, 2) + 1))
        m = gen.haar(rng, 2 ** k)
        name = str(rng.choice(["U", "My_gate", "V2"]))
        u, params, fn = Unitary(2 ** k, m, name), [], lambda m=m: m
    elif r < 0.8:
        q = gen.primitive(rng, n, f"G{rng.integers(9)}", kind="param")
        values = [float(rng.uniform(lo, hi)) for _, lo, hi, _ in q.ranges]
        k, name, fn = q.qubits, q.name, q.fn
        u = q.primitive.get_unitary().as_unitary(values if rng.random() < 0.5 else np.array(values))
        params = [(p, v, a) for (p, _, _, a), v in zip(q.ranges, values)]
    else:
        k = int(rng.integers(1, min(n, 2) + 1))
        h = gen.scaled_hermitian(rng, 2 ** k, -1, 0.3)
        t = float(rng.normal())
        suffix = str(rng.integers(20)) if rng.random() < 0.7 else ""
        u, name, params = UnitaryDefinitions.time_evolution(h, t, suffix), "H" + suffix, [("t", t, False)]
        fn = lambda v, h=h: ref.expi(h, v)
    qubits, given = gen.placement(rng, k, n)
    inverse = rng.random() < 0.15
    if inverse:
        u = u.inverse()
    return UnitarySequenceEntry(u, given), Line(name, params, qubits, fn, inverse)


def c19_built(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    made = [random_line(rng, n) for _ in range(int(rng.integers(0, 9)) if rng.random() < 0.97 else int(rng.integers(30, 120)))]
    s = UnitarySequence(2 ** n, [e for e, _ in made])
    want = [w for _, w in made]
    if rng.random() < 0.4 and made:
        e, w = random_line(rng, n)
        s.append_first(e)
        want = [w] + want
        if rng.random() < 0.5:
            s.undo()
            want = want[1:]
        if rng.random() < 0.5:
            s.remove_last()
            want = want[:-1]
    check_exports(ctx, s, want, n)
    if rng.random() < 0.3:
        check_exports(ctx, s.inverse(), [Line(w.name, w.params, w.qubits, w.fn, not w.inverse) for w in reversed(want)], n)
    if rng.random() < 0.2:
        check_exports(ctx, UnitarySequence.combine(s, s), want + want, n)
    # operations by themselves
    for e, w in made[:2]:
        full = e.get_full_unitary(2 ** n)
        name, params, qubits = parse_qasm(ctx, full.get_qasm())
        ctx.check(qubits == w.qubits, "qasm_line", lambda: full.get_qasm())
    u, m, name, values = gen.fixed_gate(rng)
    k = int(np.log2(len(m)))
    got = parse_qasm(ctx, u.get_qasm())
    ctx.check(got[0] == name and got[2] == list(range(k)), "qasm_line", lambda: f"{u.get_qasm()!r} for {name}")
    got = parse_jaqal(ctx, u.get_jaqal())
    ctx.check(got[0] == name and got[2] == list(range(k)), "jaqal_line", lambda: f"{u.get_jaqal()!r} for {name}")
    got = parse_display(ctx, u.get_display_name())
    ctx.check(got[0] == name and not got[3] and len(got[1]) == len(values), "display_line", lambda: f"{u.get_display_name()!r} for {name}")
    # operations marked with qubits of a large system
    where = [int(q) for q in rng.permutation(int(rng.choice([4, 12, 30, 130])))[:k]] if k <= 4 else list(range(k))
    values = [(f"p{i}", float(rng.normal()), bool(rng.integers(2))) for i in range(int(rng.integers(0, 3)))]
    u = Unitary(2 ** k, m, "Wide", {a: (v, b) for a, v, b in values}, apply_to=list(where))
    got = parse_qasm(ctx, u.get_qasm())
    ctx.check(got[0] == "Wide" and got[2] == where and len(got[1]) == len(values), "qasm_line", lambda: f"{u.get_qasm()!r} on {where}")
    got = parse_jaqal(ctx, u.get_jaqal())
    ctx.check(got[0] == "Wide" and got[2] == where and len(got[1]) == len(values), "jaqal_line", lambda: f"{u.get_jaqal()!r} on {where}")
    got = parse_display(ctx, u.get_display_name())
    ctx.check(got[0] == "Wide" and got[2] == where and len(got[1]) == len(values), "display_line", lambda: f"{u.get_display_name()!r} on {where}")
    ctx.key("built", n, [(w.name, w.qubits, w.inverse) for w in want], ctx.index)
    ctx.show(dict(qubits=n, text=s.get_qasm().split("\n")[1:4]))


def c19_broad(ctx):
    """Operations on many qubits at once: every one of them is in the text, in order."""
    rng = ctx.rng
    k = int(rng.integers(4, 9))
    n = int(rng.integers(k, 10))
    qubits = [int(q) for q in rng.permutation(n)[:k]]
    angle = float(rng.uniform(0, 2 * np.pi))
    made = int(rng.integers(3))
    if made == 0:
        u, name, params = UnitaryDefinitions.gms(k, angle), f"GMS{k}", [angle]
    elif made == 1:
        u, name, params = ParameterizedUnitaryDefinitions.gms(k).as_unitary([angle]), f"GMS{k}", [angle]
    else:
        u, name, params = Unitary(2 ** k, np.diag(np.exp(1j * rng.uniform(0, 6, 2 ** k))), "Broad", {f"p{i}": (float(rng.normal()), False) for i in range(12)}), "Broad", []
        params = [u.get_parameter_value(f"p{i}")[0] for i in range(12)]
    s = UnitarySequence(2 ** n, [UnitarySequenceEntry(u, list(qubits))] * int(rng.integers(1, 3)))
    for text, parse, kind in ((s.get_qasm(), parse_qasm, "qasm_line"), (s.get_jaqal(), parse_jaqal, "jaqal_line"), (s.get_display_output(), parse_display, "display_line")):
        rows = [x for x in text.split("\n")[1:] if x.strip()]
        ctx.check(len(rows) == s.get_length(), kind, lambda: f"{text!r}")
        for row in rows:
            got = parse(ctx, row)
            values = [v if not isinstance(v, tuple) else v[-2] for v in got[1]]  # (value, is angle) or (name, value, is angle)
            tol = 2e-3 if kind == "display_line" else 2e-6
            ctx.check(got[0] == name and got[2] == qubits and len(values) == len(params) and all(abs(a - b) < tol for a, b in zip(values, params)), kind,
                      lambda: f"{row!r} for {name} {params} on {qubits}")
    ctx.key("broad", name, qubits)
    ctx.show(dict(qubits=n, text=row))


def c19_wide(ctx):
    """Sequences on systems with two-digit qubit indices: their text only (the matrices are large)."""
    rng = ctx.rng
    n = 11
    gates = [(UnitaryDefinitions.cnot(), "CNOT", 2), (UnitaryDefinitions.h(), "H", 1), (UnitaryDefinitions.ccnot(), "CCNOT", 3)]
    u, name, k = gates[rng.integers(3)]
    qubits = [int(q) for q in rng.permutation(n)[:k]]
    qubits[int(rng.integers(k))] = 10
    if len(set(qubits)) < k:
        qubits = list(range(11 - k, 11))
    s = UnitarySequence(2 ** n, [UnitarySequenceEntry(u, list(qubits))])
    for text, parse, kind in ((s.get_qasm(), parse_qasm, "qasm_line"), (s.get_jaqal(), parse_jaqal, "jaqal_line"), (s.get_display_output(), parse_display, "display_line")):
        row = [x for x in text.split("\n")[1:] if x.strip()]
        ctx.check(len(row) == 1, kind, lambda: f"{text!r}")
        got = parse(ctx, row[0])
        ctx.check(got[0] == name and got[2] == qubits, kind, lambda: f"{row[0]!r} for {name} on {qubits}")
    ctx.key("wide", name, qubits)
    ctx.show(dict(qubits=n, text=row))


def c19_compiled(ctx):
    """Compiled, RAV and XEB sequences: the text alone reproduces the product and, so, the reported cost."""
    rng = ctx.rng
    p = Problem(rng, bool(rng.integers(2)))
    r = p.run(int(rng.integers(1, 40)))
    runs = [(r, p.target_matrix)]
    if p.layered:
        r = Verification.generate_layered_rav_sequence(p.d, p.counts, 2, 0.9, max_step_count=8)
    else:
        r = Verification.generate_rav_sequence(p.d, p.given, 3, 0.9, unitary_primitive_probabilities=p.probs, max_step_count=8)
    runs.append((r, np.eye(p.d)))
    for r, target in runs:
        s = r.compiled_sequence
        want = []
        for line, e in zip(s.get_display_output().split("\n")[1:], s.get_sequence_entries()):
            prim, values, qubits, _ = gen.read_entry(ctx, e, p.byname, p.n)
            want.append(Line(prim.name, [(nm, v, a) for (nm, _, _, a), v in zip(prim.ranges, values)], qubits, prim.fn))
        check_exports(ctx, s, want, p.n, strength=6.0)
    ctx.key("compiled", *p.key())
    ctx.show(dict(p.describe(), text=s.get_qasm().split("\n")[1:3]))


def c19_hamiltonian(ctx):
    """Labels of time-evolution sequences name the terms that are applied, so the text determines the circuit."""
    rng = ctx.rng
    h = Ham(rng, max_n=2, max_terms=4, strength=float(rng.uniform(0.5, 2)))
    t = pick_time(rng)
    which = int(rng.integers(5))
    if which == 0:
        s = h.ham.get_trotter_sequence(t, int(rng.integers(1, 8)), bool(rng.integers(2)))
    elif which == 1:
        s = h.ham.get_qdrift_sequence(t, int(rng.integers(1, 20)))
    elif which == 2:
        s = h.ham.get_ideal_sequence(t, int(rng.integers(1, 8)))
    elif which == 3:
        s = h.ham.compile_stoq_sequence(float(rng.uniform(0.1, 0.8)), 0.3, 0.8, bool(rng.integers(2))).compiled_sequence
    else:
        s = h.ham.compile_rav_sequence(float(rng.uniform(0.1, 0.8)), 0.3, 0.0, bool(rng.integers(2))).compiled_sequence
    want = []
    for e in s.get_sequence_entries():
        full = e.get_full_unitary(h.d)
        name = full.get_operation_name()
        if which == 2:
            hm = h.total
        else:
            m = re.fullmatch(r"H(\d+(?:\+\d+)*)( λ/N)?", name)
            ctx.check(m is not None and (m[2] is not None) == (which == 1), "hamiltonian_label", lambda: f"label {name!r}")
            idx = [int(x) for x in m[1].split("+")]
            ctx.check(all(i < len(h.mats) for i in idx), "hamiltonian_label", lambda: f"label {name!r} for {len(h.mats)} terms")
            hm = np.sum([h.mats[i] for i in idx], axis=0)
            if which == 1:
                hm = hm / h.coefficients[idx[0]]
        value = full.get_parameter_value("t")
        want.append(Line(name, [("t", value[0], bool(value[1]))], list(range(h.n)), lambda v, hm=hm: ref.expi(hm, v)))
    check_exports(ctx, s, want, h.n)
    ctx.event(["trotter", "qdrift", "ideal", "stoq", "rav"][which])
    ctx.key("hamiltonian", which, h.n, len(h.mats), t)
    ctx.show(dict(h.describe(), text=s.get_display_output().split("\n")[1:4]))


# ------------------------------------------------------------------ C20

def result_print(s, costs, n):
    """Names, qubits and exact numbers of a result."""
    out = []
    for e in s.get_sequence_entries():
        full = e.get_full_unitary(2 ** n)
        params = re.findall(r"([\w\u0370-\u03ff]+)=", full.get_display_name())
        out.append([full.get_operation_name(), [int(q) for q in e.get_apply_to()],
                    [[k, float(full.get_parameter_value(k)[0])] for k in params],
                    [round(float(x), 9) + 0.0 for z in full.get_matrix().flat for x in (z.real, z.imag)][:8]])
    return [out, [float(c) for c in costs]]


def same(a, b, tol=1e-9):
    """Structural equality with numbers compared to tol."""
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= tol
    return a == b


class Programs:
    """Seeded calls to every random routine, all made from one recipe so that they can be repeated anywhere."""

    def __init__(self, recipe):
        rng = np.random.default_rng(recipe)
        self.p = Problem(rng, False)
        self.layered = Problem(rng, True)
        self.h = Ham(rng, max_n=2, max_terms=3, strength=1.5)
        self.steps = int(rng.integers(5, 60)) if rng.random() < 0.9 else int(rng.integers(100, 400))
        self.seed = int(rng.integers(2 ** 31))
        self.t = float(rng.uniform(0.1, 0.6))
        self.simultaneous = bool(rng.integers(2))
        self.many = [UnitaryPrimitive(make()) for make in rng.choice([ParameterizedUnitaryDefinitions.rotation_xy, ParameterizedUnitaryDefinitions.rotation_xyz],
                                                                     int(rng.integers(5, 13) if rng.random() < 0.85 else rng.integers(13, 40)))]
        self.wide = [UnitaryPrimitive(g) for g in (UnitaryDefinitions.ccnot(), UnitaryDefinitions.gms(3), UnitaryDefinitions.xx(),
                                                   ParameterizedUnitaryDefinitions.rotation_xy(), ParameterizedUnitaryDefinitions.gms(4))]

    def names(self):
        return ["compile", "compile_layered", "entry", "wide", "layer", "rav", "layered_rav", "xeb", "trotter", "qdrift", "stoq", "hrav", "random", "many", "many_layered", "many_rav"]

    def call(self, name, fresh=False):
        """Runs one routine on the generators' current state and returns (sequence, costs, qubits)."""
        p, l, h = self.p, self.layered, self.h
        seq = lambda e, n: UnitarySequence(2 ** n, e)
        if name == "compile":
            r = (p.make() if fresh else p.compiler).compile(p.target, 0.999, self.steps)
            return r.compiled_sequence, r.cost_by_step, p.n
        if name == "compile_layered":
            r = (l.make() if fresh else l.compiler).compile_layered(l.target, l.counts, 0.999, self.steps)
            return r.compiled_sequence, r.cost_by_step, l.n
        if name == "entry":
            return seq([Compiler.create_random_sequence_entry(p.d, p.given, p.probs) for _ in range(5)], p.n), [], p.n
        if name == "wide":
            e = [Compiler.create_random_sequence_entry(16, self.wide) for _ in range(6)] + list(Compiler.create_random_layer(16, {g: 1 for g in self.wide}))
            return seq(e, 4), [], 4
        if name == "layer":
            return seq(list(Compiler.create_random_layer(l.d, l.counts)), l.n), [], l.n
        if name == "rav":
            r = Verification.generate_rav_sequence(p.d, p.given, 4, 0.9, unitary_primitive_probabilities=p.probs, max_step_count=20)
            return r.compiled_sequence, r.cost_by_step, p.n
        if name == "layered_rav":
            r = Verification.generate_layered_rav_sequence(l.d, l.counts, 3, 0.9, max_step_count=20)
            return r.compiled_sequence, r.cost_by_step, l.n
        if name == "xeb":
            return Verification.generate_xeb_sequence(l.d, l.counts, 3).compiled_sequence, [], l.n
        if name == "trotter":
            return h.ham.get_trotter_sequence(self.t, 4, True), [], h.n
        if name == "qdrift":
            return h.ham.get_qdrift_sequence(self.t, 12), [], h.n
        if name == "stoq":
            r = h.ham.compile_stoq_sequence(self.t, 0.3, 0.9, self.simultaneous)
            return r.compiled_sequence, r.cost_by_step, h.n
        if name == "hrav":
            r = h.ham.compile_rav_sequence(self.t, 0.3, 0.7, self.simultaneous)
            return r.compiled_sequence, r.cost_by_step, h.n
        if name == "many":
            r = Compiler(2, self.many).compile(l.target if l.d == 2 else UnitaryDefinitions.h(), 0.9999, 12)
            return r.compiled_sequence, r.cost_by_step, 1
        if name == "many_layered":
            r = Compiler(2, self.many).compile_layered(UnitaryDefinitions.h(), {g: 1 for g in self.many}, 0.9999, 4)
            return r.compiled_sequence, r.cost_by_step, 1
        if name == "many_rav":
            r = Verification.generate_rav_sequence(2, self.many, len(self.many), 0.99, max_step_count=6)
            return r.compiled_sequence, r.cost_by_step, 1
        u = Unitary.random(4)
        return seq([UnitarySequenceEntry(u, [0, 1])], 2), [], 2

    def seeded(self, name, seed=None, fresh=False):
        seed = self.seed if seed is None else seed
        np.random.seed(seed)
        random.seed(seed)
        s, costs, n = self.call(name, fresh)
        return result_print(s, costs, n)


def states():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), *s[2:]), random.getstate()


def c20_repeat(ctx):
    rng = ctx.rng
    recipe = int(rng.integers(2 ** 31))
    g = Programs(recipe)
    names = g.names()
    first = {k: g.seeded(k, fresh=True) for k in names}
    # other uses of the same objects, then the same again
    for _ in range(6):
        k = names[rng.integers(len(names))]
        s, costs, n = g.call(k)
        if rng.random() < 0.3:
            s.append_first(UnitarySequenceEntry(UnitaryDefinitions.h(), [0]))
            s.undo()
            s.inverse()
    if rng.random() < 0.5:  # other targets, thresholds and lengths on the same compilers
        g.p.compiler.compile(Unitary(g.p.d, gen.haar(rng, g.p.d)), 1.0, int(rng.integers(1, 80)))
        g.layered.compiler.compile_layered(Unitary(g.layered.d, gen.haar(rng, g.layered.d)), g.layered.counts, None, int(rng.integers(1, 80)))
        g.p.compiler.compile_layered(g.p.target, g.p.counts, 0.5, 10)
    order = [names[i] for i in rng.permutation(len(names))]
    stalled = {order[0], order[5]} if rng.random() < 0.6 else set()
    for k in order:
        with slow_machine(rng, k in stalled):
            again = g.seeded(k)
        ctx.check(same(again, first[k]), "same_seed_same_result", lambda: f"{k}: {str(again)[:500]} / {str(first[k])[:500]}")
        ctx.event("repeated_" + k)
    rebuilt = Programs(recipe)
    for k in order[:4]:
        again = rebuilt.seeded(k)
        ctx.check(same(again, first[k]), "same_seed_new_objects", lambda: f"{k}: {str(again)[:500]} / {str(first[k])[:500]}")
    ctx.key("repeat", recipe)
    ctx.show(dict(recipe=recipe, compile=g.p.describe()))


def c20_fresh(ctx):
    """No reseeding or rewinding: other seeds and later calls give other results, and the generators move on."""
    rng = ctx.rng
    g = Programs(int(rng.integers(2 ** 31)))
    continuous = gen.standard_prims(rng, 1)[:2]
    for problem in (g.p, g.layered):
        problem.n, problem.d = 1, 2
        problem.prims = continuous
        problem.byname = {q.name: q for q in continuous}
        continuous_free = [UnitaryPrimitive(q.primitive.get_unitary()) for q in continuous]
        problem.given, problem.probs = continuous_free, None
        problem.counts = {q: 1 for q in continuous_free}
        problem.target = Unitary(2, gen.haar(rng, 2))
        problem.compiler = Compiler(2, continuous_free, append_probability=1.0, annealing_rate=0.0)
    names = [k for k in g.names() if k not in ("trotter", "qdrift", "stoq", "hrav")]
    if g.t > 0:
        names.append("hrav")
    for k in names:
        a, b = g.seeded(k, 11), g.seeded(k, 12)
        end_b = states()
        ctx.check(not same(a, b), "other_seed_other_result", lambda: f"{k}: the same result from two seeds")
        c = result_print(*g.call(k))
        ctx.check(not same(c, a) and not same(c, b), "successive_results_differ", lambda: f"{k}: a later call repeats an earlier result")
        g.seeded(k, 13)
        ctx.check(states()[0] != end_b[0] or states()[1] != end_b[1], "not_reseeded", lambda: f"{k} leaves the generators in a fixed state")
        np.random.seed(5)
        random.seed(5)
        before = states()
        g.call(k)
        after = states()
        ctx.check(after != before, "not_rewound", lambda: f"{k} rewinds the generators")
        ctx.event("fresh_" + k)
    # shuffles and term draws: over many calls, not all equal
    h = Ham(rng, max_n=1, max_terms=3, min_terms=3, commuting=False)
    for k, fn in (("trotter", lambda: h.ham.get_trotter_sequence(0.7, 8, True)), ("qdrift", lambda: h.ham.get_qdrift_sequence(0.7, 200))):
        texts = set()
        for _ in range(4):
            texts.add(fn().get_qasm())
        if k == "trotter" or np.max(h.coefficients) / np.sum(h.coefficients) < 0.9:
            ctx.check(len(texts) > 1, "successive_results_differ", lambda: f"{k}: four calls gave the same sequence")
    # deterministic routines draw nothing
    before = states()
    h.ham.get_trotter_sequence(0.4, 3)
    h.ham.get_ideal_sequence(0.4, 3)
    h.ham.get_time_evolution_operator(0.4)
    s = h.ham.get_trotter_sequence(0.4, 3)
    s.product(), s.inverse(), s.get_qasm(), UnitarySequence.combine(s, s)
    ctx.check(states() == before, "generators_untouched", "a deterministic routine moved a random generator")
    ctx.key("fresh", ctx.index)
    ctx.show(dict(routines=names))


def c20_processes(ctx):
    """The same recipe in a new process with another hash seed."""
    recipe = int(ctx.rng.integers(2 ** 31))
    g = Programs(recipe)
    here = json.loads(json.dumps({k: g.seeded(k) for k in g.names()}))
    env = dict(os.environ, PYTHONHASHSEED=str(int(ctx.rng.integers(1, 10 ** 6))))
    out = subprocess.run([sys.executable, "-W", "ignore", "-m", "rv.repro", str(recipe)], cwd=HERE, env=env, capture_output=True, text=True, timeout=300)
    ctx.check(out.returncode == 0, "process_runs", lambda: out.stderr[-1500:])
    there = json.loads(out.stdout.strip().split("\n")[-1])
    for k in g.names():
        ctx.check(same(here[k], there[k]), "same_in_new_process", lambda: f"{k}: {str(there[k])[:500]} / {str(here[k])[:500]}")
        ctx.event("compared_" + k)
    ctx.key("process", recipe)
    ctx.show(dict(recipe=recipe, hash_seed=env["PYTHONHASHSEED"]))


# ------------------------------------------------------------------ C21

def clearly_off(rng, u):
    """A matrix near u that is measurably not unitary."""
    d = len(u)
    while True:
        m = u + 10.0 ** rng.uniform(-3.5, -1) * rng.normal(size=(d, d)) @ np.diag(np.arange(1, d + 1))
        if np.abs(m @ m.conj().T - np.eye(d)).max() > 3e-4 and np.abs(m.conj().T @ m - np.eye(d)).max() > 3e-4:
            return m


def bad_matrices(rng, d):
    """(description, matrix) pairs that are not unitary d x d matrices."""
    u = gen.haar(rng, d)
    out = [("scaled", u * float(rng.choice([1.001, 0.5, 2.0]))),
           ("perturbed", clearly_off(rng, u)),
           ("zero", np.zeros((d, d))), ("ones", np.ones((d, d)) * 2), ("wide", np.ones((d, d + 1)) / np.sqrt(d)),
           ("tall", np.eye(d + 1)[:, :d]), ("larger", np.eye(d + 1)), ("vector", np.ones(d)), ("empty", np.zeros((0, 0))),
           ("stack", np.array([np.eye(d)] * 2))]
    nan = u.copy()
    nan.flat[rng.integers(d * d)] = np.nan
    inf = u.copy()
    inf.flat[rng.integers(d * d)] = np.inf
    out += [("nan", nan), ("inf", inf)]
    if d > 1:
        skew = u.copy()
        skew[:, 0] = skew[:, 1]
        # unit columns, unit rows or unit determinant, but not orthogonal
        a, b = rng.permutation(d)[:2]
        leaning = u.copy()
        x = 10.0 ** rng.uniform(-2, 0)
        leaning[:, a] = (u[:, a] + x * u[:, b]) / np.sqrt(1 + x * x)
        stretched = np.eye(d, dtype=complex)
        stretched[a, a], stretched[b, b] = 1.01, 1 / 1.01
        out += [("leaning column", leaning), ("leaning row", leaning.T), ("leaning column of unit determinant", leaning / np.linalg.det(leaning) ** (1 / d)),
                ("stretched", u @ stretched)]
        upper = np.eye(d)
        upper[0, d - 1] = 0.3
        out += [("repeated column", skew), ("shear", upper), ("smaller", np.eye(d - 1))]
        partial = np.eye(d)
        partial[d - 1, d - 1] = 0
        out.append(("projector", partial))
    return out


def c21_operations(ctx):
    rng = ctx.rng
    R = lambda what, fn: ctx.rejects("rejected", fn, what)
    d = int(rng.choice([1, 2, 3, 4, 8, 16, 17, 32, 64]))
    for what, m in bad_matrices(rng, d):
        R(f"a {what} matrix for dimension {d}", lambda: Unitary(d, m))
        ctx.event("matrix_" + what)
    good = gen.haar(rng, d)
    for what, fn in [
            ("dimension zero", lambda: Unitary(0)), ("a negative dimension", lambda: Unitary(-d)),
            ("a matrix given as a list", lambda: Unitary(d, good.tolist())), ("a text as matrix", lambda: Unitary(d, "I")),
            ("a number as name", lambda: Unitary(d, good, 3)), ("a list as parameters", lambda: Unitary(d, good, "A", [1.0])),
            ("a text as inverse marking", lambda: Unitary(d, good, "A", {}, "yes")), ("an operation as matrix", lambda: Unitary(d, Unitary(d, good)))]:
        R(what, fn)
    u = Unitary(d, good)
    other = int(rng.choice([x for x in (1, 2, 3, 4, 8) if x != d]))
    v = Unitary(other, gen.haar(rng, other))
    for what, fn in [
            ("left multiplication by another dimension", lambda: u.left_multiply(v)), ("right multiplication by another dimension", lambda: u.right_multiply(v)),
            ("a distance to another dimension", lambda: u.distance_from(v)), ("closeness to another dimension", lambda: u.close_to(v)),
            ("closeness to another dimension", lambda: u.close_to(v, 0.5)), ("a distance to a smaller matrix", lambda: u.distance_from(np.eye(other))),
            ("a distance to a list", lambda: u.distance_from(good.tolist())), ("a distance to nothing", lambda: u.distance_from(None)),
            ("a tensor product with a matrix", lambda: u.tensor(good)), ("a product with a matrix", lambda: u.left_multiply(good)),
            ("a product with a matrix", lambda: u.right_multiply(good))]:
        R(what, fn)
    # placement
    n = int(rng.integers(2, 5))
    k = int(rng.integers(1, n + 1))
    w = Unitary(2 ** k, gen.haar(rng, 2 ** k))
    q = [int(x) for x in rng.permutation(n)[:k]]
    form = [list, tuple, np.array][rng.integers(3)]
    R("no qubits", lambda: UnitarySequenceEntry(w, []))
    R("a negative qubit", lambda: UnitarySequenceEntry(w, form(q[:-1] + [-1])))
    R("too many qubits", lambda: UnitarySequenceEntry(w, form(q + [n])))
    shifted = [float(x) for x in q]
    shifted[rng.integers(k)] += float(rng.choice([0.5, 0.25, 1e-3, 0.999]))
    R("a fractional qubit", lambda: UnitarySequenceEntry(w, form(shifted)))
    far = int(rng.choice([n, n + 1, 30, 31, 61, 62, 63, 64, 65, 127, 200, 1000]))
    one = UnitarySequenceEntry(Unitary(2, gen.haar(rng, 2)), [far])
    R("a sequence with an entry on a missing qubit", lambda: UnitarySequence(2 ** n, [one]))
    R("an entry placed on a missing qubit", lambda: one.get_full_unitary(2 ** n))
    if k > 1:
        R("a repeated qubit", lambda: UnitarySequenceEntry(w, form(q[:-1] + [q[0]])))
        R("too few qubits", lambda: UnitarySequenceEntry(w, form(q[:-1])))
    if max(q) >= 1:
        e = UnitarySequenceEntry(w, q)
        if rng.random() < 0.5:
            e.get_full_unitary(2 ** n)
        R("placement on too small a system", lambda: e.get_full_unitary(2 ** max(q)))
        R("a sequence too small for its entry", lambda: UnitarySequence(2 ** max(q), [e]))
    x = Unitary(3, gen.haar(rng, 3))
    R("qubits for a three-level operation", lambda: UnitarySequenceEntry(x, [0]))
    ctx.key("operations", d, other, n, q)
    ctx.show(dict(dimension=d, other=other, placement=q))


def c21_definitions(ctx):
    rng = ctx.rng
    R = lambda what, fn: ctx.rejects("rejected", fn, what)
    lo, hi = sorted(float(x) for x in rng.normal(size=2) * 3)
    P = ParameterizedUnitaryParameter
    R("a reversed range", lambda: P("x", hi, lo - 1e-9, True))
    R("an empty parameter name", lambda: P("", lo, hi, True))
    R("an undefined range", lambda: P("x", float("nan"), hi, True))
    R("an undefined range", lambda: P("x", lo, float("nan"), True))
    k = int(rng.integers(1, 4))
    los, his = rng.uniform(-3, 0, k), rng.uniform(0.1, 3, k)
    params = [P(f"x{i}", float(los[i]), float(his[i]), bool(rng.integers(2))) for i in range(k)]
    fn = lambda *v: ref.rot(ref.Z, sum(v))
    pu = ParameterizedUnitary(2, fn, params, "P")
    mid = [float((a + b) / 2) for a, b in zip(los, his)]
    i = int(rng.integers(k))
    for what, value in [("above", float(his[i]) + 10.0 ** rng.uniform(-9, 2)), ("below", float(los[i]) - 10.0 ** rng.uniform(-9, 2)),
                        ("nan", float("nan")), ("inf", float("inf")), ("-inf", float("-inf"))]:
        bad = list(mid)
        bad[i] = value
        R(f"parameter {i} of {k} {what} its range", lambda: pu.as_unitary(bad if rng.random() < 0.5 else np.array(bad)))
        ctx.event("parameter_" + what)
    R("a missing value", lambda: pu.as_unitary(mid[:-1]))
    R("an extra value", lambda: pu.as_unitary(mid + [0.0]))
    R("a number for the values", lambda: pu.as_unitary(0.5))
    R("dimension zero", lambda: ParameterizedUnitary(0, fn, params, "P"))
    R("no function", lambda: ParameterizedUnitary(2, np.eye(2), params, "P"))
    R("names for parameters", lambda: ParameterizedUnitary(2, fn, ["x"], "P"))
    R("no name", lambda: ParameterizedUnitary(2, fn, params, None))
    R("a matrix function that is not unitary", lambda: ParameterizedUnitary(2, lambda *v: np.ones((2, 2)), params, "P").as_unitary(mid))
    R("a matrix function of another dimension", lambda: ParameterizedUnitary(4, fn, params, "P").as_unitary(mid))
    D = ParameterizedUnitaryDefinitions
    for what, g, size in [("Rxy", D.rotation_xy(), 2), ("Rxyz", D.rotation_xyz(), 3), ("XX", D.xx(), 1), ("GMS", D.gms(2), 1),
                          ("evolution", D.time_evolution(gen.hermitian(rng, 2), -1.0, 2 * np.pi), 1)]:
        j = int(rng.integers(size))
        bad = [0.5] * size
        bad[j] = float(rng.choice([2 * np.pi + 1e-6, -1.000001, 100.0, -100.0]))
        R(f"value {bad[j]} for {what}", lambda: g.as_unitary(bad))
    R("a reversed range for an evolution", lambda: D.time_evolution(gen.hermitian(rng, 2), 1.0, 0.5))
    # primitives
    w = int(rng.integers(1, 4))
    u = Unitary(2 ** w, gen.haar(rng, 2 ** w))
    good = [[int(x) for x in rng.permutation(4)[:w]] for _ in range(2)]
    R("a negative qubit for a primitive", lambda: UnitaryPrimitive(u, good + [good[0][:-1] + [-1]]))
    R("too many qubits for a primitive", lambda: UnitaryPrimitive(u, good + [good[0] + [9]]))
    if w > 1:
        R("a repeated qubit for a primitive", lambda: UnitaryPrimitive(u, [good[0][:-1] + [good[0][0]]] + good))
        R("too few qubits for a primitive", lambda: UnitaryPrimitive(u, good + [good[0][:-1]]))
    # Hamiltonians
    d = int(rng.choice([2, 3, 4]))
    h = gen.hermitian(rng, d, "dense")
    skew = h.copy()
    skew[0, d - 1] += complex(rng.choice([1e-3, 0.5, 1j]))
    R("a non-Hermitian term", lambda: HamiltonianTerm(skew))
    R("an anti-Hermitian term", lambda: HamiltonianTerm(1j * h))
    R("a complex diagonal", lambda: HamiltonianTerm(np.diag(np.arange(d) + 1) + 0.1j * np.eye(d)))
    R("a rectangular term", lambda: HamiltonianTerm(np.ones((d, d + 1))))
    R("a row of equal numbers as a term", lambda: HamiltonianTerm(np.full((1, d), 0.5)))
    R("a column of equal numbers as a term", lambda: HamiltonianTerm(np.full((d, 1), 0.5)))
    R("a term given as a list", lambda: HamiltonianTerm(h.tolist()))
    bad = h.copy()
    bad[0, 0] = np.nan
    R("a nan term", lambda: HamiltonianTerm(bad))
    inf = h.copy()
    inf[0, 0] = np.inf
    R("an infinite term", lambda: HamiltonianTerm(inf))
    t, t2 = HamiltonianTerm(h), HamiltonianTerm(gen.hermitian(rng, d + 1, "dense"))
    R("no terms", lambda: Hamiltonian([]))
    terms = [t] * int(rng.integers(1, 4)) + [t2]
    R("terms of different dimensions", lambda: Hamiltonian([terms[j] for j in rng.permutation(len(terms))]))
    R("matrices for terms", lambda: Hamiltonian([t, h]))
    R("a single term without a list", lambda: Hamiltonian(t))
    R("nothing as terms", lambda: Hamiltonian(None))
    ctx.key("definitions", k, i, w, d, ctx.index)
    ctx.show(dict(ranges=[[float(a), float(b)] for a, b in zip(los, his)], term_dimension=d))


def c21_compilation(ctx):
    rng = ctx.rng
    R = lambda what, fn: ctx.rejects("rejected", fn, what)
    n = int(rng.choice([1, 2]))
    d = 2 ** n
    prims = gen.primitive_set(rng, n)
    given = [p.primitive for p in prims]
    big = UnitaryPrimitive(Unitary(2 * d, gen.haar(rng, 2 * d)))
    counts = {p: 1 for p in given}
    target = Unitary(d, gen.haar(rng, d))
    wrong = Unitary(2 * d, gen.haar(rng, 2 * d))
    mixed = given + [big]
    mixed = [mixed[i] for i in rng.permutation(len(mixed))]
    listed = UnitaryPrimitive(big.get_unitary(), [list(range(n + 1))] + ([[int(q) for q in rng.permutation(n + 1)]] if rng.random() < 0.5 else []))
    mixed_listed = given + [listed]
    mixed_listed = [mixed_listed[i] for i in rng.permutation(len(mixed_listed))]
    c = Compiler(d, given)
    V = Verification
    for what, fn in [
            ("compiler of dimension zero", lambda: Compiler(0, given)), ("compiler with too large a primitive", lambda: Compiler(d, mixed)),
            ("compiler with too large a primitive on listed qubits", lambda: Compiler(d, mixed_listed)),
            ("RAV with too large a primitive on listed qubits", lambda: V.generate_rav_sequence(d, mixed_listed, 2, 0.0)),
            ("RAV with too large a primitive on listed qubits and no gates", lambda: V.generate_rav_sequence(d, mixed_listed, 0, 0.9, max_step_count=3)),
            ("layered RAV with too large a primitive on listed qubits",
             lambda: V.generate_layered_rav_sequence(d, {**counts, listed: 1}, 1, 0.9, max_step_count=3)),
            ("XEB with too large a primitive on listed qubits", lambda: V.generate_xeb_sequence(d, {**counts, listed: 1}, 1)),
            ("a random entry of too large a primitive on listed qubits", lambda: Compiler.create_random_sequence_entry(d, [listed]).get_full_unitary(d)),
            ("compiler with operations for primitives", lambda: Compiler(d, given + [UnitaryDefinitions.h()])),
            ("compiler with one primitive without a list", lambda: Compiler(d, given[0])), ("compiler with a set of primitives", lambda: Compiler(d, set(given))),
            ("compilation without primitives", lambda: Compiler(d, []).compile(target, 0.9, 5)),
            ("a larger target", lambda: c.compile(wrong, 0.9, 5)), ("a matrix as target", lambda: c.compile(target.get_matrix(), 0.9, 5)),
            ("a sequence as target", lambda: c.compile(UnitarySequence(d), 0.9, 5)), ("no target", lambda: c.compile(None, 0.9, 5)),
            ("a larger target for layers", lambda: c.compile_layered(wrong, counts, 0.9, 5)),
            ("a matrix as target for layers", lambda: c.compile_layered(target.get_matrix(), counts, 0.9, 5)),
            ("a list of counts", lambda: c.compile_layered(target, [(p, 1) for p in given], 0.9, 5)),
            ("RAV with a negative length", lambda: V.generate_rav_sequence(d, given, -1, 0.9)),
            ("RAV with a threshold above one", lambda: V.generate_rav_sequence(d, given, 2, 1.0 + 10.0 ** rng.uniform(-6, 1), max_step_count=3)),
            ("RAV with a negative threshold", lambda: V.generate_rav_sequence(d, given, 2, -10.0 ** rng.uniform(-6, 1), max_step_count=3)),
            ("RAV with too large a primitive", lambda: V.generate_rav_sequence(d, mixed, 2, 0.0)),
            ("RAV with too large a primitive and no gates", lambda: V.generate_rav_sequence(d, mixed, 0, 0.9, max_step_count=3)),
            ("RAV with a tuple of operations", lambda: V.generate_rav_sequence(d, [UnitaryDefinitions.h()], 2, 0.9, max_step_count=3)),
            ("RAV with a set of primitives", lambda: V.generate_rav_sequence(d, set(given), 2, 0.9, max_step_count=3)),
            ("layered RAV with a negative count of layers", lambda: V.generate_layered_rav_sequence(d, counts, -1, 0.9)),
            ("layered RAV with a threshold above one", lambda: V.generate_layered_rav_sequence(d, counts, 1, 1.0 + 10.0 ** rng.uniform(-6, 1), max_step_count=3)),
            ("layered RAV with a negative threshold", lambda: V.generate_layered_rav_sequence(d, counts, 1, -10.0 ** rng.uniform(-6, 1), max_step_count=3)),
            ("layered RAV with a list", lambda: V.generate_layered_rav_sequence(d, given, 1, 0.9, max_step_count=3)),
            ("layered RAV with too large a primitive", lambda: V.generate_layered_rav_sequence(d, {**counts, big: 1}, 1, 0.9, max_step_count=3)),
            ("layered RAV with a fractional count", lambda: V.generate_layered_rav_sequence(d, {**counts, given[0]: 1.5}, 1, 0.9, max_step_count=3)),
            ("layered RAV with operations", lambda: V.generate_layered_rav_sequence(d, {UnitaryDefinitions.h(): 1}, 1, 0.9, max_step_count=3)),
            ("XEB with too large a primitive", lambda: V.generate_xeb_sequence(d, {**counts, big: 1}, 1)),
            ("XEB with a negative count of layers", lambda: V.generate_xeb_sequence(d, counts, -2)),
            ("a random entry of too large a primitive", lambda: Compiler.create_random_sequence_entry(d, [big])),
            ("a random layer of too large a primitive", lambda: Compiler.create_random_layer(d, {big: 1})),
            ("combination of nothing", lambda: UnitarySequence.combine()),
            ("combination of two dimensions", lambda: UnitarySequence.combine(UnitarySequence(d), UnitarySequence(2 * d))),
            ("combination of two dimensions", lambda: UnitarySequence.combine(UnitarySequence(d), UnitarySequence(d), UnitarySequence(4 * d))),
            ("combination with an operation", lambda: UnitarySequence.combine(UnitarySequence(d), target)),
            ("combination with a list", lambda: UnitarySequence.combine([UnitarySequence(d), UnitarySequence(d)])),
            ("a sequence of operations", lambda: UnitarySequence(d, [target])), ("a sequence of nothing", lambda: UnitarySequence(d, None)),
            ("a sequence from a number", lambda: UnitarySequence(d, 3))]:
        R(what, fn)
        ctx.event("tried")
    # the objects still work
    r = c.compile(target, 0.5, 3)
    ctx.check(len(r.cost_by_step) <= 3, "still_works", "the compiler no longer works")
    ctx.key("compilation", n, [p.describe() for p in prims], ctx.index)
    ctx.show(dict(qubits=n, primitives=[p.describe() for p in prims]))


def c21_edits(ctx):
    """Rejected edits in the middle of a history leave entries, product and undo state alone."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3]))
    pool = make_pool(rng, n, 4)
    s, model = UnitarySequence(2 ** n), Model()
    bigger = UnitarySequenceEntry(Unitary(2 ** (n + 1), gen.haar(rng, 2 ** (n + 1))), list(range(n + 1)))
    outside = UnitarySequenceEntry(Unitary(2, gen.haar(rng, 2)), [int(rng.choice([n, n + 1, n + 2, n, n + 1, n + 2, 31, 62, 63, 64, 200]))])
    if rng.random() < 0.5 and max(outside.get_apply_to()) < n + 4:
        outside.get_full_unitary(2 ** (n + 4))
    bad = [("too large an entry", bigger), ("an entry on a missing qubit", outside), ("an operation", Unitary(2, gen.haar(rng, 2))),
           ("nothing", None), ("a sequence", UnitarySequence(2 ** n)), ("a list of entries", [pool[0][0]])]
    for step in script(rng, 14, len(pool)):
        apply(ctx, s, model, step, pool, n, "undo_rejected")
        if rng.random() < 0.3:
            s.product()
        for _ in range(int(rng.integers(0, 3))):
            what, b = bad[rng.integers(len(bad))]
            end = str(rng.choice(["append_first", "append_last"]))
            save = bool(rng.integers(2))
            ctx.rejects("edit_rejected", lambda: getattr(s, end)(b, save) if save else getattr(s, end)(b, save_undo=False), what)
            check_entries(ctx, s, model.items, n, "rejected_leaves_entries", f"after rejecting {what}")
            if rng.random() < 0.4:
                check_product(ctx, s, model.items, n, "rejected_leaves_product", f"after rejecting {what}")
            ctx.event("rejected_edit")
        if model.saved is not None and rng.random() < 0.25:
            apply(ctx, s, model, ("undo", None, None), pool, n, "undo_rejected")
            check_entries(ctx, s, model.items, n, "rejected_leaves_undo", "after undo following rejected edits")
            check_product(ctx, s, model.items, n, "rejected_leaves_undo", "after undo following rejected edits")
    check_entries(ctx, s, model.items, n, "rejected_leaves_entries", "at the end", matrices=True)
    check_product(ctx, s, model.items, n, "rejected_leaves_product", "at the end")
    ctx.key("edits", n, ctx.index)
    ctx.show(dict(qubits=n, length=len(model.items)))


PROPERTIES = {
    "C18": dict(
        workloads=[Workload("plain", c18_plain, 200, 9000, needs=["random_part", "random_part_first", "rav_cost", "rav_threshold", "random_only"]),
                   Workload("layered", c18_layered, 150, 6000, needs=["whole_layers", "rav_cost"]),
                   Workload("xeb", c18_xeb, 100, 4000, needs=["xeb_shape", "xeb_fresh"]),
                   Workload("deep", c18_deep, 8, 100, needs=["deep_shape"]),
                   Workload("long", c18_long, 40, 1500, needs=["rav_threshold"])],
        rule="RAV generators over random primitive sets, lengths, thresholds (0 and 1 included), step limits and append probabilities; each run repeated with every shorter "
             "limit on the same random stream; clocks that jump. Distinct by problem, length, threshold and limit.",
        assumptions=["a run with a smaller step limit follows the same trajectory (probed; where it does not, each run is judged by itself)"]),
    "C19": dict(
        workloads=[Workload("built", c19_built, 600, 25000, needs=["rebuilt_qasm", "rebuilt_jaqal", "qasm_values", "jaqal_values", "display_values", "display_line"]),
                   Workload("wide", c19_wide, 1, 40),
                   Workload("broad", c19_broad, 12, 600),
                   Workload("compiled", c19_compiled, 150, 6000),
                   Workload("hamiltonian", c19_hamiltonian, 150, 5000, needs=["hamiltonian_label"])],
        rule="Hand-built, edited, inverted, compiled and Hamiltonian sequences; all three texts parsed back line by line and the circuit rebuilt from the text alone. "
             "Distinct by names, qubits and inverse markings.",
        assumptions=["the text format is that of the existing exporters", "gate names determine their matrices (reference table or the harness's own primitives)"]),
    "C20": dict(
        workloads=[Workload("repeat", c20_repeat, 100, 4000, needs=["same_seed_same_result", "same_seed_new_objects"]),
                   Workload("fresh", c20_fresh, 60, 2000, needs=["other_seed_other_result", "successive_results_differ", "not_reseeded", "generators_untouched"]),
                   Workload("processes", c20_processes, 12, 150, needs=["same_in_new_process"])],
        rule="Thirteen random routines run from one seed on fresh objects, on used objects, on rebuilt objects and in new processes with other hash seeds; seeds and generator "
             "states compared; clocks that jump. Distinct by recipe.",
        assumptions=["results compared by names, qubits, parameters and costs to 1e-9", "the random state is that of numpy's and Python's global generators"]),
    "C21": dict(
        workloads=[Workload("operations", c21_operations, 200, 8000, needs=["rejected"]),
                   Workload("definitions", c21_definitions, 150, 6000),
                   Workload("compilation", c21_compilation, 80, 3000, needs=["still_works"]),
                   Workload("edits", c21_edits, 250, 10000, needs=["edit_rejected", "rejected_leaves_entries", "rejected_leaves_product", "rejected_leaves_undo"])],
        rule="Malformed variants of valid inputs to every public entry point, randomised in size, position and degree; rejected edits injected into random histories. "
             "Distinct by dimensions, positions and case.",
        assumptions=["any ordinary exception is a rejection", "matrices off by less than 1e-4 are not offered as malformed"]),
}
