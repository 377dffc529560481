"""C01-C06: operations."""
import itertools

import numpy as np

from . import gen, ref
from .core import Workload
from .lib import (
    Compiler, Hamiltonian, HamiltonianTerm, ParameterizedUnitary,
    ParameterizedUnitaryDefinitions, ParameterizedUnitaryParameter, Unitary,
    UnitaryDefinitions, UnitarySequence, UnitarySequenceEntry, Verification)
from .monitors import assert_valid, matrix_state, watch_unitaries

DIMS = [1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 16, 32]


def _dim(rng, dims=DIMS):
    if dims is DIMS and rng.random() < 0.02:
        return int(rng.choice([33, 48, 64, 100, 128]))
    return int(dims[rng.integers(len(dims))])


# ------------------------------------------------------------------ C01

def c01_construct(ctx):
    """Single constructions from every kind, dtype, phase and memory layout."""
    rng = ctx.rng
    for _ in range(20):
        d = _dim(rng, DIMS + [64])
        m, kind = gen.unitary(rng, d)
        dtype = "complex128"
        r = rng.random()
        if kind in ("perm", "signs") and r < 0.5:
            m = np.round(np.real(m))
            dtype = str(rng.choice(["int64", "int8", "float64", "float32"]))
            m = m.astype(dtype)
        elif kind in ("perm", "signs"):
            m, dtype = m.astype(np.complex64), "complex64"  # exactly representable
        elif r < 0.3:
            m = np.asfortranarray(m)
        elif r < 0.4:
            m = np.array(np.ascontiguousarray(m.conj().T)).conj().T  # non-contiguous view
        with watch_unitaries(ctx):
            u = Unitary(d, m) if rng.random() < 0.7 else Unitary(dimension=d, matrix=m, operation_name="V")
        assert_valid(ctx, u, d, 1e-7, f"Unitary({kind}, {dtype})")
        diff = ref.phase_diff(u.get_matrix(), m.astype(complex))
        ctx.check(diff < 1e-10, "represents_input", lambda: f"{kind} {d} {dtype}: differs by {diff}")
        ctx.key(d, kind, dtype, round(float(np.angle(m.astype(complex).flat[0])), 6))
    d = _dim(rng)
    for u in (Unitary(d), Unitary.identity(d), Unitary(d, None, "N")):
        assert_valid(ctx, u, d, 1e-12, "identity")
        ctx.check(ref.phase_diff(u.get_matrix(), np.eye(d)) < 1e-12, "default_identity", f"dimension {d}")
    u = Unitary.random(d)
    assert_valid(ctx, u, d, 1e-9, "random")
    ctx.show(dict(dimension=d, kinds=kind, dtype=dtype))


def c01_large(ctx):
    """Larger systems, up to eight qubits and odd dimensions, by every route that leads there."""
    rng = ctx.rng
    d = int(rng.choice([48, 64, 65, 81, 100, 128, 128, 243, 256]))
    with watch_unitaries(ctx, 1e-8):
        m = gen.unitary(rng, d, str(rng.choice(["haar", "phaseperm", "diag", "reflection", "phase_identity", "near_identity"])))[0]
        u = Unitary(d, np.array(m))
        v = Unitary.random(d)
        for x, want, what in ((u, m, "constructed"), (u.inverse(), m.conj().T, "inverted"), (u.left_multiply(v), v.get_matrix() @ m, "multiplied")):
            diff = ref.phase_diff(x.get_matrix(), want)
            ctx.check(diff < 1e-10, "large_value", lambda: f"dimension {d}, {what}: off by {diff}")
        a = int(rng.choice([2, 3, 4, 8]))
        small = gen.haar(rng, a)
        big = gen.haar(rng, 256 // a if rng.random() < 0.5 else 128 // a)
        t = Unitary(a, np.array(small)).tensor(Unitary(len(big), np.array(big)))
        ctx.check(ref.phase_diff(t.get_matrix(), np.kron(small, big)) < 1e-10, "large_value", f"tensor product of dimension {a * len(big)}")
        if d in (64, 128, 256):
            n = int(np.log2(d))
            q, given = gen.placement(rng, 2, n)
            g = gen.haar(rng, 4)
            e = UnitarySequenceEntry(Unitary(4, np.array(g)), given)
            ctx.check(ref.phase_diff(e.get_full_unitary(d).get_matrix(), ref.embed(g, q, n)) < 1e-10, "large_value", f"two-qubit operation on {q} of {n}")
            s = UnitarySequence(d, [e, e])
            ctx.check(ref.phase_diff(s.product().get_matrix(), ref.embed(g @ g, q, n)) < 1e-10, "large_value", f"sequence on {n} qubits")
            x = UnitaryDefinitions.time_evolution(np.diag(rng.normal(size=d)).astype(complex), float(rng.normal()))
            ctx.event("large_system")
    ctx.key("large", d, ctx.index)
    ctx.show(dict(dimension=d))


def c01_chain(ctx):
    """Long chains of operations on operations, watching every construction inside the library."""
    rng = ctx.rng
    d = int(rng.choice([2, 2, 3, 4, 4, 5, 8]))
    u = Unitary(d, gen.unitary(rng, d)[0])
    exact = np.array(u.get_matrix())
    length = int(rng.choice([30, 100, 400]))
    pool = [Unitary(d, gen.unitary(rng, d)[0]) for _ in range(6)]
    with watch_unitaries(ctx):
        for _ in range(length):
            f = pool[rng.integers(len(pool))]
            op = rng.integers(4)
            if op == 0:
                u, exact = u.left_multiply(f), f.get_matrix() @ exact
            elif op == 1:
                u, exact = u.right_multiply(f), exact @ f.get_matrix()
            elif op == 2:
                u, exact = u.inverse(), exact.conj().T
            else:
                u, exact = u.left_multiply(f.inverse()), f.get_matrix().conj().T @ exact
        assert_valid(ctx, u, d, 1e-8, f"chain of {length}")
    ctx.check(ref.phase_diff(u.get_matrix(), exact) < 1e-9, "chain_value", lambda: f"drift {ref.phase_diff(u.get_matrix(), exact)}")
    ctx.key("chain", d, length, ctx.index)
    ctx.show(dict(dimension=d, length=length))


def c01_everywhere(ctx):
    """Whole-library programs under the construction monitor."""
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    D = 2 ** n
    with watch_unitaries(ctx):
        for _ in range(4):
            u, m, name, params = gen.fixed_gate(rng)
            assert_valid(ctx, u, len(m), 1e-9, name)
            t = u.tensor(Unitary(_dim(rng, [1, 2, 3, 4]), None))
            assert_valid(ctx, t, t.get_dimension(), 1e-9, "tensor")
        for p in gen.standard_prims(rng, max(n, 2)):
            pu = p.primitive.get_unitary()
            assert_valid(ctx, pu.as_unitary([float(rng.uniform(lo, hi)) for _, lo, hi, _ in p.ranges]),
                         2 ** p.qubits, 1e-9, p.name)
        h = Hamiltonian([HamiltonianTerm(gen.scaled_hermitian(rng, D)) for _ in range(int(rng.integers(1, 4)))])
        t = float(rng.normal() * 3)
        assert_valid(ctx, h.get_time_evolution_operator(t), D, 1e-7, "time evolution")
        for s in (h.get_trotter_sequence(t, 3, bool(rng.integers(2))), h.get_qdrift_sequence(t, 4),
                  h.get_ideal_sequence(t, 3)):
            assert_valid(ctx, s.product(), D, 1e-7, "sequence product")
            assert_valid(ctx, s.inverse().product(), D, 1e-7, "inverse sequence product")
        prims = gen.primitive_set(rng, n)
        c = Compiler(D, [p.primitive for p in prims], annealing_rate=float(rng.choice([0.0, 0.1, 5.0])))
        res = c.compile(Unitary.random(D), float(rng.choice([0.5, 0.9, 1.0])), int(rng.integers(1, 60)))
        assert_valid(ctx, res.compiled_sequence.product(), D, 1e-7, "compiled product")
        rav = Verification.generate_rav_sequence(D, [p.primitive for p in prims], int(rng.integers(0, 5)), 0.9, max_step_count=20)
        assert_valid(ctx, rav.compiled_sequence.product(), D, 1e-7, "RAV product")
        for e in rav.compiled_sequence.get_sequence_entries()[:4]:
            big = 2 ** (n + int(rng.integers(0, 3)))
            assert_valid(ctx, e.get_full_unitary(big), big, 1e-8, "full unitary")
    ctx.key("program", n, [p.describe()["name"] for p in prims], ctx.index)
    ctx.show(dict(qubits=n, primitives=[p.describe() for p in prims]))


def c01_drift(ctx):
    """Thousands of incremental updates on one sequence product."""
    rng = ctx.rng
    n = int(rng.integers(1, 4))
    s = UnitarySequence(2 ** n)
    entries = [UnitarySequenceEntry(Unitary(2, gen.haar(rng, 2)), [int(rng.integers(n))]) for _ in range(5)]
    steps = 600 if ctx.tier == "quick" else 3000
    s.product()
    for i in range(steps):
        r = rng.integers(5)
        e = entries[rng.integers(len(entries))]
        if r == 0:
            s.append_first(e, save_undo=False)
        elif r == 1:
            s.append_last(e, save_undo=False)
        elif r == 2:
            s.remove_first(save_undo=False)
        elif r == 3:
            s.remove_last(save_undo=False)
        if i % 100 == 99:
            assert_valid(ctx, s.product(), 2 ** n, 1e-8, f"product after {i} updates")
    ctx.key("drift", n, ctx.index)
    ctx.show(dict(qubits=n, updates=steps))


# ------------------------------------------------------------------ C02

def c02_algebra(ctx):
    rng = ctx.rng
    d = _dim(rng)
    (a, ka), (b, kb), (c, kc) = gen.unitary(rng, d), gen.unitary(rng, d), gen.unitary(rng, d)
    params = {"t": (float(rng.normal()), True)} if rng.random() < 0.5 else {}
    apply_to = [int(q) for q in rng.permutation(4)[:int(rng.integers(0, 3))]]
    inv_flag = bool(rng.integers(2))
    u = Unitary(d, a, "A", dict(params), is_inverse=inv_flag, apply_to=list(apply_to))
    v, w = Unitary(d, b, "B", {"b": (0.25, False)}), Unitary(d, c, "C")
    before = [(matrix_state(x.get_matrix()), x.get_display_name()) for x in (u, v, w)]

    def same(x, m, kind, what):
        diff = ref.phase_diff(x.get_matrix(), m)
        ctx.check(diff < 1e-10, kind, lambda: f"{what} of {ka},{kb},{kc} in dimension {d} differs by {diff}")

    same(u.left_multiply(v), b @ a, "left_multiply", "left product")
    same(u.right_multiply(v), a @ b, "right_multiply", "right product")
    same(u.left_multiply(v).left_multiply(w), c @ b @ a, "left_multiply", "triple left product")
    same(u.right_multiply(v).right_multiply(w), a @ b @ c, "right_multiply", "triple right product")
    same(u.left_multiply(v).right_multiply(w), b @ a @ c, "left_multiply", "mixed product")
    same(u.left_multiply(u), a @ a, "left_multiply", "square")
    same(u.left_multiply(u.inverse()), np.eye(d), "inverse", "u^-1 u")
    same(u.right_multiply(u.inverse()), np.eye(d), "inverse", "u u^-1")
    i = u.inverse()
    same(i, a.conj().T, "inverse", "inverse")
    same(u.left_multiply(v).inverse(), a.conj().T @ b.conj().T, "inverse", "inverse of a product")
    same(i.inverse(), a, "inverse", "double inverse")
    dagger = "†"
    name = u.get_display_name()
    ctx.check(name.endswith(dagger) == inv_flag, "inverse_marking", lambda: f"{name} for is_inverse={inv_flag}")
    ctx.check(i.get_display_name() == (name[:-1] if inv_flag else name + dagger), "inverse_marking",
              lambda: f"inverse of {name} is displayed as {i.get_display_name()}")
    ctx.check(i.inverse().get_display_name() == name, "inverse_marking", lambda: f"double inverse {i.inverse().get_display_name()}")
    ctx.check(i.get_operation_name() == "A" and i.get_dimension() == d, "inverse_name", i.get_operation_name())
    for k, val in params.items():
        ctx.check(i.get_parameter_value(k) == val, "inverse_parameters", lambda: f"{k}: {i.get_parameter_value(k)} != {val}")
    ctx.check(i.get_parameter_value("bogus") is None, "inverse_parameters", "unknown parameter has a value")
    # tensor products, of equal and unequal dimensions
    d2 = _dim(rng, [1, 2, 3, 4, 5])
    e, ke = gen.unitary(rng, d2)
    x = Unitary(d2, e, "E")
    if d * d2 <= 64:
        t = u.tensor(x)
        ctx.check(t.get_dimension() == d * d2, "tensor", lambda: f"dimension {t.get_dimension()} for {d} x {d2}")
        same(t, np.kron(a, e), "tensor", "tensor")
        same(x.tensor(u), np.kron(e, a), "tensor", "swapped tensor")
        same(t.inverse(), np.kron(a.conj().T, e.conj().T), "tensor", "inverse of tensor")
        same(u.left_multiply(v).tensor(x), np.kron(b @ a, e), "tensor", "tensor of product")
        if d * d2 * 2 <= 64:
            f = gen.haar(rng, 2)
            same(t.tensor(Unitary(2, f)), np.kron(np.kron(a, e), f), "tensor", "triple tensor")
    after = [(matrix_state(y.get_matrix()), y.get_display_name()) for y in (u, v, w)]
    ctx.check(before == after, "operands_unchanged", "an operand changed")
    ctx.key(d, d2, ka, kb, kc, ke, inv_flag, len(params))
    ctx.show(dict(dimension=d, kinds=[ka, kb, kc], tensor_with=[d2, ke], inverse_marked=inv_flag))


def c02_origins(ctx):
    """The same laws for operations from every part of the library."""
    rng = ctx.rng
    d = _dim(rng, [2, 4, 8, 2, 4, 3])
    u, a, name, names, inverse, origin = gen.operand(rng, d)
    v, b, _, _, _, origin2 = gen.operand(rng, d)
    if rng.random() < 0.25:
        v, b, origin2 = gen.lookalike(rng, u, a, names)
    d2 = _dim(rng, [1, 2, 4, 3])
    x, e, _, _, _, origin3 = gen.operand(rng, d2)
    before = [(matrix_state(y.get_matrix()), y.get_display_name()) for y in (u, v, x)]

    def same(y, m, kind, what):
        diff = ref.phase_diff(y.get_matrix(), m)
        ctx.check(diff < 1e-10, kind, lambda: f"{what} of {origin}, {origin2}, {origin3} in dimensions {d}, {d2} differs by {diff}")

    same(u, a, "operand", "the operation")
    same(u.left_multiply(v), b @ a, "left_multiply", "left product")
    same(u.right_multiply(v), a @ b, "right_multiply", "right product")
    same(u.tensor(x), np.kron(a, e), "tensor", "tensor")
    same(x.tensor(u), np.kron(e, a), "tensor", "swapped tensor")
    same(u.tensor(x).tensor(v) if d * d2 * d <= 64 else u.tensor(x), np.kron(np.kron(a, e), b) if d * d2 * d <= 64 else np.kron(a, e), "tensor", "triple tensor")
    i = u.inverse()
    same(i, a.conj().T, "inverse", "inverse")
    same(i.inverse(), a, "inverse", "double inverse")
    same(u.tensor(x).inverse(), np.kron(a, e).conj().T, "tensor", "inverse of tensor")
    shown = u.get_display_name()
    ctx.check(shown.endswith("\u2020") == inverse and shown.startswith(name), "inverse_marking", lambda: f"{shown} for {origin}")
    ctx.check(i.get_display_name() == (shown[:-1] if inverse else shown + "\u2020"), "inverse_marking", lambda: f"inverse of {shown}: {i.get_display_name()}")
    ctx.check(i.inverse().get_display_name() == shown, "inverse_marking", lambda: f"double inverse of {shown}: {i.inverse().get_display_name()}")
    ctx.check(u.get_operation_name() == i.get_operation_name() == name, "inverse_name", lambda: f"{u.get_operation_name()}, {i.get_operation_name()} for {name}")
    for k in names:
        ctx.check(u.get_parameter_value(k) is not None and i.get_parameter_value(k) == u.get_parameter_value(k), "inverse_parameters",
                  lambda: f"{k}: {i.get_parameter_value(k)} for {u.get_parameter_value(k)}")
    after = [(matrix_state(y.get_matrix()), y.get_display_name()) for y in (u, v, x)]
    ctx.check(before == after, "operands_unchanged", "an operand changed")
    ctx.event("origin " + origin.split(" ")[0])
    ctx.key("origins", d, d2, origin, origin2, origin3)
    ctx.show(dict(dimension=d, origins=[origin, origin2, origin3], tensor_with=d2))


# ------------------------------------------------------------------ C03

def _pair(rng, d):
    a, ka = gen.unitary(rng, d)
    r = rng.random()
    if r < 0.3:
        b, kb = gen.unitary(rng, d)
    elif r < 0.5:
        b, kb = a * np.exp(1j * rng.uniform(-np.pi, np.pi)), "phase"
    elif r < 0.65:
        b, kb = -a if rng.random() < 0.5 else 1j * a, "phase4"
    elif r < 0.9:
        eps = 10.0 ** rng.uniform(-4, 0)
        b, kb = a @ ref.expi(gen.hermitian(rng, d, "dense"), eps), "near"
    else:  # orthogonal in the trace inner product: distance one
        b, kb = a @ np.diag(np.exp(2j * np.pi * np.arange(d) / d)), "orthogonal"
    return a, b, ka + "/" + kb


def c03_distance(ctx):
    rng = ctx.rng
    d = _dim(rng)
    a, b, kinds = _pair(rng, d)
    u, v = Unitary(d, a), Unitary(d, b)
    expected = ref.hs_distance(a, b)
    tol = 1e-11
    dist = u.distance_from(v)
    ctx.close(dist, expected, tol, "distance", f"{kinds} in dimension {d}:")
    ctx.check(-1e-11 <= dist <= 1 + 1e-11, "distance_range", lambda: f"{dist}")
    ctx.close(v.distance_from(u), expected, tol, "distance_symmetric", kinds)
    ctx.close(u.distance_from(b), expected, tol, "distance_to_matrix", kinds)
    ctx.close(u.distance_from(b * np.exp(1j * rng.uniform(0, 6))), expected, tol, "distance_phase", kinds)
    # matrices as callers may hold them
    single = b.astype(np.complex64)
    forms = [("single precision", single, single), ("Fortran order", np.asfortranarray(b), b), ("a view", np.repeat(b, 2, 1)[:, ::2], b)]
    q = np.linalg.qr(rng.normal(size=(d, d)))[0]
    perm = np.eye(d)[rng.permutation(d)]
    forms += [("real", q, q), ("real single precision", q.astype(np.float32), q.astype(np.float32)), ("integer", perm.astype(int), perm),
              ("integer", (-perm).astype(np.int8), perm)]
    for what, form, exact in forms:
        ctx.close(u.distance_from(form), ref.hs_distance(a, exact.astype(complex)), 1e-6 if "single" in what else tol, "distance_to_matrix", what + " " + str(kinds))
    ctx.close(Unitary(d, a * np.exp(1j * rng.uniform(0, 6))).distance_from(v), expected, tol, "distance_phase", kinds)
    w, _ = gen.unitary(rng, d)
    ctx.close(Unitary(d, w @ a).distance_from(Unitary(d, w @ b)), expected, tol, "distance_invariant", "left " + kinds)
    ctx.close(Unitary(d, a @ w).distance_from(Unitary(d, b @ w)), expected, tol, "distance_invariant", "right " + kinds)
    ctx.close(u.inverse().distance_from(v.inverse()), expected, tol, "distance_invariant", "inverse " + kinds)
    ctx.close(u.distance_from(u), 0.0, 1e-11, "distance_self", kinds)
    # closeness, clear of the boundary by more than the documented tolerance
    thresholds = [float(rng.random()), 0.0, 0.5, 0.999, 1 - expected + 1e-5, 1 - expected - 1e-5, 1 - expected + 3e-7, 1 - expected - 3e-7, 1 - expected + 1e-8, 1 - expected - 1e-8, 1 - expected + 1e-10, 1 - expected - 1e-10, 1 - expected * (1 - 1e-4), 1 - 2 * expected, 1 - expected / 2]
    for t in thresholds:
        t = min(max(t, 0.0), 1.0)
        margin = (1 - t) - expected
        if abs(margin) < 1e-11 or margin < 0 and expected < 2e-8:  # numpy's default tolerance counts as equality
            continue
        for other in (v, b):
            got = bool(u.close_to(other, t))
            ctx.check(got == (margin > 0), "close_threshold",
                      lambda: f"close_to at {t} says {got}, distance {expected} ({kinds}, dimension {d})")
            ctx.event("close" if got else "not_close")
        if t == 1.0 and expected > 1e-7:
            ctx.event("far_at_exact_threshold")
    if expected > 5e-8 or expected < 1e-12:
        want = expected < 1e-12
        for t in (None, 1.0):
            for other in (v, b):
                got = bool(u.close_to(other) if t is None and rng.random() < 0.5 else u.close_to(other, t))
                ctx.check(got == want, "close_exact", lambda: f"close_to with threshold {t} says {got} at distance {expected} ({kinds})")
    ctx.check(bool(u.close_to(u, 1.0)) and bool(u.close_to(Unitary(d, a * 1j), 1.0)), "close_exact",
              "an operation is not close to itself at threshold 1")
    ctx.check(bool(u.close_to(u)) and bool(u.close_to(u, 0.0)), "close_exact", "an operation is not close to itself")
    ctx.key(d, kinds, round(expected, 5))
    ctx.show(dict(dimension=d, kinds=kinds, distance=expected))


def c03_origins(ctx):
    """Distances and closeness between operations from every part of the library."""
    rng = ctx.rng
    d = _dim(rng, [2, 4, 8, 2, 4, 3])
    u, a, _, names, _, origin = gen.operand(rng, d)
    v, b, _, _, _, origin2 = gen.operand(rng, d)
    if rng.random() < 0.4:
        v, b, origin2 = gen.lookalike(rng, u, a, names)
    expected = ref.hs_distance(a, b)
    what = f"{origin} / {origin2} in dimension {d}:"
    for got in (u.distance_from(v), v.distance_from(u), u.distance_from(b), v.distance_from(a), u.inverse().distance_from(v.inverse()),
                u.left_multiply(u).distance_from(u.left_multiply(v)), v.right_multiply(u).distance_from(u.right_multiply(u))):
        ctx.close(got, expected, 1e-11, "distance", what)
        ctx.check(-1e-11 <= got <= 1 + 1e-11, "distance_range", lambda: f"{what} {got}")
    for y, m in ((u, a), (v, b)):
        ctx.close(y.distance_from(m * np.exp(1j * rng.uniform(0, 6))), 0.0, 1e-11, "distance_self", what)
        for t in (None, 1.0, 0.0, float(rng.random())):
            ctx.check(bool(y.close_to(m, t)) and bool(y.close_to(y, t)), "close_exact", lambda: f"{what} not close to itself at {t}")
    t = float(rng.random())
    if abs(1 - t - expected) > 1e-11 and expected > 2e-8:
        ctx.check(bool(u.close_to(v, t)) == (expected < 1 - t), "close_threshold", lambda: f"{what} closeness at {t}, distance {expected}")
    if expected > 5e-8:
        ctx.check(not u.close_to(v) and not v.close_to(u, 1.0), "close_exact", lambda: f"{what} close at distance {expected}")
    ctx.key("origins", d, origin, origin2, round(expected, 5))
    ctx.show(dict(dimension=d, origins=[origin, origin2], distance=expected))


# ------------------------------------------------------------------ C04

def _check_gate(ctx, u, m, what, params=()):
    d = len(m)
    ctx.check(u.get_dimension() == d, "gate_matrix", lambda: f"{what}: dimension {u.get_dimension()}")
    diff = ref.phase_diff(u.get_matrix(), m)
    ctx.check(diff < 1e-10, "gate_matrix", lambda: f"{what} differs by {diff}")
    for name, value, is_angle in params:
        got = u.get_parameter_value(name)
        ctx.check(got is not None and got[0] == value and bool(got[1]) == is_angle, "gate_parameters",
                  lambda: f"{what}: parameter {name} is {got}, not {(value, is_angle)}")
    ctx.event(what.split("(")[0])
    ctx.key(what)


def c04_fixed(ctx):
    rng = ctx.rng
    D = UnitaryDefinitions
    for _ in range(6):
        t, p = gen.angle(rng), gen.angle(rng)
        th, ph = "θ", "Φ"
        _check_gate(ctx, D.rx(t), ref.rot(ref.X, t), f"rx({t})", [(th, t, True)])
        _check_gate(ctx, D.ry(t), ref.rot(ref.Y, t), f"ry({t})", [(th, t, True)])
        _check_gate(ctx, D.rz(t), ref.rot(ref.Z, t), f"rz({t})", [(th, t, True)])
        _check_gate(ctx, D.rphi(t, p), ref.rphi(t, p), f"rphi({t},{p})", [(th, t, True), (ph, p, True)])
        _check_gate(ctx, D.xx(t), ref.xx(t), f"xx({t})", [(th, t, True)])
        n = int(rng.integers(1, 6))
        _check_gate(ctx, D.gms(n, t), ref.gms(n, t), f"gms({n},{t})", [(th, t, True)])
    _check_gate(ctx, D.h(), ref.H1, "h()")
    _check_gate(ctx, D.t(), np.diag([1, np.exp(1j * np.pi / 4)]), "t()")
    _check_gate(ctx, D.sigmax(), ref.X, "sigmax()")
    _check_gate(ctx, D.sigmay(), ref.Y, "sigmay()")
    _check_gate(ctx, D.sigmaz(), ref.Z, "sigmaz()")
    _check_gate(ctx, D.cnot(), ref.CNOT, "cnot()")
    _check_gate(ctx, D.ccnot(), ref.CCNOT, "ccnot()")
    _check_gate(ctx, D.qecc_phase_flip(), ref.QECC, "qecc_phase_flip()")
    _check_gate(ctx, D.xx(), ref.xx(np.pi / 4), "xx()", [("θ", np.pi / 4, True)])
    n = int(rng.integers(2, 5))
    if rng.random() < 0.08:  # wide gates
        n = int(rng.integers(6, 9))
        _check_gate(ctx, D.gms(n, t), ref.gms(n, t), f"gms({n},{t})", [(th, t, True)])
        ctx.event("wide_gms")
    _check_gate(ctx, D.gms(n), ref.gms(n, np.pi / 4), f"gms({n})", [("θ", np.pi / 4, True)])
    ctx.show(dict(theta=t, phi=p, gms_qubits=n))


def c04_repeated(ctx):
    """The same gate, by the same parameterized object, at values that are equal or nearly so, in any order."""
    rng = ctx.rng
    P, D = ParameterizedUnitaryDefinitions, UnitaryDefinitions
    n = int(rng.integers(1, 4))
    p_xy, p_xyz, p_xx, p_gms = P.rotation_xy(), P.rotation_xyz(), P.xx(), P.gms(n)
    th = ["θ"]
    gates = [("rx", th, D.rx, lambda a: ref.rot(ref.X, a)), ("ry", th, D.ry, lambda a: ref.rot(ref.Y, a)),
             ("rz", th, D.rz, lambda a: ref.rot(ref.Z, a)), ("rphi", ["θ", "Φ"], D.rphi, ref.rphi), ("xx", th, D.xx, ref.xx),
             ("gms", th, lambda a: D.gms(n, a), lambda a: ref.gms(n, a)),
             ("rotation_xy", ["theta", "phi"], lambda *v: p_xy.as_unitary(list(v)), ref.rphi),
             ("rotation_xyz", ["alpha", "beta", "gamma"], lambda *v: p_xyz.as_unitary(list(v)), lambda *v: ref.gate("Rxyz", v)),
             ("pxx", ["theta"], lambda a: p_xx.as_unitary([a]), ref.xx),
             ("pgms", ["theta"], lambda a: p_gms.as_unitary(np.array([a])), lambda a: ref.gms(n, a))]
    base = rng.uniform(0.5, 5.5, 3)
    values = [base]
    for _ in range(int(rng.integers(3, 7))):
        v = np.array(values[rng.integers(len(values))])
        how = rng.integers(4)
        if how == 0:
            v = v[rng.permutation(3)]
        elif how < 3:
            v[rng.integers(3)] += rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -2)
        values.append(v)
    order = [(g, int(i)) for g in gates for i in rng.integers(0, len(values), 4)]
    if rng.random() < 0.5:
        order = [order[i] for i in rng.permutation(len(order))]
    for (name, names, make, exact), i in order:
        v = [float(x) for x in values[i][:len(names)]]
        u = make(*v)
        diff = ref.phase_diff(u.get_matrix(), exact(*v))
        ctx.check(diff < 1e-10, "repeated_gate", lambda: f"{name}{tuple(v)} after others at nearby values differs by {diff}")
        carried = [u.get_parameter_value(x) for x in names]
        ctx.check(all(x is not None and float(x[0]) == y for x, y in zip(carried, v)), "repeated_parameters", lambda: f"{name}{tuple(v)} carries {carried}")
        ctx.event("repeated")
    ctx.key("repeated", [round(float(x), 9) for x in base])
    ctx.show(dict(values=[[float(x) for x in v] for v in values]))


def _range_probe(ctx, pu, what, lows, highs, d):
    """Values inside the declared ranges are accepted, values beyond them rejected."""
    rng = ctx.rng
    ok = [float(rng.choice([lo, hi, rng.uniform(lo, hi)])) for lo, hi in zip(lows, highs)]
    u = pu.as_unitary(ok if rng.random() < 0.7 else np.array(ok))
    ctx.check(u.get_dimension() == d, "range_accepted", what)
    for i, (lo, hi) in enumerate(zip(lows, highs)):
        for bad in (lo - 10.0 ** rng.uniform(-6, 1), hi + 10.0 ** rng.uniform(-6, 1), float("nan")):
            vals = list(ok)
            vals[i] = bad
            ctx.rejects("range_rejected", lambda: pu.as_unitary(vals), f"{what} with parameter {i} = {bad} outside [{lo}, {hi}]")
    params = pu.get_parameters()
    for p, lo, hi in zip(params, lows, highs):
        ctx.check(p.is_valid(lo) and p.is_valid(hi) and not p.is_valid(hi + 1e-6) and not p.is_valid(lo - 1e-6),
                  "range_bounds", lambda: f"{what}.{p.get_parameter_name()} does not have bounds [{lo}, {hi}]")
        x = p.random_value()
        ctx.check(lo <= x <= hi and p.is_valid(x), "range_random", lambda: f"{what}: random value {x}")


def c04_parameterized(ctx):
    rng = ctx.rng
    P, D = ParameterizedUnitaryDefinitions, UnitaryDefinitions
    two_pi = 2 * np.pi

    def ang():
        return float(rng.choice([0.0, two_pi, np.pi, rng.uniform(0, two_pi), rng.uniform(0, two_pi)]))
    for _ in range(5):
        a, b, c = ang(), ang(), ang()
        u = P.rotation_xy().as_unitary([a, b])
        _check_gate(ctx, u, ref.rphi(a, b), f"rotation_xy({a},{b})", [("theta", a, True), ("phi", b, True)])
        ctx.check(ref.phase_diff(u.get_matrix(), D.rphi(a, b).get_matrix()) < 1e-10, "agrees_with_fixed", "rotation_xy / rphi")
        u = P.rotation_xyz().as_unitary([a, b, c])
        _check_gate(ctx, u, ref.gate("Rxyz", (a, b, c)), f"rotation_xyz({a},{b},{c})",
                    [("alpha", a, True), ("beta", b, True), ("gamma", c, True)])
        u = P.xx().as_unitary([a])
        _check_gate(ctx, u, ref.xx(a), f"pxx({a})", [("theta", a, True)])
        ctx.check(ref.phase_diff(u.get_matrix(), D.xx(a).get_matrix()) < 1e-10, "agrees_with_fixed", "xx / xx")
        n = int(rng.integers(1, 6))
        u = P.gms(n).as_unitary([a])
        _check_gate(ctx, u, ref.gms(n, a), f"pgms({n},{a})", [("theta", a, True)])
        ctx.check(ref.phase_diff(u.get_matrix(), D.gms(n, a).get_matrix()) < 1e-10, "agrees_with_fixed", "gms / gms")
        names = [(P.rotation_xy(), "Rxy"), (P.rotation_xyz(), "Rxyz"), (P.xx(), "XX"), (P.gms(n), f"GMS{n}")]
        for pu, name in names:
            ctx.check(pu.get_operation_name() == name, "gate_name", lambda: f"{pu.get_operation_name()} for {name}")
    _range_probe(ctx, P.rotation_xy(), "rotation_xy", [0, 0], [two_pi] * 2, 2)
    _range_probe(ctx, P.rotation_xyz(), "rotation_xyz", [0] * 3, [two_pi] * 3, 2)
    _range_probe(ctx, P.xx(), "xx", [0], [two_pi], 4)
    _range_probe(ctx, P.gms(3), "gms", [0], [two_pi], 8)
    lo, hi = sorted(rng.normal(size=2) * 3)
    _range_probe(ctx, P.time_evolution(gen.hermitian(rng, 4), lo, hi), "time_evolution", [lo], [hi], 4)
    # user-defined parameterized gate: order of parameters and their flags
    k = int(rng.integers(1, 4))
    gens = [gen.hermitian(rng, 2, "dense") for _ in range(k)]
    los, his = rng.uniform(-4, 0, k), rng.uniform(0, 4, k)
    flags = [bool(x) for x in rng.integers(0, 2, k)]
    pu = ParameterizedUnitary(2, lambda *v: ref.product([ref.expi(g, x) for g, x in zip(gens, v)], 2),
                              [ParameterizedUnitaryParameter(f"q{i}", los[i], his[i], is_angle=flags[i]) for i in range(k)], "Q")
    vals = [float(rng.uniform(los[i], his[i])) for i in range(k)]
    _check_gate(ctx, pu.as_unitary(vals), ref.product([ref.expi(g, x) for g, x in zip(gens, vals)], 2), f"user({vals})",
                [(f"q{i}", vals[i], flags[i]) for i in range(k)])
    _range_probe(ctx, pu, "user", list(los), list(his), 2)
    ctx.show(dict(angles=[a, b, c], gms_qubits=n, user_parameters=vals))


# ------------------------------------------------------------------ C05

def _number_kind(rng, h):
    """A Hermitian matrix as callers may hold it: (exact complex values, the array itself)."""
    kind = str(rng.choice(["complex", "complex", "complex", "single", "real", "integer", "fortran", "strided", "reversed", "read_only"]))
    if kind == "single":
        a = h.astype(np.complex64)
    elif kind == "real":
        a = h.real.astype(rng.choice([np.float64, np.float32]))
        a = (a + a.T) / 2
    elif kind == "integer":
        a = np.round(h.real * 3).astype(rng.choice([np.int64, np.int32, np.int8]) if np.abs(h).max() < 20 else np.int64)
        a = np.triu(a) + np.triu(a, 1).T
    elif kind == "fortran":
        a = np.asfortranarray(h)
    elif kind == "strided":
        a = np.zeros((2 * len(h), 3 * len(h)), dtype=complex)[::2, ::3]
        a[:] = h
    elif kind == "reversed":
        a = np.array(h[::-1, ::-1])[::-1, ::-1]
    else:
        a = np.array(h)
        a.flags.writeable = kind != "read_only"
    if not np.any(a):  # the zero matrix is no Hamiltonian term
        return np.array(h), np.array(h)
    return a.astype(complex), a


def c05_evolution(ctx):
    rng = ctx.rng
    d = _dim(rng, [1, 2, 2, 3, 4, 4, 5, 8, 16])
    h, given = _number_kind(rng, gen.scaled_hermitian(rng, d))
    norm = np.linalg.norm(h, 2)
    t = float(rng.choice([0.0, 1.0, -1.0, rng.normal(), rng.normal() * 10, 1e-6, rng.uniform(0, 50)]))
    tol = 1e-10 * max(1.0, norm * abs(t))
    u = UnitaryDefinitions.time_evolution(given, t)

    def same(x, m, kind, what):
        diff = ref.phase_diff(x.get_matrix(), m)
        ctx.check(diff < tol, kind, lambda: f"{what} for t={t}, norm {norm}, dimension {d}: differs by {diff}")
    exact = ref.expi(h, t)
    same(u, exact, "evolution", "time_evolution")
    got = u.get_parameter_value("t")
    ctx.check(got is not None and got[0] == t and not got[1], "evolution_parameter", lambda: f"t is {got}")
    s = float(rng.normal())
    same(UnitaryDefinitions.time_evolution(given, s).left_multiply(UnitaryDefinitions.time_evolution(given, t - s)),
         exact, "evolution_group", "U(s)U(t-s)")
    same(UnitaryDefinitions.time_evolution(given, -t).inverse(), exact, "evolution_group", "U(-t)^-1")
    p = ParameterizedUnitaryDefinitions.time_evolution(given, min(t, 0) - 1.0, max(t, 0) + 1.0, "7")
    pu = p.as_unitary([t])
    same(pu, exact, "evolution_parameterized", "parameterized")
    ctx.check(pu.get_operation_name() == "H7" and pu.get_parameter_value("t")[0] == t, "evolution_parameter",
              lambda: f"{pu.get_operation_name()} {pu.get_parameter_value('t')}")
    ctx.check(p.get_dimension() == d, "evolution_parameterized", "dimension")
    # Hamiltonian of several terms
    k = int(rng.integers(1, 6))
    mats, forms = map(list, zip(*[_number_kind(rng, gen.scaled_hermitian(rng, d, -2, 1)) for _ in range(k)]))
    if k > 1 and rng.random() < 0.4:
        mats[-1] = forms[-1] = mats[0] * float(rng.choice([1.0, 2.0, -0.5]))
    if k > 2 and rng.random() < 0.3:  # one term far weaker than the others
        mats[1] = forms[1] = mats[1] / np.linalg.norm(mats[1], 2) * 1e-3
    terms = [HamiltonianTerm(m) for m in forms]
    if k > 2 and rng.random() < 0.2:
        terms[2], mats[2] = terms[0], mats[0]  # the same term object twice
    ham = Hamiltonian(terms)
    total = np.sum(mats, axis=0)
    tol = 1e-10 * max(1.0, np.linalg.norm(total, 2) * abs(t))
    same(ham.get_time_evolution_operator(t), ref.expi(total, t), "hamiltonian_evolution", f"{k} terms")
    same(ham.get_time_evolution_operator(t), ref.expi(total, t), "hamiltonian_evolution", f"{k} terms, second call")
    ctx.check(ham.get_dimension() == d, "hamiltonian_evolution", "dimension")
    if 2 ** int(round(np.log2(d))) == d:
        ctx.check(ham.get_qubit_count() == int(round(np.log2(d))), "hamiltonian_qubits", lambda: f"{ham.get_qubit_count()}")
    ctx.key(d, round(norm, 4), round(t, 4), k)
    ctx.show(dict(dimension=d, norm=norm, t=t, terms=k))


def c05_repeated(ctx):
    """One Hamiltonian evolved for many times, nearly equal ones included, and nearly equal Hamiltonians for one time."""
    rng = ctx.rng
    d = _dim(rng, [2, 2, 3, 4, 8])
    k = int(rng.integers(1, 4))
    mats = [gen.scaled_hermitian(rng, d, -1, 0.5) for _ in range(k)]
    ham = Hamiltonian([HamiltonianTerm(m.copy()) for m in mats])
    total = np.sum(mats, axis=0)
    twin_mats = [m.copy() for m in mats]
    bump = gen.hermitian(rng, d, "dense")
    twin_mats[rng.integers(k)] += bump / np.linalg.norm(bump, 2) * 10.0 ** rng.uniform(-6, -2)
    twin = Hamiltonian([HamiltonianTerm(m.copy()) for m in twin_mats])
    twin_total = np.sum(twin_mats, axis=0)
    t = float(rng.normal() * 3)
    times = [t, t + 10.0 ** rng.uniform(-6, -2), -t, t * (1 + 10.0 ** rng.uniform(-6, -3)), 0.0, 10.0 ** rng.uniform(-6, -3), 2 * t, t]
    times = [float(times[i]) for i in rng.permutation(len(times))]
    evolve = UnitaryDefinitions.time_evolution
    p = ParameterizedUnitaryDefinitions.time_evolution(total, -100.0, 100.0, "0")
    for x in times:
        pairs = [("a Hamiltonian", ham.get_time_evolution_operator(x), total), ("its twin", twin.get_time_evolution_operator(x), twin_total),
                 ("a matrix", evolve(total, x), total), ("its twin matrix", evolve(twin_total, x), twin_total),
                 ("a parameterized evolution", p.as_unitary([x]), total)]
        for i in rng.permutation(len(pairs)):
            what, u, m = pairs[i]
            tol = 1e-10 * max(1.0, np.linalg.norm(m, 2) * abs(x))
            diff = ref.phase_diff(u.get_matrix(), ref.expi(m, x))
            ctx.check(diff < tol, "evolution_repeated", lambda: f"{what} evolved for {x} after {times}: off by {diff}")
            got = u.get_parameter_value("t")
            if got is not None:
                ctx.check(got[0] == x, "evolution_parameter", lambda: f"t is {got} for {x}")
        ctx.event("evolved")
    ctx.key("repeated", d, k, round(t, 6))
    ctx.show(dict(dimension=d, terms=k, times=times))


def c05_structured(ctx):
    """Hamiltonians with structure: lattice models, some pairs of terms commuting, terms that cancel, blocks, many terms."""
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    d = 2 ** n
    kind = ["paulis", "fields", "chain", "blocks", "cancelling", "many"][rng.integers(6)]

    def one(*ops):
        out = [ref.I2] * n
        for q, o in ops:
            out[q] = o
        return ref.kron(*out)
    paulis = [ref.X, ref.Y, ref.Z]
    if kind == "paulis":
        mats = [gen.pauli_string(rng, n) for _ in range(int(rng.integers(2, 7)))]
    elif kind == "fields":  # single-qubit terms: most pairs commute, some do not
        mats = [one((int(rng.integers(n)), paulis[rng.integers(3)])) for _ in range(int(rng.integers(2, 7)))]
    elif kind == "chain":
        a, b = paulis[rng.integers(3)], paulis[rng.integers(3)]
        mats = [one((q, a), (q + 1, a)) for q in range(n - 1)] + [one((q, b)) for q in range(n)]
    elif kind == "blocks":
        mats = []
        for _ in range(int(rng.integers(2, 5))):
            m = np.zeros((d, d), dtype=complex)
            lo = int(rng.integers(0, d - 1))
            hi = int(rng.integers(lo + 2, d + 1)) if lo + 2 <= d else d
            m[lo:hi, lo:hi] = gen.hermitian(rng, hi - lo, "dense")
            mats.append(m)
    elif kind == "cancelling":
        a, b = gen.hermitian(rng, d, "dense"), gen.hermitian(rng, d, "dense")
        mats = [a, b, -a * float(rng.choice([1.0, 1.0, 1 + 1e-6]))]
    else:
        mats = [gen.hermitian(rng, d, "dense") for _ in range(int(rng.integers(8, 20)))]
    mats = [m * float(rng.choice([1.0, 1.0, -1.0, rng.uniform(0.1, 2)])) for m in mats]
    if kind == "cancelling" and rng.random() < 0.5:
        mats[0], mats[2] = a, -a
    order = rng.permutation(len(mats)) if rng.random() < 0.7 else np.arange(len(mats))
    mats = [mats[i] for i in order]
    ham = Hamiltonian([HamiltonianTerm(m.copy()) for m in mats])
    total = np.sum(mats, axis=0)
    for t in [float(rng.normal()), float(rng.choice([1.0, np.pi, -np.pi / 2, rng.normal() * 10]))]:
        tol = 1e-10 * max(1.0, sum(np.linalg.norm(m, 2) for m in mats) * abs(t))
        for what, u in [("Hamiltonian", ham.get_time_evolution_operator(t)), ("matrix", UnitaryDefinitions.time_evolution(total, t)),
                        ("ideal sequence", ham.get_ideal_sequence(t, 2).product())]:
            diff = ref.phase_diff(u.get_matrix(), ref.expi(total, t))
            ctx.check(diff < tol, "structured_evolution", lambda: f"{kind} ({what}) of {len(mats)} terms on {n} qubits for t={t}: off by {diff}")
    noncommuting = [(i, j) for i in range(len(mats)) for j in range(i) if np.linalg.norm(mats[i] @ mats[j] - mats[j] @ mats[i]) > 1e-9]
    if noncommuting and len(noncommuting) < len(mats) * (len(mats) - 1) // 2:
        ctx.event("partly_commuting")
    if noncommuting and all(i - j > 1 for i, j in noncommuting):
        ctx.event("neighbours_commute")
    ctx.key("structured", kind, n, len(mats), round(t, 5))
    ctx.show(dict(kind=kind, qubits=n, terms=len(mats), t=t))


def c05_term(ctx):
    rng = ctx.rng
    for _ in range(10):
        d = _dim(rng, [1, 2, 3, 4, 5, 8, 16])
        m, given = _number_kind(rng, gen.scaled_hermitian(rng, d, -3, 3))
        if rng.random() < 0.3:
            given = np.diag(rng.integers(-5, 6, d))
            given[0, 0] = 7
            m = given.astype(complex)
        term = HamiltonianTerm(given)
        s = np.max(np.abs(np.linalg.eigvalsh(m)))
        c = term.get_coefficient()
        ctx.check(np.isreal(c) and c > 0, "coefficient", lambda: f"{c}")
        ctx.check(abs(c - s) <= 1e-11 * s, "coefficient", lambda: f"{c}, largest singular value {s}")
        nm = term.get_normalized_matrix()
        ctx.check(np.max(np.abs(nm * s - m)) <= 1e-10 * s, "normalized", lambda: f"normalised matrix off by {np.max(np.abs(nm * s - m))}")
        ctx.check(abs(np.linalg.norm(nm, 2) - 1) < 1e-10, "normalized", lambda: f"norm {np.linalg.norm(nm, 2)}")
        ctx.check(np.max(np.abs(term.get_matrix() - m)) <= 1e-11 * s, "term_matrix", "matrix differs from the one given")
        ctx.check(term.get_dimension() == d, "term_matrix", "dimension")
        ctx.key("term", d, round(float(s), 6))
    ctx.show(dict(dimension=d, coefficient=float(c)))


# ------------------------------------------------------------------ C06

def _entry_oracle(ctx, e, m, qubits, n, name=None, params=()):
    full = e.get_full_unitary(2 ** n)
    want = ref.embed(m, qubits, n)
    diff = ref.phase_diff(full.get_matrix(), want)
    ctx.check(diff < 1e-10, "placement", lambda: f"operation on {qubits} of {n} qubits differs by {diff}")
    ctx.check(full.get_dimension() == 2 ** n, "placement", "dimension")
    ctx.check([int(q) for q in e.get_apply_to()] == qubits, "placement_qubits", lambda: f"{e.get_apply_to()} for {qubits}")
    ctx.check(e.get_dimension() == len(m), "placement_qubits", "entry dimension")
    if name is not None:
        ctx.check(full.get_operation_name() == name, "placement_name", lambda: f"{full.get_operation_name()} for {name}")
        text = full.get_qasm()
        ctx.check(text.endswith("\t" + ",".join(f"q[{q}]" for q in qubits) + ";"), "placement_qubits_carried", lambda: f"{text!r} for {qubits}")
    for k, v in params:
        ctx.check(full.get_parameter_value(k) == v, "placement_parameters", lambda: f"{k}: {full.get_parameter_value(k)} for {v}")
    ctx.event(f"placed_{len(qubits)}_of_{n}")


_ALL = [(n, k, p) for n in range(1, 6) for k in range(1, min(n, 4) + 1) for p in itertools.permutations(range(n), k)]


def c06_exhaustive(ctx):
    """Every ordered placement of up to four qubits in systems of up to five (one slice per case)."""
    rng = ctx.rng
    for n, k, qubits in _ALL[ctx.index % 20::20]:
        m = gen.haar(rng, 2 ** k)
        _entry_oracle(ctx, UnitarySequenceEntry(Unitary(2 ** k, m, "U"), list(qubits)), m, list(qubits), n, "U")
        ctx.key(n, qubits)
    ctx.show(dict(qubits=n, placed_on=qubits))


def c06_random(ctx):
    rng = ctx.rng
    for _ in range(4):
        n = int(rng.integers(1, 7)) if rng.random() < 0.985 else int(rng.integers(7, 9))
        k = int(rng.integers(1, min(n, 4) + 1)) if rng.random() < 0.95 else int(rng.integers(1, min(n, 6) + 1))
        qubits, given = gen.placement(rng, k, n)
        params = {"a": (float(rng.normal()), bool(rng.integers(2)))} if rng.random() < 0.5 else {}
        if rng.random() < 0.4:
            u, m, name, names, _, origin = gen.operand(rng, 2 ** k)
            params = {p: u.get_parameter_value(p) for p in names}
            ctx.event("origin " + origin.split(" ")[0])
        else:
            m, name = gen.unitary(rng, 2 ** k)[0], f"N{rng.integers(100)}" if rng.random() < 0.5 else str(rng.choice(gen.GATE_NAMES))
            u = Unitary(2 ** k, m, name, dict(params))
        state = matrix_state(u.get_matrix())
        e = UnitarySequenceEntry(u, given)
        lo = max(qubits) + 1
        sizes = [int(x) for x in rng.integers(max(lo, k), max(lo, 6) + 1, size=int(rng.integers(1, 5)))]
        if rng.random() < 0.5:
            sizes += sizes[::-1]  # ask again, in another order
        for size in sizes:
            _entry_oracle(ctx, e, m, qubits, size, name, list(params.items()))
        ctx.check(matrix_state(u.get_matrix()) == state, "placement_source", "the placed operation changed")
        ctx.key(n, qubits, sizes)
    # one operation object placed several times; placements do not disturb each other
    m = gen.haar(rng, 4)
    u = Unitary(4, m, "W")
    n = int(rng.integers(2, 6))
    places = [gen.placement(rng, 2, n) for _ in range(3)]
    entries = [UnitarySequenceEntry(u, g) for _, g in places]
    for _ in range(2):
        for (q, _), e in zip(places, entries):
            _entry_oracle(ctx, e, m, q, n, "W")
    ctx.show(dict(qubits=n, placements=[q for q, _ in places]))


def c06_alike(ctx):
    """Several operations that read the same (name, parameters, qubits) but act differently, placed side by side."""
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, min(n, 3) + 1))
    qubits, given = gen.placement(rng, k, n)
    u, m, name, names, _, origin = gen.operand(rng, 2 ** k)
    group = [(u, m, "the original")]
    for _ in range(int(rng.integers(1, 4))):
        group.append(gen.lookalike(rng, u, m, names))
    params = [(p, u.get_parameter_value(p)) for p in names]
    sizes = [n] + [int(x) for x in rng.integers(n, min(n + 3, 6) + 1, size=2)]
    entries = []
    for _ in range(2):
        for x, mx, what in group:
            e = UnitarySequenceEntry(x, given)
            for size in sizes:
                _entry_oracle(ctx, e, mx, qubits, size, name, params)
            entries.append((e, mx))
    for e, mx in reversed(entries):
        _entry_oracle(ctx, e, mx, qubits, n, name, params)
    ctx.event("alike " + origin.split(" ")[0])
    ctx.key("alike", n, qubits, origin, len(group))
    ctx.show(dict(qubits=n, placed_on=qubits, alike=len(group), origin=origin))


def c06_paper_circuits(ctx):
    """Replays circuits published with the paper (real RAV runs): they must still compose to about the identity."""
    import glob
    import os
    from .lib import REPO
    files = sorted(glob.glob(os.path.join(REPO, "paper", "fig4", "data", "*", "rav_*.txt")))
    if not files:
        return
    path = files[ctx.index * 7 % len(files)]
    n = int(os.path.basename(path).split("_")[1][:-1])
    if n > 6:
        return
    entries, mats = [], []
    with open(path) as f:
        for line in f:
            tok = line.split()
            if not tok or tok[0] not in ("R", "Rz", "MS"):
                continue
            qubits = [int(x[2:-1]) for x in tok if x.startswith("q[")]
            p = [float(x) for x in tok[1 + len(qubits):]]
            if tok[0] == "R":
                m = ref.rphi(p[1], p[0])
            elif tok[0] == "Rz":
                m = ref.rot(ref.Z, p[0])
            else:
                s = np.cos(p[0]) * ref.X + np.sin(p[0]) * ref.Y
                m = ref.rot(ref.kron(s, s), p[1])
            entries.append(UnitarySequenceEntry(Unitary(len(m), m, tok[0]), qubits))
            mats.append(ref.embed(m, qubits, n))
    if len(entries) < 5:
        return
    s = UnitarySequence(2 ** n, entries)
    want = ref.product(mats, 2 ** n)
    ctx.check(ref.phase_diff(s.product().get_matrix(), want) < 1e-9, "published_circuit", path)
    ctx.event("published_gates", len(entries))
    if ref.hs_distance(want, np.eye(2 ** n)) < 0.05:
        ctx.event("published_circuit_near_identity")
        ctx.check(s.product().distance_from(Unitary.identity(2 ** n)) < 0.05, "published_circuit", path)
    ctx.key("paper", os.path.basename(path))
    ctx.show(dict(file=os.path.relpath(path, REPO), gates=len(entries)))


PROPERTIES = {
    "C01": dict(
        workloads=[Workload("construct", c01_construct, 150, 6000, needs=["valid_unitary", "represents_input", "default_identity"]),
                   Workload("large", c01_large, 8, 300, needs=["large_value"]),
                   Workload("chain", c01_chain, 60, 2500, needs=["chain_value"]),
                   Workload("everywhere", c01_everywhere, 80, 3000),
                   Workload("drift", c01_drift, 16, 160)],
        rule="Matrices of 13 structural kinds, dimensions 1-256, several dtypes and layouts; chains of products and inverses; whole-library "
             "programs with every Unitary construction monitored. A case is distinct by dimension, kind, dtype and phase, or by chain/program.",
        assumptions=["unitarity and determinant judged to 1e-7", "single-precision matrices only where exactly representable (others are rejected as not unitary)"]),
    "C02": dict(
        workloads=[Workload("algebra", c02_algebra, 1500, 60000, needs=["left_multiply", "right_multiply", "inverse", "tensor", "inverse_marking"]),
                   Workload("origins", c02_origins, 600, 20000, needs=["left_multiply", "tensor", "inverse_marking"])],
        rule="Triples of random unitaries of equal dimension plus a tensor partner, and operations from every part of the library (gates, identity, evolutions, placed, products). Distinct by dimensions, structural kinds or origins, and inverse marking.",
        assumptions=["matrix equality up to global phase to 1e-10"]),
    "C03": dict(
        workloads=[Workload("distance", c03_distance, 2500, 100000, needs=["distance", "close_threshold", "close_exact"]),
                   Workload("origins", c03_origins, 500, 20000, needs=["distance", "close_exact"])],
        rule="Pairs of unitaries: independent, equal up to phase, near, trace-orthogonal; thresholds around the true distance. "
             "Distinct by dimension, kinds and distance to 5 digits.",
        assumptions=["distances to 1e-11; closeness not judged between distances 1e-12 and 5e-8 (numpy's default tolerance)"]),
    "C04": dict(
        workloads=[Workload("fixed", c04_fixed, 250, 8000, needs=["gate_matrix", "gate_parameters"]),
                   Workload("repeated", c04_repeated, 150, 6000),
                   Workload("parameterized", c04_parameterized, 250, 8000, needs=["range_rejected", "agrees_with_fixed", "gate_name"])],
        rule="Every predefined gate at special, tiny, large, negative and uniform angles, and at nearly equal values in a row, compared with Pauli-exponential references. Distinct by gate and exact angles.",
        assumptions=["matrix equality up to global phase to 1e-10"]),
    "C05": dict(
        workloads=[Workload("evolution", c05_evolution, 800, 30000, needs=["evolution", "evolution_parameterized", "hamiltonian_evolution"]),
                   Workload("repeated", c05_repeated, 150, 5000, needs=["evolution_repeated"]),
                   Workload("structured", c05_structured, 150, 5000, needs=["structured_evolution"]),
                   Workload("term", c05_term, 120, 4000, needs=["coefficient", "normalized"])],
        rule="Hermitian matrices of 9 kinds, norms 1e-3 to 1e3, times of both signs; Hamiltonians of 1-5 terms, some repeated or tiny, against exp(iHt) "
             "by eigendecomposition; the same and nearly equal Hamiltonians for many, some nearly equal, times; lattice models, partly commuting, cancelling and many (8-19) terms. Distinct by dimension, norm, time and term count.",
        assumptions=["matrix equality up to global phase to 1e-10 per unit of norm times time"]),
    "C06": dict(
        workloads=[Workload("exhaustive", c06_exhaustive, 20, 400, needs=["placement"]),
                   Workload("random", c06_random, 300, 12000, needs=["placement", "placement_parameters"]),
                   Workload("alike", c06_alike, 100, 4000),
                   Workload("paper_circuits", c06_paper_circuits, 16, 60)],
        rule="All 289 ordered placements of up to 4 qubits in up to 5, then random placements of up to 6 in up to 8 with repeated queries at several system sizes, "
             "look-alike operations on the same qubits, and circuits published in paper/fig4. Distinct by system size, ordered qubits and query order.",
        assumptions=["matrix equality up to global phase to 1e-10 against tensor contraction"]),
}
