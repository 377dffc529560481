"""Workload generators: realistic and hostile inputs, all from the harness's own random generator."""
import numpy as np

from . import ref
from .lib import (
    ParameterizedUnitary, ParameterizedUnitaryParameter,
    ParameterizedUnitaryDefinitions, Unitary, UnitaryPrimitive,
    UnitaryDefinitions, UnitarySequence, UnitarySequenceEntry)


def haar(rng, d):
    z = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))


UNITARY_KINDS = ["haar", "diag", "perm", "phaseperm", "phase_identity", "near_identity", "fourier", "orthogonal",
                 "reflection", "block", "tiny_entries", "degenerate", "signs"]


def unitary(rng, d, kind=None):
    """A unitary matrix and its kind; most have a global phase that is not balanced."""
    kind = kind or UNITARY_KINDS[rng.integers(len(UNITARY_KINDS))]
    if kind == "haar":
        m = haar(rng, d)
    elif kind == "diag":
        m = np.diag(np.exp(1j * rng.uniform(-np.pi, np.pi, d)))
    elif kind == "perm":
        m = np.eye(d)[rng.permutation(d)]
    elif kind == "phaseperm":
        m = np.eye(d)[rng.permutation(d)] * np.exp(1j * rng.uniform(-np.pi, np.pi, d))
    elif kind == "phase_identity":
        m = np.eye(d) * np.exp(1j * rng.uniform(-np.pi, np.pi))
    elif kind == "near_identity":
        m = ref.expi(hermitian(rng, d, "dense"), 10.0 ** rng.uniform(-9, -3))
    elif kind == "fourier":
        k = np.arange(d)
        m = np.exp(2j * np.pi * np.outer(k, k) / d) / np.sqrt(d)
    elif kind == "orthogonal":
        m, _ = np.linalg.qr(rng.normal(size=(d, d)))
    elif kind == "reflection":
        v = rng.normal(size=(d, 1)) + 1j * rng.normal(size=(d, 1))
        v /= np.linalg.norm(v)
        m = np.eye(d) - 2 * v @ v.conj().T
    elif kind == "block":
        m = np.eye(d, dtype=complex)
        if d >= 2:
            k = int(rng.integers(1, d))
            m[:k, :k] = haar(rng, k)
            m[k:, k:] = haar(rng, d - k)
    elif kind == "tiny_entries":
        m = ref.expi(hermitian(rng, d, "dense"), 10.0 ** rng.uniform(-14, -10)) @ np.eye(d)[rng.permutation(d)]
    elif kind == "degenerate":
        q = haar(rng, d)
        w = np.exp(1j * rng.choice([0.0, np.pi / 2, 1.0], size=d))
        m = (q * w) @ q.conj().T
    else:  # signs
        m = np.diag(rng.choice([-1, 1], size=d))
    return m, kind


HERMITIAN_KINDS = ["dense", "diag", "pauli", "rank1", "degenerate", "real", "imag", "identity_shift", "negative"]


def pauli_string(rng, n, weight=None):
    ops = [ref.I2, ref.X, ref.Y, ref.Z]
    while True:
        idx = rng.integers(0, 4, size=n)
        if np.any(idx):
            return ref.kron(*[ops[i] for i in idx])


def hermitian(rng, d, kind=None):
    kind = kind or HERMITIAN_KINDS[rng.integers(len(HERMITIAN_KINDS))]
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    if kind == "dense":
        m = (a + a.conj().T) / 2
    elif kind == "diag":
        m = np.diag(rng.normal(size=d))
    elif kind == "pauli":
        n = int(round(np.log2(d)))
        m = pauli_string(rng, n) if 2 ** n == d and n > 0 else np.diag(rng.choice([-1.0, 1.0], size=d))
    elif kind == "rank1":
        v = a[:, :1] / np.linalg.norm(a[:, :1])
        m = v @ v.conj().T
    elif kind == "degenerate":
        q = haar(rng, d)
        m = (q * rng.choice([-1.0, 0.5, 0.5, 2.0], size=d)) @ q.conj().T
    elif kind == "real":
        m = (a.real + a.real.T) / 2
    elif kind == "imag":
        m = 1j * (a.real - a.real.T) / 2 + 0.1 * np.eye(d)
    elif kind == "identity_shift":
        m = (a + a.conj().T) / 2 + 5 * np.eye(d)
    else:
        m = -(a @ a.conj().T) / d
    m = np.asarray(m, dtype=complex)
    return (m + m.conj().T) / 2


def scaled_hermitian(rng, d, lo=-2, hi=1.3):
    m = hermitian(rng, d)
    return m / max(np.linalg.norm(m, 2), 1e-12) * 10.0 ** rng.uniform(lo, hi)


ANGLES = np.array([0, 1, -1, 2, -2, 0.5, -0.5, 0.25, 0.75, 1.5, 4, -4, 1 / 3]) * np.pi


def angle(rng, wide=True):
    r = rng.random()
    if r < 0.25:
        return float(rng.choice(ANGLES))
    if r < 0.35:
        return float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-9, -1))
    if wide and r < 0.5:
        return float(rng.uniform(-100, 100))
    return float(rng.uniform(-2 * np.pi, 2 * np.pi))


def placement(rng, k, n):
    """An ordered list of k distinct qubits of n, in one of the accepted container types."""
    q = [int(x) for x in rng.permutation(n)[:k]]
    r = rng.integers(4)
    given = [q, tuple(q), np.array(q), list(np.array(q))][r]
    return q, given


# ---------------------------------------------------------------- gates with known matrices

FIXED = ["Rx", "Ry", "Rz", "R", "H", "T", "X", "Y", "Z", "CNOT", "CCNOT", "QECC", "XX", "GMS2", "GMS3"]
GATE_NAMES = FIXED + ["I", "U", "SWAP", "CZ", "Rxy", "Rxyz", "MS", "GMS4", "GMS5", "H0", "S", "P"]
GATE_QUBITS = {"CNOT": 2, "CCNOT": 3, "QECC": 3, "XX": 2, "GMS2": 2, "GMS3": 3}


def fixed_gate(rng, max_qubits=3, name=None):
    """(library unitary, reference matrix, name, parameter values)"""
    D = UnitaryDefinitions
    while True:
        nm = name or FIXED[rng.integers(len(FIXED))]
        if GATE_QUBITS.get(nm, 1) <= max_qubits:
            break
    a, b = angle(rng), angle(rng)
    make = {
        "Rx": (lambda: D.rx(a), [a]), "Ry": (lambda: D.ry(a), [a]), "Rz": (lambda: D.rz(a), [a]),
        "R": (lambda: D.rphi(a, b), [a, b]), "H": (D.h, []), "T": (D.t, []), "X": (D.sigmax, []),
        "Y": (D.sigmay, []), "Z": (D.sigmaz, []), "CNOT": (D.cnot, []), "CCNOT": (D.ccnot, []),
        "QECC": (D.qecc_phase_flip, []), "XX": (lambda: D.xx(a), [a]), "GMS2": (lambda: D.gms(2, a), [a]),
        "GMS3": (lambda: D.gms(3, a), [a]),
    }
    fn, params = make[nm]
    return fn(), ref.gate(nm, params), nm, params


def operand(rng, d):
    """
    An operation of dimension d as users come by it, from any part of the library.
    Returns (operation, reference matrix, name, parameter names, whether it is marked as an inverse, origin).
    """
    n = int(round(np.log2(d)))
    qubits = 2 ** n == d and n > 0
    while True:
        r = int(rng.integers(0, 12))
        if r <= 1 or qubits:
            break
    names, inverse = [], False
    if r == 0:
        name = str(rng.choice(["U", "I", "H", "A", "X", "my gate", "R2", ""] if rng.random() < 0.5 else GATE_NAMES))
        m = unitary(rng, d)[0]
        u, origin = Unitary(d, np.array(m), name), "named " + name
    elif r == 1:
        h, t = scaled_hermitian(rng, d), float(rng.choice([0.0, rng.normal(), rng.normal() * 10]))
        u, m, name, names, origin = UnitaryDefinitions.time_evolution(h, t, "x"), ref.expi(h, t), "Hx", ["t"], "evolution"
    elif r == 2:
        u, m, name, origin = Unitary.identity(d), np.eye(d), "I", "identity"
    elif r == 3:
        u, m, name, origin = Unitary(d), np.eye(d), "U", "default"
    elif r in (4, 5, 6) and n <= 3:
        while True:
            u, m, name, values = fixed_gate(rng, n)
            if u.get_dimension() == d:
                break
        names, origin = {0: [], 1: ["\u03b8"], 2: ["\u03b8", "\u03a6"]}[len(values)], "gate"
    elif r == 7:
        e = UnitarySequenceEntry(Unitary(2, (g := unitary(rng, 2)[0]), "P"), [q := int(rng.integers(n))])
        u, m, name, origin = e.get_full_unitary(d), ref.embed(g, [q], n), "P", "placed"
    elif r == 8:
        mats = [unitary(rng, d)[0] for _ in range(int(rng.integers(0, 4)))]
        u = UnitarySequence(d, [UnitarySequenceEntry(Unitary(d, np.array(g)), list(range(n))) for g in mats]).product()
        m, name, origin = ref.product(mats, d), "U", "sequence product"
    elif r == 9:
        a, b = unitary(rng, d)[0], unitary(rng, d)[0]
        u, m, name, origin = Unitary(d, np.array(a)).right_multiply(Unitary(d, np.array(b))), a @ b, "U", "product"
    elif r == 10 and d >= 4:
        a, b = unitary(rng, d // 2)[0], unitary(rng, 2)[0]
        u, m, name, origin = Unitary(d // 2, np.array(a), "A").tensor(Unitary(2, np.array(b), "B")), np.kron(a, b), "A--B", "tensor"
    else:
        a = unitary(rng, d)[0]
        p = {"p": (float(rng.normal()), bool(rng.integers(2)))}
        inverse = bool(rng.integers(2))
        u, m, name, names, origin = Unitary(d, np.array(a), "Q", p, is_inverse=inverse), a, "Q", ["p"], "parameters"
    if rng.random() < 0.3:
        u, m, inverse, origin = u.inverse(), np.conj(m.T), not inverse, origin + " inverted"
    return u, np.asarray(m, dtype=complex), name, names, inverse, origin


def lookalike(rng, u, m, names):
    """An operation that reads like u (name, parameters) but acts differently, as (operation, matrix, origin)."""
    d = len(m)
    if rng.random() < 0.4:
        return u.inverse(), np.conj(m.T), "its inverse"
    other = unitary(rng, d)[0] if rng.random() < 0.6 else m @ ref.expi(hermitian(rng, d, "dense"), 10.0 ** rng.uniform(-5, -1))
    params = {k: u.get_parameter_value(k) for k in names}
    return Unitary(d, np.array(other), u.get_operation_name(), params), np.asarray(other, dtype=complex), "its lookalike"


class Prim:
    """A primitive whose matrix function, ranges and qubits belong to the harness."""

    def __init__(self, name, qubits, fn, ranges, allowed, unitary):
        self.name, self.qubits, self.fn, self.ranges, self.allowed = name, qubits, fn, ranges, allowed
        self.primitive = UnitaryPrimitive(unitary, allowed)

    def describe(self):
        return dict(name=self.name, qubits=self.qubits, ranges=[(p, lo, hi) for p, lo, hi, _ in self.ranges],
                    allowed=self.allowed)


def connectivity(rng, k, n, allow_empty=False):
    r = rng.random()
    if allow_empty and r < 0.15:
        return []
    if r < 0.4:
        return None
    count = int(rng.integers(1, 5))
    return [[int(x) for x in rng.permutation(n)[:k]] for _ in range(count)]


def primitive(rng, n, name, allow_empty=False, kind=None, max_qubits=2):
    """A random primitive on up to max_qubits of n qubits with a unique name."""
    k = int(rng.integers(1, min(n, max_qubits) + 1))
    kind = kind or ["param", "param", "fixed", "range0"][rng.integers(4)]
    allowed = connectivity(rng, k, n, allow_empty)
    d = 2 ** k
    if kind == "pauli":
        m = pauli_string(rng, k)
        return Prim(name, k, lambda: m, [], allowed, Unitary(d, np.array(m), name))
    if kind == "fixed":
        r = rng.random()
        m = haar(rng, d) if r < 0.5 else pauli_string(rng, k) if r < 0.8 else unitary(rng, d)[0]
        return Prim(name, k, lambda: m, [], allowed, Unitary(d, np.array(m), name))
    gens = [hermitian(rng, d, "dense") for _ in range(int(rng.integers(1, 4)))]
    ranges = []
    for j in range(len(gens)):
        lo, hi = sorted(rng.uniform(-3, 3, 2))
        if kind == "range0" and j == 0:
            hi = lo
        ranges.append((f"p{j}", float(lo), float(hi), bool(rng.integers(2))))

    def fn(*values):
        return ref.product([ref.expi(g, v) for g, v in zip(gens, values)], d)
    u = ParameterizedUnitary(d, fn, [ParameterizedUnitaryParameter(*r) for r in ranges], name)
    return Prim(name, k, fn, ranges, allowed, u)


def standard_prims(rng, n):
    """The primitives users actually pass: rotations and XX from the library's own definitions."""
    two_pi = 2 * np.pi
    P = ParameterizedUnitaryDefinitions
    out = [
        Prim("Rxy", 1, ref.rphi, [("theta", 0, two_pi, True), ("phi", 0, two_pi, True)],
             connectivity(rng, 1, n), P.rotation_xy()),
        Prim("Rxyz", 1, lambda a, b, c: ref.gate("Rxyz", (a, b, c)),
             [("alpha", 0, two_pi, True), ("beta", 0, two_pi, True), ("gamma", 0, two_pi, True)],
             connectivity(rng, 1, n), P.rotation_xyz())]
    if n >= 2:
        out.append(Prim("XX", 2, ref.xx, [("theta", 0, two_pi, True)], connectivity(rng, 2, n), P.xx()))
        out.append(Prim("GMS2", 2, lambda t: ref.gms(2, t), [("theta", 0, two_pi, True)],
                        connectivity(rng, 2, n), P.gms(2)))
    return out


def primitive_set(rng, n, max_qubits=2, allow_empty=False):
    if rng.random() < 0.3:
        prims = standard_prims(rng, n)
        keep = rng.permutation(len(prims))[:int(rng.integers(1, len(prims) + 1))]
        return [prims[i] for i in keep]
    if rng.random() < 0.12:  # traceless gates only: products are the identity or as far from it as can be
        return [primitive(rng, n, f"G{i}", allow_empty and i > 0, "pauli", max_qubits) for i in range(int(rng.integers(1, 4)))]
    count = int(rng.integers(1, 5)) if rng.random() < 0.95 else int(rng.integers(9, 13))
    return [primitive(rng, n, f"G{i}", allow_empty and i > 0, max_qubits=max_qubits) for i in range(count)]


def probabilities(rng, count, zeros=True):
    p = rng.random(count) + 0.05
    if zeros and count > 1 and rng.random() < 0.5:
        p[rng.integers(count)] = 0.0
    return [float(x) for x in p / p.sum()]


def read_entry(ctx, entry, prims_by_name, n, tol=1e-8):
    """
    Decodes an entry of a generated sequence and checks it against the primitive it names.
    Returns (primitive, parameter values, qubits, reference full matrix).
    """
    full = entry.get_full_unitary(2 ** n)
    name = full.get_operation_name()
    ctx.check(name in prims_by_name, "known_primitive", lambda: f"entry named {name!r} is none of {sorted(prims_by_name)}")
    prim = prims_by_name[name]
    qubits = [int(q) for q in entry.get_apply_to()]
    values = []
    for pname, lo, hi, is_angle in prim.ranges:
        got = full.get_parameter_value(pname)
        ctx.check(got is not None, "parameter_present", lambda: f"{name} carries no value for {pname}")
        values.append(got[0])
        ctx.check(lo <= got[0] <= hi, "parameter_in_range", lambda: f"{name}.{pname} = {got[0]!r} outside [{lo}, {hi}]")
        ctx.check(bool(got[1]) == is_angle, "parameter_flag", lambda: f"{name}.{pname} angle flag {got[1]}")
    ctx.check(len(qubits) == prim.qubits and len(set(qubits)) == len(qubits)
              and all(0 <= q < n for q in qubits), "distinct_qubits", lambda: f"{name} on {qubits} of {n}")
    if prim.allowed is not None:
        ctx.check(qubits in [list(a) for a in prim.allowed], "allowed_qubits",
                  lambda: f"{name} on {qubits}, allowed {prim.allowed}")
    m = ref.embed(prim.fn(*values), qubits, n)
    ctx.check(ref.phase_diff(full.get_matrix(), m) < tol, "entry_matrix",
              lambda: f"{name}{values} on {qubits}: matrix differs by {ref.phase_diff(full.get_matrix(), m)}")
    return prim, values, qubits, m


def sequence_matrix(entries, n):
    """Product of the entries' own full matrices, computed by the harness."""
    return ref.product([e.get_full_unitary(2 ** n).get_matrix() for e in entries], 2 ** n)
