"""Independent reference mathematics (numpy only; shares no code with the library)."""
import itertools

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)


def expi(h, t=1.0):
    """exp(i t h) for Hermitian h, by eigendecomposition."""
    w, v = np.linalg.eigh(np.asarray(h, dtype=complex))
    return (v * np.exp(1j * t * w)) @ v.conj().T


def rot(axis, theta):
    """exp(-i theta/2 axis) for axis with axis^2 = 1."""
    return np.cos(theta / 2) * np.eye(len(axis)) - 1j * np.sin(theta / 2) * axis


def kron(*ms):
    out = np.eye(1, dtype=complex)
    for m in ms:
        out = np.kron(out, m)
    return out


def embed(m, qubits, n):
    """Full matrix of m acting on the listed qubits of n (qubit 0 leftmost), by tensor contraction."""
    qubits = [int(q) for q in qubits]
    k = len(qubits)
    t = np.asarray(m, dtype=complex).reshape([2] * (2 * k))
    full = np.eye(2 ** n, dtype=complex).reshape([2] * n + [2 ** n])
    out = np.tensordot(t, full, axes=(list(range(k, 2 * k)), qubits))
    # axes of out: the k outputs, then the untouched qubits in order, then the column
    rest = [q for q in range(n) if q not in qubits]
    order = qubits + rest
    out = np.transpose(out, list(np.argsort(order)) + [n])
    return out.reshape(2 ** n, 2 ** n)


def bit_action(n, f):
    """Permutation matrix of |b> -> |f(b)> on bit tuples (leftmost bit first)."""
    d = 2 ** n
    m = np.zeros((d, d), dtype=complex)
    for bits in itertools.product((0, 1), repeat=n):
        i = int("".join(map(str, bits)), 2)
        j = int("".join(map(str, f(bits))), 2)
        m[j, i] = 1
    return m


CNOT = bit_action(2, lambda b: (b[0], b[0] ^ b[1]))
CCNOT = bit_action(3, lambda b: (b[0], b[1], b[2] ^ (b[0] & b[1])))
H1 = (X + Z) / np.sqrt(2)
# phase-flip syndrome detection: Hadamards turn phase flips into bit flips; then the two parities with the last
# qubit (the syndrome) and the majority (the corrected logical bit)
QECC = bit_action(3, lambda b: (b[0] ^ b[2], b[1] ^ b[2], int(sum(b) >= 2))) @ kron(H1, H1, H1)


def rphi(theta, phi):
    return rot(np.cos(phi) * X + np.sin(phi) * Y, theta)


def xx(theta):
    return rot(kron(X, X), 2 * theta)


def gms(n, theta):
    out = np.eye(2 ** n, dtype=complex)
    for i in range(n):
        for j in range(i + 1, n):
            out = embed(xx(theta), [i, j], n) @ out
    return out


def gate(name, params):
    """Matrix named by a label, or None if the label is not a standard gate."""
    p = list(params)
    table = {
        "I": lambda: None, "Rx": lambda t: rot(X, t), "Ry": lambda t: rot(Y, t), "Rz": lambda t: rot(Z, t),
        "R": rphi, "Rxy": rphi, "Rxyz": lambda a, b, c: rot(Z, a) @ rot(Y, b) @ rot(Z, c),
        "X": lambda: X, "Y": lambda: Y, "Z": lambda: Z, "H": lambda: H1, "T": lambda: rot(Z, np.pi / 4),
        "CNOT": lambda: CNOT, "CCNOT": lambda: CCNOT, "QECC": lambda: QECC, "XX": xx,
    }
    if name.startswith("GMS"):
        return gms(int(name[3:]), *p)
    if name in table:
        return table[name](*p)
    return None


def overlap(a, b):
    return abs(np.sum(np.conj(a) * b)) / a.shape[0]


def hs_distance(a, b):
    return 1.0 - overlap(np.asarray(a, dtype=complex), np.asarray(b, dtype=complex))


def phase_diff(a, b):
    """Largest entry of a - e^{i phi} b for the best global phase: first order in the error, unlike the distance."""
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return np.inf
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return np.inf
    s = np.sum(np.conj(b) * a)
    phase = s / abs(s) if abs(s) > 1e-12 else 1.0
    return float(np.max(np.abs(a - phase * b)))


def product(mats, d):
    """Product of matrices in execution order (first applied first)."""
    out = np.eye(d, dtype=complex)
    for m in mats:
        out = m @ out
    return out
