"""Online monitors attached to the running library from outside."""
import contextlib
import time

import numpy as np

from .lib import Unitary


def matrix_state(m):
    m = np.asarray(m)
    return (m.shape, m.dtype.str, m.tobytes())


def unitarity_error(m):
    d = m.shape[0]
    return float(np.max(np.abs(m @ m.conj().T - np.eye(d))))


@contextlib.contextmanager
def watch_unitaries(ctx, tol=1e-7):
    """Asserts the validity invariant at the exit of every Unitary construction, whoever triggers it."""
    original = Unitary.__init__

    def monitored(self, *args, **kwargs):
        original(self, *args, **kwargs)
        declared = args[0] if args else kwargs.get("dimension")
        ctx.event("unitary_constructed")
        assert_valid(ctx, self, declared, tol, "constructed")

    Unitary.__init__ = monitored
    try:
        yield
    finally:
        Unitary.__init__ = original


@contextlib.contextmanager
def slow_machine(rng, on=True):
    """
    Injected fault: every look at a clock finds that much more time has passed (a stalled or very slow machine), or the
    wall clock is being set back again and again while the others run on.
    """
    if not on:
        yield
        return
    jump = float(10.0 ** rng.uniform(-1, 4))
    passed = [0.0]
    names = ("time", "perf_counter", "monotonic", "process_time")
    if rng.random() < 0.35:
        names, jump = ("time",), -jump
    saved = {k: getattr(time, k) for k in names + tuple(k + "_ns" for k in names)}

    def slow(real, unit):
        def clock():
            passed[0] += jump
            return type(real())(real() + passed[0] * unit)
        return clock
    for k, real in saved.items():
        setattr(time, k, slow(real, 10 ** 9 if k.endswith("_ns") else 1))
    try:
        yield
    finally:
        for k, real in saved.items():
            setattr(time, k, real)


def assert_valid(ctx, u, declared, tol, where):
    m = u.get_matrix()
    kind = "valid_unitary"
    ctx.check(isinstance(m, np.ndarray) and m.shape == (declared, declared), kind,
              lambda: f"{where}: matrix of shape {getattr(m, 'shape', None)} for dimension {declared}")
    ctx.check(u.get_dimension() == declared, kind, lambda: f"{where}: reports dimension {u.get_dimension()}, not {declared}")
    ctx.check(bool(np.all(np.isfinite(m))), kind, lambda: f"{where}: non-finite entries")
    e = unitarity_error(m)
    ctx.check(e < tol, kind, lambda: f"{where}: unitarity error {e:.3g} (dimension {declared})")
    det = np.linalg.det(m)
    ctx.check(abs(det - 1) < tol * max(1, declared), kind, lambda: f"{where}: determinant {det}")
