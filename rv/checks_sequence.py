"""C07-C10: sequences, their histories, and isolation."""
import copy

import numpy as np

from . import gen, ref
from .core import Workload
from .lib import (
    Compiler, Hamiltonian, HamiltonianTerm, Unitary, UnitaryDefinitions,
    UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry, Verification)
from .monitors import matrix_state

DAGGER = "†"


class Item:
    """What the model knows about one entry: its name, matrix on the whole system, qubits and inverse marking."""

    def __init__(self, name, full, qubits, inverse=False, alike=False):
        self.name, self.full, self.qubits, self.inverse, self.alike = name, full, qubits, inverse, alike

    def inverted(self):
        return Item(self.name, self.full.conj().T, self.qubits, not self.inverse, self.alike)

    def __repr__(self):
        return self.name + (DAGGER if self.inverse else "")


def make_pool(rng, n, count, prefix="E"):
    """
    Entries, usually with unique names; some are the same library object used again and again. In some pools different
    operations look alike: the same names, parameters and even qubits.
    """
    pool = []
    alike = rng.random() < 0.3
    first = None
    for i in range(count):
        k = int(rng.integers(1, min(n, 3) + 1))
        qubits, given = gen.placement(rng, k, n)
        if alike and first is not None and rng.random() < 0.6:
            k, qubits, given = first
        first = (k, qubits, given)
        name = str(rng.choice(["U", "U", prefix])) if alike else f"{prefix}{i}"
        m, _ = gen.unitary(rng, 2 ** k)
        inv = bool(rng.random() < 0.2)
        params = {} if rng.random() < 0.5 else {"a": (0.5, True)} if alike else {"a": (float(i), bool(rng.integers(2)))}
        u = Unitary(2 ** k, m, name, params, is_inverse=inv)
        pool.append((UnitarySequenceEntry(u, given), Item(name, ref.embed(m, qubits, n), qubits, inv, alike)))
    return pool


def describe(entries, n):
    out = []
    for e in entries:
        full = e.get_full_unitary(2 ** n)
        out.append((full.get_operation_name(), [int(q) for q in e.get_apply_to()],
                    full.get_display_name().endswith(DAGGER)))
    return out


def check_entries(ctx, s, items, n, kind, where, matrices=False):
    entries = s.get_sequence_entries()
    ctx.check(isinstance(entries, list) and s.get_length() == len(entries), kind,
              lambda: f"{where}: length {s.get_length()} but {len(entries)} entries")
    got, want = describe(entries, n), [(i.name, i.qubits, i.inverse) for i in items]
    ctx.check(got == want, kind, lambda: f"{where}: entries {got}, expected {want}")
    if matrices or items and items[0].alike:
        for e, i in zip(entries, items):
            diff = ref.phase_diff(e.get_full_unitary(2 ** n).get_matrix(), i.full)
            ctx.check(diff < 1e-10, kind, lambda: f"{where}: the matrix of entry {i} is off by {diff}")


def check_product(ctx, s, items, n, kind, where):
    want = ref.product([i.full for i in items], 2 ** n)
    p = s.product()
    diff = ref.phase_diff(p.get_matrix(), want)
    ctx.check(diff < 1e-9, kind, lambda: f"{where}: product of {items} is off by {diff}")


def build(rng, n, items_entries):
    """A sequence holding the given (entry, item) pairs, made in one of the ways users make one."""
    entries = [e for e, _ in items_entries]
    r = rng.integers(4)
    if r == 0 and entries:
        arr = np.empty(len(entries), dtype=object)
        arr[:] = entries
        return UnitarySequence(2 ** n, arr)
    if r == 1:
        s = UnitarySequence(2 ** n)
        for e in entries:
            s.append_last(e, save_undo=False)
        return s
    if r == 2:
        s = UnitarySequence(2 ** n)
        s.product()
        for e in reversed(entries):
            s.append_first(e, save_undo=False)
        return s
    return UnitarySequence(2 ** n, entries) if entries else UnitarySequence(2 ** n)


class Model:
    def __init__(self, items=()):
        self.items = list(items)
        self.saved = None

    def edit(self, op, item, save):
        if op.startswith("remove") and not self.items:
            return
        if save:
            self.saved = list(self.items)
        if op == "append_first":
            self.items.insert(0, item)
        elif op == "append_last":
            self.items.append(item)
        elif op == "remove_first":
            self.items.pop(0)
        else:
            self.items.pop()


EDITS = ["append_first", "append_last", "remove_first", "remove_last"]


def script(rng, length, pool_size):
    """A history as data, so that it can be run on several sequences with different observations."""
    profile = rng.integers(5)
    weights = [
        [3, 3, 2, 2, 3],   # balanced
        [4, 4, 1, 1, 1],   # growing
        [2, 2, 3, 3, 2],   # often empty
        [2, 2, 2, 2, 6],   # undo-heavy
        [1, 5, 5, 1, 2],   # queue-like
    ][profile]
    w = np.array(weights, dtype=float)
    p_save = float(rng.choice([0.0, 0.3, 0.7, 1.0]))
    out = []
    while len(out) < length:
        r = rng.choice(5, p=w / w.sum())
        if r == 4:
            out.append(("undo", None, None))
            if rng.random() < 0.3:
                out.append(("undo", None, None))
        elif rng.random() < 0.25:  # composite edit: saving only at its first part
            k = int(rng.integers(2, 5))
            op = EDITS[r]
            for j in range(k):
                out.append((op, int(rng.integers(pool_size)), j == 0))
            if rng.random() < 0.6:
                out.append(("undo", None, None))
        else:
            out.append((EDITS[r], int(rng.integers(pool_size)), bool(rng.random() < p_save)))
    return out[:length]


def apply(ctx, s, model, step, pool, n, kind):
    op, which, save = step
    if op == "undo":
        if model.saved is None:
            try:
                s.undo()
            except Exception:
                ctx.event("undo_refused")
            else:
                ctx.check(False, kind, "undo succeeded although there was nothing to undo")
            ctx.oracles[kind] += 1
        else:
            s.undo()
            model.items, model.saved = model.saved, None
            ctx.event("undone")
        return
    entry, item = pool[which] if which is not None else (None, None)
    fn = getattr(s, op)
    args = (entry,) if op.startswith("append") else ()
    if save and ctx.rng.random() < 0.5:
        fn(*args)  # saving is the default
    elif ctx.rng.random() < 0.5:
        fn(*args, save_undo=save)
    else:
        fn(*args, save)
    if op.startswith("remove") and not model.items:
        ctx.event("remove_on_empty")
    model.edit(op, item, save)
    ctx.event(op)


# ------------------------------------------------------------------ C07

def c07_twins(ctx):
    """The same history under different query patterns; every query is judged, and all must agree at the end."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3, 3, 4])) if rng.random() < 0.98 else int(rng.integers(5, 8))
    pool = make_pool(rng, n, int(rng.integers(2, 7)))
    start = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(0, 5)))]
    length = int(rng.choice([10, 25, 60, 150] if ctx.tier == "quick" else [10, 25, 60, 150, 600]))
    steps = script(rng, length, len(pool))
    finals = []
    for p_query in (0.0, 1.0, float(rng.choice([0.05, 0.2, 0.5]))):
        s, model = build(rng, n, start), Model([i for _, i in start])
        for k, step in enumerate(steps):
            apply(ctx, s, model, step, pool, n, "history_runs")
            if rng.random() < p_query:
                check_product(ctx, s, model.items, n, "product", f"after {k + 1} of {steps[:k + 1][-6:]}")
                ctx.event("query")
        check_product(ctx, s, model.items, n, "product", f"at the end of a history of {len(steps)} (queried with probability {p_query})")
        recomputed = gen.sequence_matrix(s.get_sequence_entries(), n)
        diff = ref.phase_diff(s.product().get_matrix(), recomputed)
        ctx.check(diff < 1e-9, "product_of_entries", lambda: f"product and entries disagree by {diff}")
        finals.append(recomputed)
    ctx.check(all(ref.phase_diff(f, finals[0]) < 1e-9 for f in finals), "query_independent", "the query pattern changed the result")
    ctx.key(n, steps, [i.name for _, i in start])
    ctx.show(dict(qubits=n, start=len(start), history=[(a, b, c) for a, b, c in steps[:12]], length=len(steps)))


def c07_composed(ctx):
    """Histories across several sequences that share entries, with combinations and inversions in between."""
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3])) if rng.random() < 0.98 else 5
    pool = make_pool(rng, n, 4)
    seqs = []
    for _ in range(3):
        start = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(0, 4)))]
        seqs.append((build(rng, n, start), Model([i for _, i in start])))
    for k in range(40):
        a = int(rng.integers(len(seqs)))
        s, model = seqs[a]
        r = rng.random()
        if r < 0.12 and len(model.items) < 12:
            b = int(rng.integers(len(seqs)))
            if len(seqs[b][1].items) < 12:
                combined = UnitarySequence.combine(s, seqs[b][0])
                seqs[a] = (combined, Model(model.items + seqs[b][1].items))
                ctx.event("combine")
        elif r < 0.24:
            inverted = s.inverse()
            target = int(rng.integers(len(seqs)))
            seqs[target] = (inverted, Model([i.inverted() for i in reversed(model.items)]))
            ctx.event("inverse")
        else:
            apply(ctx, s, model, script(rng, 1, len(pool))[0], pool, n, "history_runs")
        for j in range(len(seqs)):
            if rng.random() < 0.4:
                check_product(ctx, seqs[j][0], seqs[j][1].items, n, "product", f"sequence {j} after step {k}")
                ctx.event("query")
    for j, (s, model) in enumerate(seqs):
        check_product(ctx, s, model.items, n, "product", f"sequence {j} at the end")
        diff = ref.phase_diff(s.product().get_matrix(), gen.sequence_matrix(s.get_sequence_entries(), n))
        ctx.check(diff < 1e-9, "product_of_entries", lambda: f"product and entries disagree by {diff}")
    ctx.key("composed", ctx.index, n)
    ctx.show(dict(qubits=n, lengths=[len(m.items) for _, m in seqs]))


def c07_long(ctx):
    """Hundreds of entries, mostly edited without saving, the product known throughout and checked now and then."""
    rng = ctx.rng
    wide = rng.random() < 0.25
    n = int(rng.integers(4, 8)) if wide else int(rng.choice([1, 1, 2, 3]))
    d = 2 ** n
    pool = make_pool(rng, n, 6)
    total = int(rng.integers(12, 40)) if wide else int(rng.integers(130, 700 if ctx.tier == "quick" else 3000))
    bias = int(rng.integers(3))  # which end grows: last, first or both
    known = rng.random() < (0.5 if wide else 0.8)
    s, items, want = UnitarySequence(d), [], np.eye(d)
    if known:
        s.product()
    for k in range(total):
        entry, item = pool[rng.integers(len(pool))]
        r = rng.random()
        if r < 0.12 and items:
            first = bool(rng.integers(2))
            (s.remove_first if first else s.remove_last)(save_undo=False)
            gone = items.pop(0 if first else -1)
            want = want @ gone.full.conj().T if first else gone.full.conj().T @ want
        elif bias == 0 or bias == 2 and rng.random() < 0.5:
            s.append_last(entry, save_undo=False)
            items.append(item)
            want = item.full @ want
        else:
            s.append_first(entry, save_undo=False)
            items.insert(0, item)
            want = want @ item.full
        if k % 50 == 0:
            want = ref.product([i.full for i in items], d)
        if rng.random() < 0.02:
            diff = ref.phase_diff(s.product().get_matrix(), want)
            ctx.check(diff < 1e-8, "product_long", lambda: f"product off by {diff} after {k + 1} edits, {len(items)} entries")
        if rng.random() < 0.01:
            s.append_last(entry)
            s.undo()
        ctx.event("long_edit")
    check_product(ctx, s, items, n, "product_long", f"after {total} edits")
    check_product(ctx, UnitarySequence.combine(s, s), items + items, n, "product_long", f"combined, {2 * len(items)} entries")
    check_product(ctx, s.inverse(), [i.inverted() for i in reversed(items)], n, "product_long", f"inverse, {len(items)} entries")
    rebuilt = UnitarySequence(d, s.get_sequence_entries())
    check_product(ctx, rebuilt, items, n, "product_long", f"rebuilt from {len(items)} entries")
    ctx.key("long", n, total, bias, known)
    ctx.show(dict(qubits=n, edits=total, entries=len(items)))


# ------------------------------------------------------------------ C08

def c08_history(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3])) if rng.random() < 0.98 else 5
    pool = make_pool(rng, n, int(rng.integers(2, 8)))
    start = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(0, 6)))]
    steps = script(rng, int(rng.choice([6, 20, 50])), len(pool))
    if rng.random() < 0.05:
        start = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(30, 200)))]
        steps = steps[:20]
        ctx.event("long_start")
    s, model = build(rng, n, start), Model([i for _, i in start])
    check_entries(ctx, s, model.items, n, "entries", "after construction", matrices=True)
    p_query = float(rng.choice([0.0, 0.1, 1.0]))
    for k, step in enumerate(steps):
        apply(ctx, s, model, step, pool, n, "undo_refused")
        check_entries(ctx, s, model.items, n, "entries", f"after {steps[max(0, k - 5):k + 1]}", matrices=rng.random() < 0.1)
        if step[0] == "undo" and rng.random() < 0.5 or rng.random() < p_query:
            check_product(ctx, s, model.items, n, "product_after", f"after {steps[max(0, k - 5):k + 1]}")
    check_entries(ctx, s, model.items, n, "entries", "at the end", matrices=True)
    check_product(ctx, s, model.items, n, "product_after", "at the end")
    ctx.key(n, [(a, b, c) for a, b, c in steps], len(start))
    ctx.show(dict(qubits=n, start=len(start), history=[(a, b, c) for a, b, c in steps[:12]]))


def c08_fresh(ctx):
    """
    Sequences that come out of constructions, combinations and inversions of edited (and undone) sequences: nothing has
    been done to them yet, so there is nothing to undo; from then on they follow the list like any other.
    """
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3])) if rng.random() < 0.98 else 5
    pool = make_pool(rng, n, int(rng.integers(2, 6)))
    parts = [random_sequence(rng, n, pool) for _ in range(int(rng.integers(1, 4)))]
    for s, _ in parts:
        if rng.random() < 0.5:
            s.product()
    kind = int(rng.integers(5))
    if kind <= 1:
        fresh, items = UnitarySequence.combine(*[s for s, _ in parts]), [i for _, m in parts for i in m.items]
    elif kind == 2:
        fresh, items = parts[0][0].inverse(), [i.inverted() for i in reversed(parts[0][1].items)]
    elif kind == 3:
        fresh, items = UnitarySequence(2 ** n, parts[0][0].get_sequence_entries()), list(parts[0][1].items)
    else:
        fresh = UnitarySequence.combine(parts[0][0].inverse(), parts[-1][0].inverse().inverse())
        items = [i.inverted() for i in reversed(parts[0][1].items)] + list(parts[-1][1].items)
    model = Model(items)
    where = f"a fresh {['combination', 'combination', 'inverse', 'sequence', 'combination'][kind]} of {[len(m.items) for _, m in parts]}"
    if rng.random() < 0.7:
        apply(ctx, fresh, model, ("undo", None, None), pool, n, "fresh_undo")
    check_entries(ctx, fresh, model.items, n, "entries", where, matrices=True)
    check_product(ctx, fresh, model.items, n, "product_after", where)
    steps = script(rng, int(rng.integers(1, 10)), len(pool))
    for step in steps:
        apply(ctx, fresh, model, step, pool, n, "fresh_undo")
        check_entries(ctx, fresh, model.items, n, "entries", f"{where} after {steps}")
    check_product(ctx, fresh, model.items, n, "product_after", f"{where} after {steps}")
    # the sources still have their own one saved state
    s, m = parts[0]
    apply(ctx, s, m, ("undo", None, None), pool, n, "fresh_undo")
    check_entries(ctx, s, m.items, n, "entries", f"a source of {where} after undo", matrices=True)
    check_product(ctx, s, m.items, n, "product_after", f"a source of {where} after undo")
    ctx.key("fresh", n, kind, [[i.name for i in m.items] for _, m in parts], steps)
    ctx.show(dict(qubits=n, made=where, history=[(a, b, c) for a, b, c in steps]))


def c08_exhaustive(ctx):
    """Every history of four edits (with and without saving) and undos, over start lengths 0 to 2, judged at each step."""
    rng = ctx.rng
    ops = [(e, sv) for e in EDITS for sv in (True, False)] + [("undo", None)]
    pool = make_pool(rng, 1, 6)
    total = len(ops) ** 4
    per = -(-total // 50)
    index = ctx.index % 50
    for code in range(index * per, min(total, (index + 1) * per)):
        if ctx.tier == "quick" and (code + ctx.index) % 5:
            continue
        digits = [(code // len(ops) ** j) % len(ops) for j in range(4)]
        start = [pool[4], pool[5]][:code % 3]
        s, model = UnitarySequence(2, [e for e, _ in start]), Model([i for _, i in start])
        if code % 2:
            s.product()
        for j, dgt in enumerate(digits):
            op, save = ops[dgt]
            apply(ctx, s, model, (op, j, save), pool, 1, "undo_refused")
            ctx.check(s.get_length() == len(model.items), "entries", lambda: f"length {s.get_length()} for {model.items}")
        check_entries(ctx, s, model.items, 1, "entries", f"history {[ops[d] for d in digits]} from {len(start)}")
        check_product(ctx, s, model.items, 1, "product_after", f"history {[ops[d] for d in digits]} from {len(start)}")
        ctx.key("exhaustive", code)
    ctx.show(dict(history=[ops[d] for d in digits], start=len(start)))


# ------------------------------------------------------------------ C09

def random_sequence(rng, n, pool, max_start=6, edits=8):
    """A sequence with some history, its model, and whether its product was queried."""
    start = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(0, max_start)))]
    if rng.random() < 0.3 and start:
        start = start + [start[0]] * int(rng.integers(1, 3))  # the very same entry object again
    s, model = build(rng, n, start), Model([i for _, i in start])
    for _ in range(int(rng.integers(0, edits))):
        op = EDITS[rng.integers(4)]
        entry, item = pool[rng.integers(len(pool))]
        save = bool(rng.integers(2))
        getattr(s, op)(*((entry,) if op.startswith("append") else ()), save_undo=save)
        model.edit(op, item, save)
        if rng.random() < 0.2:
            s.product()
        if rng.random() < 0.1 and model.saved is not None:
            s.undo()
            model.items, model.saved = model.saved, None
    return s, model


def judge(ctx, s, items, n, kind, where):
    check_entries(ctx, s, items, n, kind + "_entries", where, matrices=True)
    check_product(ctx, s, items, n, kind + "_product", where)
    recomputed = UnitarySequence(2 ** n, s.get_sequence_entries()).product().get_matrix()
    diff = ref.phase_diff(recomputed, ref.product([i.full for i in items], 2 ** n))
    ctx.check(diff < 1e-9, kind + "_recomputed", lambda: f"{where}: recomputed product off by {diff}")


def edit_and_judge(ctx, s, items, pool, n, kind, where, saved=None):
    """Continues editing s and judges it, its undo and its product."""
    rng = ctx.rng
    model = Model(items)
    model.saved = saved
    for _ in range(int(rng.integers(1, 6))):
        apply(ctx, s, model, script(rng, 1, len(pool))[0], pool, n, kind)
        if rng.random() < 0.5:
            check_product(ctx, s, model.items, n, kind, where)
    check_entries(ctx, s, model.items, n, kind, where)
    check_product(ctx, s, model.items, n, kind, where)


def c09_combine(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3]))
    pool = make_pool(rng, n, int(rng.integers(1, 6)))
    count = int(rng.choice([1, 2, 2, 3, 4]))
    parts = [random_sequence(rng, n, pool) for _ in range(count)]
    if count > 1 and rng.random() < 0.3:
        parts[-1] = parts[0]  # the same sequence twice
    c = UnitarySequence.combine(*[s for s, _ in parts])
    items = [i for _, m in parts for i in m.items]
    ctx.check(c.get_dimension() == 2 ** n, "combine_entries", "dimension")
    judge(ctx, c, items, n, "combine", f"combination of lengths {[len(m.items) for _, m in parts]}")
    for s, m in parts:
        check_entries(ctx, s, m.items, n, "sources", "a combined sequence", matrices=True)
        check_product(ctx, s, m.items, n, "sources", "a combined sequence")
    # edits of the result and of the sources do not meet
    edit_and_judge(ctx, c, items, pool, n, "result_editable", "edited combination")
    for s, m in parts:
        check_entries(ctx, s, m.items, n, "sources", "a source after editing the combination")
    c2 = UnitarySequence.combine(*[s for s, _ in parts])
    s0, m0 = parts[0]
    edit_and_judge(ctx, s0, list(m0.items), pool, n, "source_editable", "edited source", saved=m0.saved)
    judge(ctx, c2, items, n, "combine", "a combination after editing its source")
    # inverse of the combination
    judge(ctx, c2.inverse(), [i.inverted() for i in reversed(items)], n, "inverse", "inverse of a combination")
    ctx.key("combine", n, [[i.name for i in m.items] for _, m in parts], ctx.index)
    ctx.show(dict(qubits=n, parts=[[repr(i) for i in m.items] for _, m in parts]))


def c09_inverse(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3]))
    pool = make_pool(rng, n, int(rng.integers(1, 6)))
    s, model = random_sequence(rng, n, pool)
    items = list(model.items)
    inv_items = [i.inverted() for i in reversed(items)]
    inv = s.inverse()
    judge(ctx, inv, inv_items, n, "inverse", f"inverse of {items}")
    check_entries(ctx, s, items, n, "sources", "the inverted sequence", matrices=True)
    check_product(ctx, s, items, n, "sources", "the inverted sequence")
    judge(ctx, inv.inverse(), items, n, "inverse", f"double inverse of {items}")
    whole = UnitarySequence.combine(s, inv)
    diff = ref.phase_diff(whole.product().get_matrix(), np.eye(2 ** n))
    ctx.check(diff < 1e-9, "inverse_cancels", lambda: f"s followed by its inverse is off the identity by {diff}")
    diff = ref.phase_diff(gen.sequence_matrix(whole.get_sequence_entries(), n), np.eye(2 ** n))
    ctx.check(diff < 1e-9, "inverse_cancels", lambda: f"the entries of s followed by its inverse are off the identity by {diff}")
    # entries keep parameters
    for a, b in zip(s.get_sequence_entries(), reversed(inv.get_sequence_entries())):
        fa, fb = a.get_full_unitary(2 ** n), b.get_full_unitary(2 ** n)
        ctx.check(fa.get_parameter_value("a") == fb.get_parameter_value("a"), "inverse_parameters", "a parameter changed")
    edit_and_judge(ctx, inv, inv_items, pool, n, "result_editable", "edited inverse")
    check_entries(ctx, s, items, n, "sources", "source after editing its inverse", matrices=True)
    inv2 = s.inverse()
    edit_and_judge(ctx, s, items, pool, n, "source_editable", "edited source", saved=model.saved)
    judge(ctx, inv2, inv_items, n, "inverse", "an inverse after editing its source")
    ctx.event("repeated_entry" if len({i.name for i in items}) < len(items) else "distinct_entries")
    ctx.event("empty" if not items else "non_empty")
    ctx.key("inverse", n, [i.name for i in items], ctx.index)
    ctx.show(dict(qubits=n, entries=[repr(i) for i in items]))


# ------------------------------------------------------------------ C10

def unitary_fp(u):
    return (u.get_dimension(), matrix_state(u.get_matrix()), u.get_operation_name(), u.get_display_name(), u.get_qasm())


def entry_fp(e, n):
    return (e.get_dimension(), list(e.get_apply_to()), unitary_fp(e.get_full_unitary(2 ** n)))


def seq_fp(s, n, product=True):
    return (s.get_dimension(), s.get_length(), [entry_fp(e, n) for e in s.get_sequence_entries()],
            matrix_state(s.product().get_matrix()) if product else None)


def primitive_fp(p):
    u = p.get_unitary()
    if isinstance(u, Unitary):
        head = unitary_fp(u)
    else:
        head = (u.get_dimension(), u.get_operation_name(), [q.get_parameter_name() for q in u.get_parameters()],
                [(q.is_valid(0.0), q.get_is_angle()) for q in u.get_parameters()])
    allowed = p.get_allowed_apply_to()
    return head, None if allowed is None else [[int(q) for q in a] for a in allowed]


def ham_fp(h):
    d = h.get_dimension()
    n = h.get_qubit_count()
    return d, matrix_state(h.get_time_evolution_operator(0.37).get_matrix()), seq_fp(h.get_trotter_sequence(0.5, 2), n)


class Unchanged:
    """Fingerprints of caller data; every() re-evaluates them all."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def add(self, what, fn):
        self.items.append((what, fn, fn()))

    def every(self, where):
        for what, fn, before in self.items:
            self.ctx.check(fn() == before, "inputs_unchanged", lambda: f"{what} changed ({where})")


def c10_operations(ctx):
    rng = ctx.rng
    d = int(rng.choice([1, 2, 3, 4, 8]))
    m, kind = gen.unitary(rng, d, str(rng.choice(["tiny_entries", "near_identity", "haar", "perm", "phaseperm", "diag"])))
    m = np.array(m, dtype=complex, order=str(rng.choice(["C", "F"])))
    original = m.copy()
    watch = Unchanged(ctx)
    watch.add("the input matrix", lambda: matrix_state(m))
    u = Unitary(d, m, "A")
    v = Unitary(d, gen.haar(rng, d), "B")
    for w, nm in ((u, "u"), (v, "v")):
        watch.add("operation " + nm, lambda w=w: unitary_fp(w))
    raw = gen.haar(rng, d)
    watch.add("a raw matrix", lambda: matrix_state(raw))
    for name, fn in [("left_multiply", lambda: u.left_multiply(v)), ("right_multiply", lambda: u.right_multiply(v)),
                     ("inverse", lambda: u.inverse()), ("tensor", lambda: u.tensor(v)),
                     ("distance", lambda: u.distance_from(v)), ("distance_raw", lambda: u.distance_from(raw)),
                     ("close", lambda: u.close_to(raw, 0.3)), ("exports", lambda: (u.get_qasm(), u.get_jaqal(), u.get_display_name()))]:
        fn()
        watch.every(name)
        ctx.event(name)
    i = u.inverse()
    want = unitary_fp(i)
    prod, wantp = u.left_multiply(v), unitary_fp(u.left_multiply(v))
    m[...] = np.eye(d)[::-1] * 1j  # the caller reuses its array
    ctx.check(ref.phase_diff(u.get_matrix(), original) < 1e-10, "copy_on_construction", f"an operation follows its input array ({kind}, dimension {d})")
    ctx.check(unitary_fp(i) == want and unitary_fp(prod) == wantp, "copy_on_construction", "a derived operation follows an input array")
    # real and integer arrays as inputs
    p = np.eye(d)[rng.permutation(d)].astype(str(rng.choice(["int64", "float64", "complex128"])))
    before = matrix_state(p)
    q = Unitary(d, p)
    ctx.check(matrix_state(p) == before, "inputs_unchanged", "an input array changed")
    state = matrix_state(q.get_matrix())
    p[...] = 0
    ctx.check(matrix_state(q.get_matrix()) == state, "copy_on_construction", "an operation follows its input array")
    # Hamiltonian terms and Hamiltonians
    hs = [gen.scaled_hermitian(rng, d) for _ in range(int(rng.integers(1, 4)))]
    keep = [h.copy() for h in hs]
    terms = []
    for h, k in zip(hs, keep):
        b = matrix_state(h)
        terms.append(HamiltonianTerm(h))
        ctx.check(matrix_state(h) == b, "inputs_unchanged", "a term changed its input matrix")
    for h in hs:
        h[...] *= 3
    for t, k in zip(terms, keep):
        ctx.check(np.max(np.abs(t.get_matrix() - k)) < 1e-10 * max(1, np.max(np.abs(k))), "copy_on_construction", "a term follows its input array")
    given = list(terms)
    ham = Hamiltonian(given)
    exact = ref.expi(np.sum(keep, axis=0), 0.7)
    ctx.check(all(a is b for a, b in zip(given, terms)) and len(given) == len(terms), "inputs_unchanged", "the term list changed")
    given.append(HamiltonianTerm(np.eye(d, dtype=complex) if d == 1 else np.diag(np.arange(d) + 1.0)))
    given[0] = given[-1]
    terms[0].get_normalized_matrix()[...] *= 0.5
    diff = ref.phase_diff(ham.get_time_evolution_operator(0.7).get_matrix(), exact)
    ctx.check(diff < 1e-7, "copy_on_construction", lambda: f"a Hamiltonian follows its inputs: off by {diff}")
    # time evolution from a caller's matrix
    g = gen.scaled_hermitian(rng, d)
    b = matrix_state(g)
    te = UnitaryDefinitions.time_evolution(g, 1.3)
    ctx.check(matrix_state(g) == b, "inputs_unchanged", "time_evolution changed its input")
    state = matrix_state(te.get_matrix())
    g[...] = 0
    ctx.check(matrix_state(te.get_matrix()) == state, "copy_on_construction", "an evolution follows its input")
    ctx.key("operations", d, kind, ctx.index)
    ctx.show(dict(dimension=d, kind=kind, terms=len(hs)))


def c10_sequences(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3])) if rng.random() < 0.98 else 5
    pool = make_pool(rng, n, 4)
    pick = [pool[i] for i in rng.integers(0, len(pool), int(rng.integers(1, 6)))]
    items = [i for _, i in pick]
    entries = [copy.deepcopy(e) for e, _ in pick]
    snapshot = list(entries)
    warm = rng.random() < 0.5
    if warm:
        entries[0].get_full_unitary(2 ** n)
    s = UnitarySequence(2 ** n, entries)
    ctx.check(len(entries) == len(snapshot) and all(a is b for a, b in zip(entries, snapshot)), "inputs_unchanged", "the entry list changed")
    if rng.random() < 0.5:
        s.product()
    other = UnitarySequence(2 ** n, entries)
    # the caller's list and entries change
    entries.reverse()
    entries.append(pool[0][0])
    if rng.random() < 0.5:
        for e in snapshot:
            e.get_full_unitary(2 ** n).get_matrix()[...] = 0
            e.get_apply_to().append(99)
    check_entries(ctx, s, items, n, "copy_on_construction", "after changing the caller's list and entries", matrices=True)
    check_product(ctx, s, items, n, "copy_on_construction", "after changing the caller's list and entries")
    # lists handed out
    out = s.get_sequence_entries()
    for e in out:
        e.get_full_unitary(2 ** n).get_matrix()[...] = 0
        e.get_apply_to().append(99)
    out.clear()
    check_entries(ctx, s, items, n, "handed_out", "after changing a list it handed out", matrices=True)
    check_product(ctx, s, items, n, "handed_out", "after changing a list it handed out")
    # another sequence over the same entries, sharing pool objects too, with its own undo
    model, omodel = Model(items), Model(items)
    for _ in range(12):
        a, ma, b, mb = (s, model, other, omodel) if rng.random() < 0.5 else (other, omodel, s, model)
        apply(ctx, a, ma, script(rng, 1, len(pool))[0], pool, n, "history_runs")
        check_entries(ctx, b, mb.items, n, "sequences_independent", "a sequence that was not edited")
        if rng.random() < 0.4:
            check_product(ctx, b, mb.items, n, "sequences_independent", "a sequence that was not edited")
        if rng.random() < 0.3:
            l = b.get_sequence_entries()
            if l:
                l.pop(int(rng.integers(len(l))))
                l.reverse()
    for x, mx in ((s, model), (other, omodel)):
        check_entries(ctx, x, mx.items, n, "sequences_independent", "at the end", matrices=True)
        check_product(ctx, x, mx.items, n, "sequences_independent", "at the end")
    # pool entries themselves never changed
    for e, i in pool:
        diff = ref.phase_diff(e.get_full_unitary(2 ** n).get_matrix(), i.full)
        ctx.check(diff < 1e-10 and [int(q) for q in e.get_apply_to()] == i.qubits, "inputs_unchanged", "an appended entry changed")
    # default arguments are not shared state
    f1 = UnitarySequence(2 ** n)
    f1.append_last(pool[0][0])
    ctx.check(UnitarySequence(2 ** n).get_length() == 0, "fresh_defaults", "a new empty sequence is not empty")
    ctx.check("[" not in Unitary(2, None, "Z").get_display_name(), "fresh_defaults", "a new operation has qubits")
    ctx.key("sequences", n, [i.name for i in items], warm, ctx.index)
    ctx.show(dict(qubits=n, entries=[repr(i) for i in items]))


def c10_compilation(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 2, 3]))
    d = 2 ** n
    prims = gen.primitive_set(rng, n)
    plist = [p.primitive for p in prims]
    probs = gen.probabilities(rng, len(prims)) if rng.random() < 0.6 else None
    if probs is not None and rng.random() < 0.6:  # an array, which adds up to one only up to rounding
        probs = np.array(probs) * (1 + float(rng.choice([0.0, 1e-16, 1e-12, 4e-9])))
    counts = {p.primitive: int(rng.integers(1, 3)) for p in prims}
    target = Unitary(d, gen.haar(rng, d), "T")
    watch = Unchanged(ctx)
    watch.add("the target", lambda: unitary_fp(target))
    watch.add("the primitives", lambda: [primitive_fp(p) for p in plist])
    watch.add("the probabilities", lambda: None if probs is None else (type(probs), list(probs)))
    watch.add("the layer counts", lambda: [(id(k), v) for k, v in counts.items()])
    steps = int(rng.integers(1, 40))
    seed = int(rng.integers(2 ** 31))

    def fresh():
        return Compiler(d, plist, probs, append_probability=0.7)

    def run(c, layered=False):
        np.random.seed(seed)
        r = c.compile_layered(target, counts, 0.99, steps) if layered else c.compile(target, 0.99, steps)
        return r, (list(r.cost_by_step), seq_fp(r.compiled_sequence, n))

    c = fresh()
    r, fp = run(c)
    watch.every("compile")
    rl, fpl = run(c, True)
    watch.every("compile_layered")
    for name, fn in [
            ("create_random_sequence_entry", lambda: Compiler.create_random_sequence_entry(d, plist, probs)),
            ("create_random_layer", lambda: Compiler.create_random_layer(d, counts)),
            ("generate_rav_sequence", lambda: Verification.generate_rav_sequence(d, plist, 3, 0.9, unitary_primitive_probabilities=probs, max_step_count=10)),
            ("generate_layered_rav_sequence", lambda: Verification.generate_layered_rav_sequence(d, counts, 2, 0.9, max_step_count=10)),
            ("generate_xeb_sequence", lambda: Verification.generate_xeb_sequence(d, counts, 2))]:
        got = fn()
        if name == "create_random_sequence_entry":
            got.get_apply_to().append(77)  # the caller's copy of the qubits
        elif name == "create_random_layer":
            for e in got:
                e.get_apply_to()[:] = [88]
            got.clear()
        watch.every(name)
        ctx.event(name)
    # results are the caller's: later work with the same compiler does not change them
    target2 = Unitary(d, gen.haar(rng, d), "T2")
    for layered in (False, True):
        c.compile_layered(target2, counts, None, steps + 2) if layered else c.compile(target2, None, steps + 2)
        ctx.check((list(r.cost_by_step), seq_fp(r.compiled_sequence, n)) == fp, "results_independent", "a later compilation changed an earlier result")
        ctx.check((list(rl.cost_by_step), seq_fp(rl.compiled_sequence, n)) == fpl, "results_independent", "a later compilation changed an earlier layered result")
    # changing one changes neither later results nor the compiler
    r.cost_by_step.append(5.0)
    for _ in range(3):
        r.compiled_sequence.remove_first()
    r.compiled_sequence.get_sequence_entries().clear()
    ctx.check(run(c)[1] == fp, "results_independent", "changing a result changed a later compilation")
    ctx.check(run(c, True)[1] == fpl, "results_independent", "changing a result changed a later layered compilation")
    watch.every("changing results")
    # a compiler keeps its own copy of what it was built from
    for p in plist:
        a = p.get_allowed_apply_to()
        if a is not None:
            a.clear()
    plist.reverse()
    plist.append(UnitaryPrimitive(UnitaryDefinitions.h()))
    if probs is not None:
        probs[:] = list(probs)[::-1]
        if isinstance(probs, list):
            probs.append(0.5)
    ctx.check(run(c)[1] == fp, "copy_on_construction", "a compiler follows the lists it was built from")
    ctx.key("compilation", n, [p.describe() for p in prims], None if probs is None else [float(x) for x in probs], steps)
    ctx.show(dict(qubits=n, primitives=[p.describe() for p in prims], probabilities=None if probs is None else list(probs), steps=steps))


def c10_hamiltonian(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2]))
    d = 2 ** n
    terms = [HamiltonianTerm(gen.scaled_hermitian(rng, d, -1, 0.5)) for _ in range(int(rng.integers(1, 5)))]
    ham = Hamiltonian(terms)
    watch = Unchanged(ctx)
    watch.add("the Hamiltonian", lambda: ham_fp(ham))
    watch.add("the terms", lambda: [matrix_state(t.get_matrix()) for t in terms])
    kept = []
    for name, fn in [
            ("ideal", lambda: ham.get_ideal_sequence(0.8, 3)),
            ("trotter", lambda: ham.get_trotter_sequence(0.8, 4)),
            ("trotter_randomized", lambda: ham.get_trotter_sequence(0.8, 6, True)),
            ("qdrift", lambda: ham.get_qdrift_sequence(0.8, 9)),
            ("stoq", lambda: ham.compile_stoq_sequence(0.3, 0.3, 0.6, bool(rng.integers(2))).compiled_sequence),
            ("rav", lambda: ham.compile_rav_sequence(0.5, 0.3, 0.6, bool(rng.integers(2))).compiled_sequence)]:
        s = fn()
        watch.every(name)
        before = seq_fp(s, n)
        for e in s.get_sequence_entries():
            e.get_apply_to().clear()
        s.get_sequence_entries().reverse()
        ctx.check(seq_fp(s, n) == before, "handed_out", f"{name}: the sequence follows a list it handed out")
        s.append_first(UnitarySequenceEntry(UnitaryDefinitions.h(), [0]))
        s.remove_last()
        watch.every("editing the result of " + name)
        kept.append((name, s, seq_fp(s, n)))
        for other, s2, fp in kept:
            ctx.check(seq_fp(s2, n) == fp, "results_independent", f"{name} or editing its result changed an earlier result of {other}")
        ctx.event(name)
    ctx.key("hamiltonian", n, len(terms), ctx.index)
    ctx.show(dict(qubits=n, terms=len(terms)))


PROPERTIES = {
    "C07": dict(
        workloads=[Workload("twins", c07_twins, 300, 12000, needs=["product", "product_of_entries", "query_independent"]),
                   Workload("composed", c07_composed, 150, 6000),
                   Workload("long", c07_long, 60, 1000, needs=["product_long"])],
        rule="Random edit/undo histories (5 profiles, 4 saving patterns, composite edits) on 1-4 qubits, each run under three query patterns; and histories over "
             "three sequences with combinations and inversions; long histories of hundreds of entries. Distinct by system, start and history.",
        assumptions=["products compared up to global phase to 1e-9 (1e-8 for long histories)"]),
    "C08": dict(
        workloads=[Workload("history", c08_history, 400, 20000, needs=["entries", "undo_refused", "product_after"]),
                   Workload("fresh", c08_fresh, 100, 4000, needs=["fresh_undo"]),
                   Workload("exhaustive", c08_exhaustive, 50, 50)],
        rule="Random histories against a list with one saved state, entries read back after every step; and the 9^4 histories of four steps over start lengths "
             "0-2 (one in five at the quick tier); undo on results of constructions, combinations and inversions. Distinct by start and history.",
        assumptions=["entries identified by unique names, qubits and inverse marking, matrices sampled"]),
    "C09": dict(
        workloads=[Workload("combine", c09_combine, 250, 10000, needs=["combine_entries", "combine_product", "combine_recomputed", "sources", "result_editable"]),
                   Workload("inverse", c09_inverse, 300, 12000, needs=["inverse_entries", "inverse_product", "inverse_recomputed", "inverse_cancels"])],
        rule="Sequences with edit histories, empty ones, the same entry object repeated, array-constructed, the same sequence twice; judged before and after "
             "further edits of result and sources. Distinct by system and entry names.",
        assumptions=["products compared up to global phase to 1e-9"]),
    "C10": dict(
        workloads=[Workload("operations", c10_operations, 300, 10000, needs=["inputs_unchanged", "copy_on_construction"]),
                   Workload("sequences", c10_sequences, 250, 10000, needs=["handed_out", "sequences_independent", "fresh_defaults"]),
                   Workload("compilation", c10_compilation, 100, 4000, needs=["results_independent"]),
                   Workload("hamiltonian", c10_hamiltonian, 30, 1200)],
        rule="Every public call with byte-wise fingerprints of all its inputs before and after; callers' arrays, lists, entries and results changed afterwards. "
             "Distinct by operation kinds, entries or primitive sets.",
        assumptions=["parameter dictionaries and Hamiltonian matrices handed to parameterized evolutions are kept by reference and not covered"]),
}
