"""C07: unitary builders."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C07"
RULE = ("controlled unitaries for control sets and orders, targets and sizes (all of them up to 4 qubits, samples "
        "up to 8) with random, singular, integer and non-contiguous matrices; random circuits of single-qubit and "
        "(multi-)controlled gates whose unitary is built again after every change of a random history (append, "
        "remove, edits in place, new qubits, damage of returned matrices); distinct by indices or by program "
        "history, non-trivial when more than one operation or qubit takes part")
ASSUMPTIONS = ["entries compared to 1e-9", "multi-qubit gates that are not controlled, and measurements, have no "
               "circuit unitary: they must raise (a documented limit)"]
REQUIRED = ["controlled_unitaries", "circuit_unitaries", "rebuilt_after_change", "damaged_matrices",
            "refused_with_exception", "parametric_controlled", "multi_controlled", "shared_operations"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 400}
NEEDS_SIMULATOR = False

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import copy
import itertools
import warnings

import numpy as np

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.primitives import Qubit
from dwave.gate.tools.unitary import build_controlled_unitary, build_unitary

GRID = [(n, c, t) for n in range(1, 5) for t in range(n) for k in range(0, n)
        for c in itertools.permutations([x for x in range(n) if x != t], k)]


def matrix(rng, kind=None):
    nprng = np.random.default_rng(rng.getrandbits(60))
    kind = rng.randrange(7) if kind is None else kind
    if kind == 0:
        return ref.random_unitary(nprng, 2)
    if kind == 1:
        return nprng.normal(size=(2, 2)) + 1j * nprng.normal(size=(2, 2))
    if kind == 2:
        return np.array([[0, 1], [1, 0]])
    if kind == 3:
        return np.asfortranarray(ref.random_unitary(nprng, 2))
    if kind == 4:
        return nprng.normal(size=(2, 2))
    if kind == 5:
        return np.zeros((2, 2), dtype=complex)
    return ref.random_unitary(nprng, 4)[::2, ::2]


def damage(r, m):
    try:
        m[...] = np.nan
        r.event("damaged_matrices")
    except (ValueError, TypeError):
        pass


def one(r, rng, n, c, t, m):
    full = ref.apply(np.eye(2 ** n, dtype=complex), n, list(c) + [t], ref.controlled(np.asarray(m, dtype=complex), len(c)))
    keep = np.array(m)
    ctl = list(c) if rng.random() < 0.5 else tuple(c)
    if len(c) == 1 and rng.random() < 0.5:
        ctl = c[0]
    tgt = t if rng.random() < 0.5 else [t]
    got = build_controlled_unitary(ctl, tgt, m, n) if rng.random() < 0.7 else build_controlled_unitary(
        control=ctl, target=tgt, unitary=m, num_qubits=n)
    r.check(ref.close(got, full), "controlled-unitary", f"n={n} control={c} target={t}: {np.round(got, 4).tolist()[:8]}")
    r.check(np.array_equal(np.array(m), keep), "argument-changed")
    if max([t, *c]) == n - 1:
        got = build_controlled_unitary(ctl, tgt, m)
        r.check(ref.close(got, full), "controlled-unitary-default-size", f"n={n} control={c} target={t}")
    if not np.iscomplexobj(np.asarray(m)):
        g = build_controlled_unitary(ctl, tgt, m, n, dtype=float)
        r.check(g.dtype == np.float64 and ref.close(g, full), "controlled-unitary-real")
    damage(r, got)
    r.check(ref.close(build_controlled_unitary(ctl, tgt, m, n), full), "controlled-unitary-after-damage")
    r.event("controlled_unitaries", 2)
    r.seen(["cu", n, c, t, np.round(np.asarray(m, dtype=complex), 4).tolist()], len(c) > 0)


def sec_grid(r, rng, i):
    n, c, t = GRID[i % len(GRID)]
    one(r, rng, n, c, t, matrix(rng, 0 if i < len(GRID) else None))


def sec_large(r, rng, i):
    n = rng.randint(1, 8)
    q = rng.sample(range(n), rng.randint(1, n))
    one(r, rng, n, tuple(q[1:]), q[0], matrix(rng))


def sec_digits(r, rng, i):
    """Indices of two digits: a single large matrix of real numbers, looked at in a few columns and by its norm."""
    n = [12, 11, 12][i % 3]
    q = rng.sample(range(9), rng.choice([0, 0, 1, 2])) + [rng.randint(1, 9), 10, *([11] if n > 11 and i % 2 else [])]
    q = list(dict.fromkeys(q))
    rng.shuffle(q)
    t, c = q[0], q[1:]
    m = np.array([[0.6, -0.8], [0.8, 0.6]])
    got = build_controlled_unitary(tuple(c), t, m, n, dtype=float)
    r.check(got.shape == (1 << n, 1 << n), "digits:shape")
    cols = {(1 << n) - 1, *(rng.getrandbits(n) for _ in range(60)), *(sum(1 << (n - 1 - k) for k in c) | rng.getrandbits(n) for _ in range(60))}
    for col in cols:
        want = np.zeros(1 << n)
        if all(col >> (n - 1 - k) & 1 for k in c):
            b = col >> (n - 1 - t) & 1
            want[col & ~(1 << (n - 1 - t))] = m[0, b]
            want[col | 1 << (n - 1 - t)] = m[1, b]
        else:
            want[col] = 1
        r.check(ref.close(got[:, col], want), "digits:column", f"n={n} control={c} target={t} column {col}")
        r.event("digit_columns")
    # every column is orthonormal up to rounding, so that there is nothing else
    r.check(abs(np.einsum("ij,ij->", got, got) - (1 << n)) < 1e-6, "digits:norm")
    r.seen(["digits", n, c, t])


def sec_invalid(r, rng, i):
    n = rng.randint(1, 5)
    m = matrix(rng, 0)
    k = rng.randint(1, n)
    q = rng.sample(range(n), k)
    kind = rng.randrange(7)
    if kind == 0:    # overlap
        c, t = q, [rng.choice(q)]
    elif kind == 1:  # control repeated
        c, t = [q[0], q[0]], [n]
        n += 1
    elif kind == 2:  # too large target or control
        c, t = q, [n + rng.randint(0, 3)]
    elif kind == 3:
        c, t = [n + rng.randint(0, 3)] + q[1:], [q[0]]
    elif kind == 4:  # negative
        c, t = [-rng.randint(1, 6)] + q[1:], [q[0]]
    elif kind == 5:
        c, t = q, [-rng.randint(1, 6)]
    else:
        c, t, n = q[1:], [q[0]], rng.choice([0, -1, max(q)])
    if rng.random() < 0.3 and len(c) == 1:
        c = c[0]
    nn = n if rng.random() < 0.7 else np.int64(n)
    r.raises((ValueError, TypeError, IndexError, NotImplementedError),
             lambda: build_controlled_unitary(c, t, m, nn), "invalid-indices-accepted", f"n={nn} control={c} target={t}")
    r.raises((ValueError, TypeError, NotImplementedError),
             lambda: build_controlled_unitary([0], [1, 2], m, 4), "two-targets-accepted")
    r.seen(["invalid", int(n), c, t])


NAMES = [g for g in ref.GATES if ref.GATES[g][0] == 1] + list(ref.ONE_CONTROL)


def random_op(rng, n):
    x = rng.random()
    if x < 0.15:
        return gen.custom_ops(rng, n)
    if x < 0.3 and n >= 3:
        nc = rng.randint(2, min(n - 1, 4))
        nprng = np.random.default_rng(rng.getrandbits(60))
        return gen.Op("custom_c", (), tuple(rng.sample(range(n), nc + 1)), extra=(nc, ref.random_unitary(nprng, 2)))
    return gen.gate(rng, n, NAMES)


def expect(ops_, n):
    return ref.unitary(n, gen.oplist(ops_))


def compare(r, c, prog, n, key):
    u = gen.anywhere(build_unitary)(c)
    e = expect(prog, n)
    r.check(ref.close(u, e), key, f"{gen.describe(prog)}: max diff "
            f"{np.max(np.abs(np.asarray(u) - e)) if np.shape(u) == e.shape else np.shape(u)}")
    r.event("circuit_unitaries")
    return u


def sec_circuit(r, rng, i):
    n = rng.randint(1, 5)
    prog = [random_op(rng, n) for _ in range(rng.randint(0, 10))]
    c = gen.build(rng, prog, n, rng.choice([0, 2]))
    names = [o.name for o in prog]
    r.event("parametric_controlled", sum(x in ("CRX", "CRY", "CRZ", "CRotation") for x in names))
    r.event("multi_controlled", sum(o.name == "custom_c" and o.extra[0] > 1 for o in prog))
    u = compare(r, c, prog, n, "circuit-unitary")
    damage(r, u)
    compare(r, c, prog, n, "circuit-unitary-after-damage")
    if rng.random() < 0.3:
        other = gen.derived(Circuit, 0.1)(2)
        with other.context as reg:
            ops.X(reg.q[0])
            compare(r, c, prog, n, "circuit-unitary-in-context")
        r.check(len(other.circuit) == 1, "built-operations-appended")
    if rng.random() < 0.3:
        compare(r, copy.deepcopy(c), prog, n, "unitary-of-copy")
    r.seen(["circuit", n, gen.describe(prog), i if "custom" in str(names) else 0], len(prog) > 1)


def sec_shared(r, rng, i):
    """The same operations in several circuits that hold the same qubits in other orders."""
    n = rng.randint(1, 4)
    qubits = [gen.derived(Qubit, 0.1)(str(k)) for k in range(n)]
    prog = [random_op(rng, n) for _ in range(rng.randint(1, 6))]
    made = [gen.instantiate(o, qubits, rng) for o in prog]
    circuits, orders = [], []
    for _ in range(rng.choice([2, 2, 3])):
        order = rng.sample(range(n), n)
        front, m = rng.random() < 0.3 and n < 4, n
        c = gen.derived(Circuit, 0.1)()
        if front:
            c.add_qubit()
            m += 1
        for k in order:
            c.add_qubit(qubits[k], rng.choice([None, None, "x"]) if not front else None)
        pos = [c.qubits.index(q) for q in qubits]
        c.extend(made)
        circuits.append((c, [o._replace(qubits=tuple(pos[q] for q in o.qubits)) for o in prog], m))
        orders.append(pos)
    for c, p, m in circuits + rng.sample(circuits, len(circuits)):
        u = compare(r, c, p, m, "unitary-of-shared-operations")
        if rng.random() < 0.3:
            damage(r, u)
        r.event("shared_operations")
    r.seen(["shared", n, orders, gen.describe(prog)], n > 1)


def sec_history(r, rng, i):
    """The unitary always is that of the present content."""
    n = rng.randint(1, 4)
    parametric = rng.random() < 0.2
    c = gen.make_circuit(rng, n, parametric=parametric)
    prog, hist = [], []
    kept = []
    for step in range(rng.randint(4, 14)):
        x = rng.random()
        c.unlock()
        if x < 0.45 or not prog:
            o = random_op(rng, n)
            op = gen.instantiate(o, c.qubits, rng)
            if rng.random() < 0.5 or not prog:
                c.append(op)
                prog.append(o)
            else:
                k = rng.randrange(len(prog))
                c.circuit.insert(k, op)
                prog.insert(k, o)
            hist.append(["add", gen.describe([o])])
        elif x < 0.6:
            k = rng.randrange(len(prog))
            del c.circuit[k]
            del prog[k]
            hist.append(["del", k])
        elif x < 0.75:
            ks = [k for k, o in enumerate(prog) if o.params]
            if not ks:
                continue
            k = rng.choice(ks)
            new = tuple(gen.param(rng) for _ in prog[k].params)
            for j, v in enumerate(new):
                c.circuit[k].parameters[j] = v
            prog[k] = prog[k]._replace(params=new)
            hist.append(["params", k, new])
        elif x < 0.82:
            a, b = rng.randrange(len(prog)), rng.randrange(len(prog))
            prog[a], prog[b] = prog[b], prog[a]
            c.circuit[a], c.circuit[b] = c.circuit[b], c.circuit[a]
            hist.append(["swap", a, b])
        elif x < 0.88 and n < 5:
            last = list(c.qregisters)[-1]
            c.add_qubit(None, last)
            n += 1
            hist.append(["qubit"])
        elif x < 0.93:
            k = rng.randrange(len(prog))
            nq = tuple(rng.sample(range(n), len(prog[k].qubits)))
            c.circuit[k].qubits = [c.qubits[q] for q in nq]
            prog[k] = prog[k]._replace(qubits=nq)
            hist.append(["move", k, nq])
        else:
            c.reset()
            prog = []
            hist.append(["reset"])
        u = compare(r, c, prog, n, "unitary-after-change")
        r.event("rebuilt_after_change")
        for m, snap in kept:
            r.check(np.array_equal(m, snap), "earlier-result-changed")
        if rng.random() < 0.4:
            damage(r, u)
            compare(r, c, prog, n, "unitary-after-damage")
        else:
            kept.append((u, np.array(u)))
    r.seen(["history", n, hist], len(hist) > 2)


def sec_refused(r, rng, i):
    """Operations that cannot be part of a circuit's unitary raise."""
    n = rng.randint(2, 4)
    kind = rng.choice(["SWAP", "CSWAP", "CCX", "Measurement", "Barrier"] if n > 2 else ["SWAP", "Measurement", "Barrier"])
    prog = [random_op(rng, n) for _ in range(rng.randint(0, 3))]
    c = gen.build(rng, prog, n)
    c.unlock()
    k = {"SWAP": 2, "CSWAP": 3, "CCX": 3}.get(kind, rng.randint(1, n))
    qs = [c.qubits[q] for q in rng.sample(range(n), k)]
    c.append(getattr(ops, kind)(qs) if k > 1 or kind in ("Measurement", "Barrier") else getattr(ops, kind)(qs[0]))
    try:
        u = gen.anywhere(build_unitary)(c)
    except Exception:
        r.event("refused_with_exception")
        r.check(True, "refused")
        r.seen(["refused", kind, n, k])
        return
    # supported after all: then it has to be right
    if kind in ref.GATES:
        full = ref.unitary(n, gen.oplist(prog) + [(ref.gate_matrix(kind), [c.qubits.index(q) for q in qs])])
    elif kind == "Barrier":
        full = expect(prog, n)
    else:
        full = None
    r.check(full is not None and ref.close(u, full), "unsupported-operation-miscompiled", kind)


SECTIONS = [
    ("grid", sec_grid, 2 * len(GRID), 20 * len(GRID)),
    ("large", sec_large, 250, 5000),
    ("digits", sec_digits, 6, 40),
    ("invalid", sec_invalid, 300, 5000),
    ("circuit", sec_circuit, 900, 40000),
    ("shared", sec_shared, 200, 8000),
    ("history", sec_history, 400, 20000),
    ("refused", sec_refused, 60, 600),
]
