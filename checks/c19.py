"""C19: the state stored in a circuit."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C19"
SCALE = 6
BUDGET = {"quick": 240, "thorough": 600}
RULE = ("random histories of setting vectors and matrices (valid, scaled, of wrong dimension, shape or norm, of several element "
        "types and memory layouts), normalizing, forcing, simulating and resetting, with the stored state compared with a "
        "model after every step; distinct by history, non-trivial when a state was refused and one was replaced")
ASSUMPTIONS = ["arrays deviate from norm or trace one either by rounding (below 1e-9) or clearly (above 4e-5)",
               "the dimension is that of the circuit's qubits when the state is set"]
REQUIRED = ["vectors_set", "matrices_set", "mixed_matrices_set", "refused_shape", "refused_norm", "refused_without_force",
            "normalized_vectors", "normalized_matrices", "vector_of_mixed_refused", "density_of_vector", "simulated", "no_qubits",
            "refused_simulations"]

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import numpy as np

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitError, ParametricCircuit
from dwave.gate.simulator.simulator import simulate
import gen
import ref

simulate = gen.simulator(simulate)


def rand_dm(nprng, d):
    k = int(nprng.integers(1, d + 1))
    w = nprng.random(k) + 0.05
    w /= w.sum()
    m = np.zeros((d, d), dtype=complex)
    for p in w:
        z = nprng.normal(size=d) + 1j * nprng.normal(size=d)
        z /= np.linalg.norm(z)
        m += p * np.outer(z, z.conj())
    return m, k


def dress(rng, a):
    """The same numbers with another element type or memory layout."""
    x = rng.randrange(5)
    if x == 1:
        return np.asfortranarray(a)
    if x == 2:
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if x == 3 and not np.iscomplexobj(a):
        return a.astype(complex)
    if x == 4:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a


def vector(rng, nprng, d):
    x = rng.random()
    if x < 0.25:
        v = np.zeros(d, dtype=rng.choice([int, float, complex]))
        v[rng.randrange(d)] = 1
    elif x < 0.4:
        v = nprng.normal(size=d)
        v = v / np.linalg.norm(v)
    else:
        v = nprng.normal(size=d) + 1j * nprng.normal(size=d)
        v = v / np.linalg.norm(v)
    return dress(rng, v)


def matrix(rng, nprng, d):
    x = rng.random()
    if x < 0.2:
        m = np.zeros((d, d), dtype=rng.choice([int, float, complex]))
        k = rng.randrange(d)
        m[k, k] = 1
        rank = 1
    elif x < 0.35:
        m, rank = np.eye(d) / d, d
    else:
        m, rank = rand_dm(nprng, d)
    return dress(rng, m), rank


def snapshot(c):
    """What is stored, as seen through the interface."""
    try:
        s = c.state
        s = None if s is None else s.copy()
    except CircuitError:
        s = "mixed"
    return s


def sec_history(r, rng, i):
    nprng = np.random.default_rng(rng.getrandbits(63))
    n = rng.choice([0, 1, 1, 2, 2, 3, 4]) if rng.random() < 0.9 else rng.choice([5, 5, 6, 7])
    par = rng.random() < 0.15
    c = gen.make_circuit(rng, n, 0, parametric=par) if n else (ParametricCircuit if par else Circuit)(0)
    if n == 0:
        r.event("no_qubits")
    d = 2 ** n
    model = None  # None, ("vec", array) or ("mat", array)
    log, refused, replaced = [], 0, 0

    def agree(key):
        if model is None:
            r.check(c.state is None and c.density_matrix is None, key, f"{log[-2:]}: state out of nowhere")
        elif model[0] == "vec":
            s = c.state
            r.check(isinstance(s, np.ndarray) and s.shape == (d,) and np.allclose(s, model[1], rtol=0, atol=1e-12), key,
                    f"{log[-2:]}: {s!r} instead of {model[1]!r}")
            if rng.random() < 0.6:
                dm = c.density_matrix
                e = np.outer(model[1], np.conj(model[1]))
                r.check(dm.shape == (d, d) and np.allclose(dm, e, rtol=0, atol=1e-10), key + "-density", f"{log[-2:]}: {dm!r}")
                r.event("density_of_vector")
                r.check(c.density_matrix.shape == (d, d) and np.allclose(c.state, model[1], rtol=0, atol=1e-12), key)
        else:
            r.raises(CircuitError, lambda: c.state, key + "-vector-of-mixed")
            r.event("vector_of_mixed_refused")
            dm = c.density_matrix
            r.check(dm.shape == (d, d) and np.allclose(dm, model[1], rtol=0, atol=1e-12), key + "-density",
                    f"{log[-2:]}: {dm!r} instead of {model[1]!r}")

    agree("new")
    for step in range(rng.randint(3, 12)):
        x = rng.random()
        if x < 0.88:
            kind = rng.choice(["vec", "mat"])
            if kind == "vec":
                a, rank = vector(rng, nprng, d), 1
            else:
                a, rank = matrix(rng, nprng, d)
            good = a
            force, normalize = rng.random() < 0.5, rng.random() < 0.4
            y = rng.random()
            why = None
            if y < 0.2:  # wrong shape
                why = "shape"
                z = rng.randrange(6)
                if z == 0:
                    k = rng.choice([s for s in (1, 2, 4, 8, 3, 5, d - 1, d + 1, 2 * d, d * d) if s != d and s > 0])
                    a = np.zeros(k, dtype=complex)
                    a[0] = 1
                elif z == 1:
                    k = rng.choice([s for s in (1, 2, 4, 8, 3, d + 1, 2 * d) if s != d])
                    a = np.zeros((k, k), dtype=complex)
                    a[0, 0] = 1
                elif z == 2:
                    a = np.zeros((d, d + 1) if rng.random() < 0.5 else (d + 1, d), dtype=complex)
                    a[0, 0] = 1
                elif z == 3:
                    a = np.zeros((d, 1) if rng.random() < 0.5 else (1, d), dtype=complex)
                    a[0, 0] = 1
                    if d == 1:
                        a = np.zeros((1, 1, 1)) + 1
                elif z == 4:
                    a = np.zeros((d, d, d) if d > 1 else (1, 1, 1), dtype=complex)
                    a[0, 0, 0] = 1
                else:
                    a = np.array(1.0)
            elif y < 0.55:  # scaled
                f = rng.choice([2.0, 0.5, 1.01, 0.99, 1e-3, 100, -3, 1.2 + 0.7j, 5j, -1, 1j, 0.6 + 0.8j,
                                1.0005, 0.9997, 1.00005, 0.99995, 1 + 1e-9, 1 - 1e-10])
                a = a * f
                if kind == "vec":
                    off = abs(abs(f) - 1) > 4e-5
                    good = a / np.linalg.norm(a)
                else:
                    off = abs(f - 1) > 4e-5
                if not normalize and off:
                    why = "norm"
                elif not normalize:
                    good = a  # a phase factor alone leaves the norm
            elif y < 0.62:
                a = a * 0
                why = "norm"
            elif y < 0.67:
                a = a.astype(complex).copy()
                np.fill_diagonal(a, np.nan) if a.ndim == 2 else a.fill(np.nan)
                why = "norm"
            elif y < 0.74 and kind == "mat" and d > 1:
                # Frobenius norm one, but not trace one
                a = np.eye(d) / np.sqrt(d)
                good = np.eye(d) / d
                why = None if normalize else "norm"
            given = a.copy()
            set_ = model is not None and not force
            kw = {}
            if force or rng.random() < 0.3:
                kw["force"] = force
            if normalize or rng.random() < 0.3:
                kw["normalize"] = normalize
            log.append([kind, rank, list(a.shape), str(a.dtype), force, normalize, why or "valid"])
            if set_:
                r.raises(CircuitError if why is None else Exception, lambda: gen.anywhere(c.set_state)(a, **kw), "set-over-state", f"{log[-1]}")
                r.event("refused_without_force")
                refused += 1
            elif why:
                with np.errstate(all="ignore"):
                    r.raises(ValueError if a.ndim in (1, 2) else Exception, lambda: gen.anywhere(c.set_state)(a, **kw), f"refuse-{why}",
                             f"{log[-1]} {a!r}")
                r.event(f"refused_{why}")
                refused += 1
            else:
                gen.anywhere(c.set_state)(a, **kw)
                replaced += model is not None
                model = (kind, good.copy())
                r.event("vectors_set" if kind == "vec" else "matrices_set")
                if kind == "mat" and rank > 1:
                    r.event("mixed_matrices_set")
                if normalize:
                    r.event("normalized_vectors" if kind == "vec" else "normalized_matrices")
                got = c.density_matrix
                r.check(abs(np.trace(got) - 1) < 1e-7, "trace", f"{np.trace(got)}")
                if kind == "vec":
                    r.check(abs(np.linalg.norm(c.state) - 1) < 1e-7, "norm")
            r.check(np.array_equal(a, given, equal_nan=True), "argument-changed", f"{log[-1]}")
            agree("refused-changed-state" if (set_ or why) else "state")
        elif x < 0.94 and n and not par:
            mixed, little = rng.random() < 0.5, rng.random() < 0.5
            prog = gen.program(rng, n, rng.randint(0, 4), custom=0)
            c.unlock()
            c.circuit.clear()
            gen.build(rng, prog, n, circuit=c)
            simulate(c, mixed_state=mixed, little_endian=little)
            v = gen.final_state(prog, n)
            if little:
                v = ref.reverse_bits(v, n)
            model = ("mat", np.outer(v, v.conj())) if mixed else ("vec", v)
            if mixed:
                r.check(np.allclose(c.density_matrix, model[1], rtol=0, atol=1e-9), "simulated")
                model = ("mat", c.density_matrix.copy())
            else:
                r.check(np.allclose(c.state, v, rtol=0, atol=1e-9), "simulated")
                model = ("vec", c.state.copy())
            log.append(["simulate", mixed])
            r.event("simulated")
            agree("simulated")
            if rng.random() < 0.4:  # a simulation that is refused midway stores nothing
                c.unlock()
                gen.build(rng, gen.program(rng, n, rng.randint(1, 4), custom=0), n, circuit=c)
                c.unlock()
                bad = ops.Barrier([rng.choice(c.qubits)])
                c.circuit.insert(rng.randint(0, len(c.circuit)), bad)
                try:
                    simulate(c, mixed_state=rng.random() < 0.5, little_endian=rng.random() < 0.5)
                except Exception:
                    log.append(["simulate refused"])
                    r.event("refused_simulations")
                    if c.density_matrix is None:
                        model = None
                    agree("refused-simulation-stored-a-state")
                else:
                    model = None
                    c.reset()
        else:
            c.reset()
            model = None
            log.append(["reset"])
            agree("reset")
        r.event("steps")
    r.seen([n] + log, refused > 0 and replaced > 0)


def sec_grow(r, rng, i):
    """The accepted dimension follows the circuit's qubits."""
    nprng = np.random.default_rng(rng.getrandbits(63))
    c = gen.derived(Circuit, 0.1)()
    log = []
    for n in range(0, 7):
        if n:
            rng.choice([lambda: c.add_qubit(), lambda: c.add_qregister(1), lambda: c.add_qubit(qreg_label=rng.choice(["a", "b"]))])()
        if rng.random() < 0.4:
            continue
        d = 2 ** n
        r.check(c.num_qubits == n, "num-qubits")
        for other in {1, 2, d // 2, 2 * d, 4 * d} - {d, 0}:
            v = np.zeros(other, dtype=complex)
            v[-1] = 1
            r.raises(ValueError, lambda: gen.anywhere(c.set_state)(v, force=True), "refuse-shape", f"{other} for {n} qubits")
            if other <= 64:
                m = np.zeros((other, other), dtype=complex)
                m[-1, -1] = 1
                r.raises(ValueError, lambda: gen.anywhere(c.set_state)(m, force=True), "refuse-shape", f"{other}x{other} for {n} qubits")
            r.event("refused_shape")
        if rng.random() < 0.5:
            v = vector(rng, nprng, d)
            gen.anywhere(c.set_state)(v, force=True)
            r.check(np.array_equal(c.state, v), "state")
            r.event("vectors_set")
        else:
            m, rank = matrix(rng, nprng, d)
            gen.anywhere(c.set_state)(m, force=True)
            r.check(np.array_equal(c.density_matrix, m), "matrix")
            r.raises(CircuitError, lambda: c.state, "vector-of-mixed")
            r.event("matrices_set")
        log.append(n)
    r.seen(["grow", log, i])


SECTIONS = [
    ("history", sec_history, 3000, 80000),
    ("grow", sec_grow, 150, 2000),
]
