"""C06: matrices of the built-in gates."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C06"
RULE = ("every built-in gate and alias with many parameter values of several number types, accessed on the class "
        "and on instances (without qubits, on qubits in any order, inside and outside of contexts, after being "
        "appended, after in-place damage of an earlier result) against textbook matrices; distinct by (gate, "
        "parameters, way of access), every one non-trivial")
ASSUMPTIONS = ["entries compared to 1e-9, plus rounding proportional to the size of the parameters"]
REQUIRED = ["class_matrices", "partly_foreign", "instance_matrices", "damaged_matrices", "context_matrices", "decompositions",
            "aliases"]
SCALE = 10
BUDGET = {"quick": 240, "thorough": 300}
NEEDS_SIMULATOR = True

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

from fractions import Fraction

import numpy as np

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.operations.base import ControlledOperation, Operation, ParametricControlledOperation, ParametricOperation
from dwave.gate.primitives import Qubit
from dwave.gate.simulator import simulate

ALL = list(ref.GATES) + list(ref.ALIASES)


def tol(params):
    # half of a number of the type is off by up to half of its smallest number, 6e-8
    narrow = sum(isinstance(p, np.float16) for p in params) * 3e-8
    return 1e-12 + 4e-16 * sum(abs(float(p)) for p in params) + narrow


def same(r, m, name, params, key):
    m = np.asarray(m)
    exp = ref.gate_matrix(name, [float(p) for p in params])
    r.check(m.shape == exp.shape and ref.close(m, exp, tol(params)), key,
            f"{name}{tuple(params)}: got {np.round(m, 6).tolist()}, expected {np.round(exp, 6).tolist()}")
    d = len(exp)
    r.check(ref.close(np.conj(m.T) @ m, np.eye(d), tol(params)), "unitary", f"{name}{tuple(params)}")


def some_params(rng, k):
    out = []
    for _ in range(k):
        x = gen.param(rng)
        t = rng.randrange(10)
        if t == 0:
            x = np.float64(x)
        elif t == 1:
            x = np.float64(np.float32(x))
        elif t == 2:
            x = Fraction(x).limit_denominator(1000)
        elif t == 3:
            x = rng.choice([1e6, -1e5, 1e-300, 5e-324, -0.0, 2 ** 40, 3.3e13, -7.7e9, 10 ** rng.uniform(3, 13)])
        elif t == 4:
            x = np.int64(round(x))
        elif t == 5:  # narrow types, whose sums and products may lose digits or overflow
            x = rng.choice([np.float32(x), np.float16(x), np.int8(rng.randrange(-128, 128)), np.uint8(rng.randrange(256)),
                            np.int16(rng.randrange(-2 ** 15, 2 ** 15)), np.uint16(rng.randrange(2 ** 16)), True])
        out.append(x)
    return out


def damage(r, m):
    """Changes a returned matrix if that is possible."""
    try:
        m[...] = np.nan
    except (ValueError, TypeError):
        return
    r.event("damaged_matrices")


def sec_values(r, rng, i):
    name = ALL[i % len(ALL)]
    canon = ref.ALIASES.get(name, name)
    cls = getattr(ops, name)
    nq, npar, _ = ref.GATES[canon]
    params = some_params(rng, npar)
    o = gen.Op(name, tuple(params), tuple(range(nq)))
    if name in ref.ALIASES:
        r.check(cls is getattr(ops, canon), "alias", f"{name} is not {canon}")
        r.event("aliases")
    r.check(cls.num_qubits == nq, "num-qubits", f"{name}: {cls.num_qubits}")
    if npar:
        r.check(cls.num_parameters == npar, "num-parameters")
        r.check(cls.matrix is None, "class-matrix-of-parametric", name)
    else:
        m = cls.matrix
        same(r, m, name, params, f"class-matrix:{canon}")
        r.event("class_matrices")
        damage(r, m)
        same(r, cls.matrix, name, params, f"class-matrix-after-damage:{canon}")
        r.event("class_matrices")
    # instance without qubits, in every way the parameters can be given
    forms = [()] if not npar else [(list(params),), (tuple(params),)]
    if npar == 1:
        forms.append((params[0],))
    for f in forms:
        op = cls(*f)
        r.check(op.qubits is None, "qubits-none")
        r.check(op.num_qubits == nq, "num-qubits-instance", name)
        m = op.matrix
        same(r, m, name, params, f"instance-matrix:{canon}")
        damage(r, m)
        same(r, op.matrix, name, params, f"instance-matrix-after-damage:{canon}")
        if npar:
            r.check(list(op.parameters) == list(params), "parameters-kept")
        r.event("instance_matrices", 2)
    # instances on qubits, several alive at once with different parameters
    q = [gen.derived(Qubit, 0.1)(str(k)) for k in range(4)]
    made = []
    for _ in range(3):
        ps = some_params(rng, npar)
        oo = gen.Op(name, tuple(ps), tuple(rng.sample(range(4), nq)))
        made.append((oo, gen.instantiate(oo, q, rng)))
    for _ in range(2):
        rng.shuffle(made)
        for oo, op in made:
            m = op.matrix
            same(r, m, name, oo.params, f"instance-matrix:{canon}")
            r.event("instance_matrices")
            if rng.random() < 0.5:
                damage(r, m)
    if not npar:
        same(r, cls.matrix, name, params, f"class-matrix:{canon}")
    r.seen(["values", name, [repr(p) for p in params]])


def in_circuit_order(name, params, qubits):
    """Matrix of the gate with its qubits sorted by their position in the circuit."""
    order = sorted(qubits)
    pos = [order.index(x) for x in qubits]
    return ref.apply(np.eye(2 ** len(qubits), dtype=complex), len(qubits), pos, ref.gate_matrix(name, params))


def sec_context(r, rng, i):
    """Matrices in and out of the context of a circuit, before and after simulation."""
    name = ALL[i % len(ALL)]
    canon = ref.ALIASES.get(name, name)
    cls = getattr(ops, name)
    nq, npar, _ = ref.GATES[canon]
    n = rng.randint(nq, 5)
    params = [gen.param(rng) for _ in range(npar)]
    qs = tuple(rng.sample(range(n), nq))
    parametric = rng.random() < 0.3
    c = gen.make_circuit(rng, n, parametric=parametric)
    o = gen.Op(name, tuple(params), qs)
    with c.context as reg:
        op = gen.instantiate(o, reg.q, rng)
        inside = np.array(op.matrix)
        if not npar:
            m = np.array(cls.matrix)
            same(r, m, name, params, f"class-matrix-in-context:{canon}")
        if canon in ref.ONE_CONTROL:
            exp = in_circuit_order(canon, params, qs)
        else:
            exp = ref.gate_matrix(canon, params)
        r.check(ref.close(inside, exp, tol(params)), f"matrix-in-context:{canon}",
                f"on {qs} of {n}: {np.round(inside, 4).tolist()}")
        r.check(len(c.circuit) == 1, "matrix-access-appended")
    r.event("context_matrices")
    same(r, op.matrix, name, params, f"matrix-after-context:{canon}")
    same(r, c.circuit[0].matrix, name, params, f"matrix-in-circuit:{canon}")
    if not parametric:
        before = gen.final_state([o], n)
        simulate(c)
        r.check(ref.close(c.state, before, 1e-9), "simulated", name)
    m = op.matrix
    damage(r, m)
    if not parametric:
        simulate(c)
        r.check(ref.close(c.state, before, 1e-9), "simulated-after-damage", name)
    same(r, op.matrix, name, params, f"matrix-after-simulation:{canon}")
    if not npar:
        same(r, cls.matrix, name, params, f"class-matrix:{canon}")
    # reapplying gives the same matrix
    d = op() if nq else op
    same(r, d.matrix, name, params, f"matrix-of-reapplied:{canon}")
    r.seen(["context", name, [repr(p) for p in params], n, qs, parametric])


def sec_foreign(r, rng, i):
    """Operations on qubits of one circuit looked at in the context of another (frozen) circuit."""
    name = rng.choice(ALL)
    canon = ref.ALIASES.get(name, name)
    nq, npar, _ = ref.GATES[canon]
    params = [gen.param(rng) for _ in range(npar)]
    a, b = gen.derived(Circuit, 0.1)(4), gen.derived(Circuit, 0.1)(rng.randint(1, 4))
    op = gen.instantiate(gen.Op(name, tuple(params), tuple(rng.sample(range(4), nq))), a.qubits, rng)
    if rng.random() < 0.5:   # holds some of the qubits
        shared = rng.sample(list(a.qubits), rng.randint(1, 3))
        if not all(x in shared for x in op.qubits):
            for x in shared:
                b.add_qubit(x)
            r.event("partly_foreign", any(x in shared for x in op.qubits))
    with b.context as reg:
        ops.X(reg.q[0])
        same(r, op.matrix, name, params, f"foreign-matrix:{canon}")
        with b.context.freeze:
            same(r, op.matrix, name, params, f"foreign-matrix:{canon}")
        r.check(len(b.circuit) == 1 and not a.circuit, "matrix-access-appended")
        ops.Y(reg.q[0])
        r.check([o.name for o in b.circuit] == ["X", "Y"], "context-damaged")
    r.event("context_matrices")
    r.seen(["foreign", name, [repr(p) for p in params]])


def classes():
    seen, todo = [], [Operation]
    while todo:
        k = todo.pop()
        for s in k.__subclasses__():
            if s.__module__.startswith("dwave.gate.operations") and s not in seen:
                seen.append(s)
                todo.append(s)
    return [s for s in seen if s.__name__ in ref.GATES]


def sec_decomposition(r, rng, i):
    """Every listed decomposition multiplies to the gate, up to a phase."""
    found = 0
    for cls in classes():
        npar = ref.GATES[cls.__name__][1]
        params = [gen.param(rng) for _ in range(npar)]
        inst = cls(params) if npar else cls()
        try:
            names = list(cls.decomposition)
        except NotImplementedError:
            r.raises(NotImplementedError, lambda: inst.decomposition, "decomposition-instance")
            continue
        r.check(list(inst.decomposition) == names, "decomposition-instance", cls.__name__)
        left = list(params)
        u = np.eye(2, dtype=complex)
        for g in names:
            k = ref.GATES[g][1]
            u = np.asarray(getattr(ops, g)(left[:k]).matrix if k else getattr(ops, g).matrix) @ u
            left = left[k:]
        r.check(not left, "decomposition-parameters", cls.__name__)
        r.check(ref.close_phase(u, ref.gate_matrix(cls.__name__, params), 1e-8), f"decomposition:{cls.__name__}",
                f"{names} {params}")
        found += 1
    r.event("decompositions", found)
    r.check(len(classes()) >= 20, "gates-missing", f"{len(classes())}")
    r.check(set(n for n in ref.GATES) <= {c.__name__ for c in classes()}, "gates-missing")
    r.seen(["decomposition", i])


def sec_wrong(r, rng, i):
    """Wrong numbers of parameters or qubits are refused."""
    name = ALL[i % len(ALL)]
    canon = ref.ALIASES.get(name, name)
    cls = getattr(ops, name)
    nq, npar, _ = ref.GATES[canon]
    q = [gen.derived(Qubit, 0.1)(str(k)) for k in range(6)]
    pre = ([0.1] * npar,) if npar else ()
    for k in range(1, 6):
        if k != nq:
            r.raises(ValueError, lambda: cls(*pre, qubits=tuple(q[:k])), "wrong-number-of-qubits", f"{name} {k}")
    if npar:
        for k in range(0, 6):
            if k != npar:
                r.raises(ValueError, lambda: cls([0.1] * k), "wrong-number-of-parameters", f"{name} {k}")
                r.raises(ValueError, lambda: cls([0.1] * k, qubits=tuple(q[:nq])), "wrong-number-of-parameters", f"{name} {k}")
    same(r, cls(*pre).matrix, name, [0.1] * npar, f"instance-matrix:{canon}")
    r.seen(["wrong", name])


SECTIONS = [
    ("values", sec_values, 560, 28000),
    ("context", sec_context, 560, 28000),
    ("foreign", sec_foreign, 200, 5000),
    ("decomposition", sec_decomposition, 100, 2000),
    ("wrong", sec_wrong, 28, 28),
]
