"""C08: operations created from circuits."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C08"
RULE = ("operations created from random circuits (parametric ones with variables in any order, repeated or unused, "
        "mixed with numbers), several instances alive at once, looked at repeatedly in and outside of contexts, "
        "against reference unitaries; created single-qubit operations used in other circuits, simulated, nested and "
        "bound; distinct by (source program, parameters), non-trivial with at least two operations")
ASSUMPTIONS = ["source circuits consist of the gates that the circuit-unitary builder supports, without conditions, "
               "and are not changed after the operation is created", "entries compared to 1e-8"]
REQUIRED = ["matrices", "parametric_instances", "out_of_order_variables", "repeated_variables", "unused_variables",
            "simulated", "host_unitaries", "nested", "bound_in_host", "created_again", "grown"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 400}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import numpy as np

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.operations.base import Operation, ParametricOperation, create_operation
from dwave.gate.primitives import Variable
from dwave.gate.simulator import simulate
from dwave.gate.tools.unitary import build_unitary

NAMES = [g for g in ref.GATES if ref.GATES[g][0] == 1] + list(ref.ONE_CONTROL)


class V:
    """Variable number k of a source circuit."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"p{self.k}"


def source(rng, n, parametric, length=None):
    """(circuit, program with V parameters, number of variables)"""
    length = (rng.randint(1, 8) if rng.random() < 0.85 else rng.randint(9, 30)) if length is None else length
    prog = [gen.custom_ops(rng, n) if rng.random() < 0.08 else
            gen.gate(rng, n, [g for g in NAMES if ref.GATES[g][1]] if parametric and rng.random() < 0.7 else NAMES)
            for _ in range(length)]
    nv = 0
    if parametric:
        nv = rng.randint(1, 5) if rng.random() < 0.85 else rng.randint(6, 25)
        prog = [o._replace(params=tuple(V(rng.randrange(nv)) if rng.random() < 0.7 else p for p in o.params))
                for o in prog]
    c = gen.make_circuit(rng, n, parametric=parametric)
    top = -1
    with c.context as reg:
        if parametric and rng.random() < 0.3:
            reg.p[nv - 1]
            top = nv - 1
        for o in prog:
            for p in o.params:
                if isinstance(p, V):
                    top = max(top, p.k)
            oo = o._replace(params=tuple(reg.p[p.k] if isinstance(p, V) else p for p in o.params))
            gen.instantiate(oo, reg.q, rng)
    return c, prog, top + 1


def bind(prog, values):
    return [o._replace(params=tuple(values[p.k] if isinstance(p, V) else p for p in o.params)) for o in prog]


def expected(prog, n, values=()):
    return ref.unitary(n, gen.oplist(bind(prog, values)))


def snapshot(c):
    return ([(type(o), tuple(o.qubits), tuple(map(id, getattr(o, "parameters", ())))) for o in c.circuit],
            [v.value for v in gen.params_of(c)], c.is_locked(), c.num_parameters,
            list(c.qubits), c.parametric)


def used(prog):
    return [p.k for o in prog for p in o.params if isinstance(p, V)]


def near(a, b, tol=1e-8):
    return ref.close(np.asarray(a), b, tol)


def sec_matrix(r, rng, i):
    n = rng.randint(1, 4) if rng.random() < 0.93 else rng.randint(5, 6)
    parametric = rng.random() < 0.7
    c, prog, nv = source(rng, n, parametric)
    parametric = nv > 0
    name = rng.choice([None, "Custom", "Z", "weird name"])
    snap = snapshot(c)
    cls = create_operation(c, name) if name and rng.random() < 0.5 else create_operation(c, name=name)
    r.check(cls.name == (name or "CustomOperation"), "name", f"{cls.name}")
    r.check(cls.num_qubits == n, "num-qubits", f"{cls.num_qubits}")
    r.check(issubclass(cls, ParametricOperation if parametric else Operation)
            and (parametric or not issubclass(cls, ParametricOperation)), "kind")
    ks = used(prog)
    r.event("out_of_order_variables", ks != sorted(ks))
    r.event("repeated_variables", len(ks) != len(set(ks)))
    r.event("unused_variables", bool(set(range(nv)) - set(ks)))
    if parametric:
        r.check(cls.num_parameters == nv == c.num_parameters, "num-parameters", f"{cls.num_parameters} {nv}")
        r.check(cls.matrix is None, "class-matrix-of-parametric")
        for k in range(0, 8):
            if k != nv:
                r.raises(ValueError, lambda: cls([0.5] * k), "wrong-number-of-parameters")
        insts = []
        for _ in range(rng.randint(1, 3)):
            vals = [gen.param(rng) for _ in range(nv)]
            given = list(vals) if rng.random() < 0.5 else tuple(vals)
            if nv == 1 and rng.random() < 0.5:
                given = vals[0]
            insts.append((vals, cls(given)))
            r.event("parametric_instances")
        for _ in range(2):
            rng.shuffle(insts)
            for vals, op in insts:
                m = gen.anywhere(lambda: op.matrix)()
                r.check(near(m, expected(prog, n, vals)), "created-parametric-matrix",
                        f"{gen.describe(prog)} with {vals}")
                r.check(list(op.parameters) == list(vals), "parameters-changed")
                m[...] = np.nan
                r.event("matrices")
        if rng.random() < 0.5:  # parameters changed afterwards
            vals, op = rng.choice(insts)
            vals[:] = [gen.param(rng) for _ in range(nv)]
            for j, v in enumerate(vals):
                op.parameters[j] = v
            r.check(near(gen.anywhere(lambda: op.matrix)(), expected(prog, n, vals)), "matrix-after-parameter-change")
    else:
        e = expected(prog, n)
        for _ in range(2):
            m = cls.matrix
            r.check(near(m, e), "created-matrix", f"{gen.describe(prog)}")
            m[...] = np.nan
            op = cls()
            m = gen.anywhere(lambda: op.matrix)()
            r.check(near(m, e), "created-matrix-of-instance", f"{gen.describe(prog)}")
            m[...] = np.nan
            r.event("matrices", 2)
    r.check(snapshot(c) == snap, "source-changed", f"{snap} -> {snapshot(c)}")
    r.seen([n, gen.describe(prog), nv, i if any(o.name.startswith("custom") for o in prog) else 0], len(prog) > 1)


def sec_host(r, rng, i):
    """Created single-qubit operations inside another circuit."""
    made = []
    for _ in range(rng.randint(1, 3)):
        c, prog, nv = source(rng, 1, rng.random() < 0.6, rng.randint(1, 5))
        made.append((create_operation(c, rng.choice([None, "G", "H"])), prog, nv, c))
    if rng.random() < 0.5:  # one made of the others
        inner = gen.derived(Circuit, 0.1)(1)
        outer_prog = []
        with inner.context as reg:
            for cls, prog, nv, _ in made:
                vals = [gen.param(rng) for _ in range(nv)]
                if nv:
                    cls(vals, reg.q[0])
                else:
                    cls(reg.q[0])
                outer_prog += bind(prog, vals)
        made.append((create_operation(inner, "Nested"), outer_prog, 0, inner))
        r.event("nested")
    n = rng.randint(1, 4)
    host = gen.make_circuit(rng, n, 1)
    oplist, desc = [], []
    conds = False
    with host.context as reg:
        for _ in range(rng.randint(1, 6)):
            if rng.random() < 0.4:
                o = gen.gate(rng, n, NAMES)
                gen.instantiate(o, reg.q, rng)
                oplist += gen.oplist([o])
                desc += gen.describe([o])
            else:
                cls, prog, nv, _ = rng.choice(made)
                q = rng.randrange(n)
                vals = [gen.param(rng) for _ in range(nv)]
                arg = reg.q[q] if rng.random() < 0.5 else [reg.q[q]]
                op = cls(vals, arg) if nv else cls(arg)
                oplist.append((expected(prog, 1, vals), (q,)))
                desc.append(["created", gen.describe(prog), vals, q])
                if rng.random() < 0.4:
                    r.check(near(op.matrix, oplist[-1][0]), "created-matrix-in-context")
                if rng.random() < 0.3:
                    again = op([reg.q[0]])
                    oplist.append((oplist[-1][0], (0,)))
                    desc.append("again")
    e = ref.unitary(n, oplist)
    r.check(near(build_unitary(host), e), "unitary-of-host", f"{desc}")
    r.event("host_unitaries")
    simulate(host)
    r.check(near(host.state, e[:, 0]), "simulated-host", f"{desc}")
    simulate(host, mixed_state=True)
    r.check(near(host.density_matrix, np.outer(e[:, 0], e[:, 0].conj())), "simulated-host-mixed", f"{desc}")
    r.event("simulated")
    for cls, prog, nv, c in made:
        r.check([tuple(o.qubits) for o in c.circuit] == [(c.qubits[0],)] * len(c.circuit), "source-changed")
    r.seen(["host", n, desc], len(oplist) > 1)


def sec_again(r, rng, i):
    """Operations created from one circuit again and again, which changes in between."""
    n = rng.randint(1, 3)
    prog = [gen.gate(rng, n, NAMES) for _ in range(rng.randint(1, 5))]
    c = gen.build(rng, prog, n)
    log = [n, gen.describe(prog)]
    for _ in range(rng.randint(2, 4)):
        cls = create_operation(c, rng.choice([None, "Custom"]))
        e = expected(prog, n)
        r.check(near((cls if rng.random() < 0.5 else cls()).matrix, e), "created-again", f"{gen.describe(prog)}")
        if n == 1:
            host = gen.derived(Circuit, 0.1)(2)
            with host.context as reg:
                cls(reg.q[1])
            r.check(near(build_unitary(host), ref.unitary(2, [(e, (1,))])), "created-again-in-host")
        prog, what = gen.change(rng, c, prog, n, NAMES)
        n, _, grown = gen.grow(rng, c, n, most=4)
        r.event("grown", grown is not None)
        log.append([what, grown, gen.describe(prog)])
        r.event("created_again")
    r.seen(["again", log], len(prog) > 1)


def sec_bound(r, rng, i):
    """Created parametric operations hosted by a parametric circuit."""
    while True:
        c, prog, nv = source(rng, 1, True, rng.randint(1, 5))
        if nv:
            break
    cls = create_operation(c, "G")
    host = gen.derived(ParametricCircuit, 0.1)(2)
    order = [rng.randrange(3) for _ in range(nv)]
    with host.context as reg:
        cls([reg.p[k] for k in order], reg.q[1])
    op = host.circuit[0]
    r.check(all(isinstance(p, Variable) for p in op.parameters), "variables-kept")
    for inplace in (False, True):
        vals = [gen.param(rng) for _ in range(3)]
        per_op = [vals[k] for k in order]
        h2 = host.eval([per_op], inplace=inplace)
        m = h2.circuit[0].matrix
        r.check(near(m, expected(prog, 1, per_op)), "bound-created-operation", f"{gen.describe(prog)} {per_op}")
        u = ref.unitary(2, [(expected(prog, 1, per_op), (1,))])
        simulate(h2)
        r.check(near(h2.state, u[:, 0]), "bound-created-operation-simulated")
    r.event("bound_in_host")
    r.seen(["bound", gen.describe(prog), order])


SECTIONS = [
    ("matrix", sec_matrix, 700, 30000),
    ("host", sec_host, 400, 20000),
    ("again", sec_again, 200, 8000),
    ("bound", sec_bound, 150, 5000),
]
