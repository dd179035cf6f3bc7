"""C10: binding parameters."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C10"
RULE = ("parametric operations and circuits with random mixtures of numbers, set and unset variables (shared, "
        "repeated, zero-valued, of all number types), evaluated with and without parameters, in place or not, "
        "appended to circuits of both kinds and applied in contexts that end normally or by an exception, against a "
        "model of the binding; distinct by (operations, variables, way of binding), non-trivial with a variable")
ASSUMPTIONS = ["a value is any number; parameters are passed by the position in the operation, as documented",
               "an empty parameter sequence for an operation asks for the variables' own values"]
REQUIRED = ["evaluated_by_value", "evaluated_by_parameter", "zero_values", "in_place", "copies",
            "refused_with_exception", "appended_plain", "applied_circuits", "exception_exits", "simulated",
            "shared_lists", "rows_left_out", "given_as_array", "several_circuits_applied",
            "bound_between_changes", "same_operation_twice", "grown_contexts",
            "recorded_with_valued_variables", "in_frozen_contexts", "in_other_contexts"]
SCALE = 12
BUDGET = {"quick": 240, "thorough": 400}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

from fractions import Fraction

import contextlib
import math
import warnings

import numpy as np

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.circuit import CircuitError
from dwave.gate.operations.base import create_operation
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.simulator import simulate

PNAMES = [g for g in ref.GATES if ref.GATES[g][1]]


def value(rng, real=False):
    k = rng.randrange(11)
    if k == 9:  # which no float holds
        return rng.choice([2 ** 53 + 1, 2 ** 60 + 1, -3 ** 40, Fraction(1, 3), Fraction(10 ** 20 + 1, 10 ** 20)])
    if k == 10:  # close to each other, small, large
        return rng.choice([1e-300, -1e-12, 1e15, 1.0, math.nextafter(1, 2), np.float32(0.1), np.int8(-7), True])
    if k < 3:
        return rng.choice([0, 0.0, -0.0, np.float64(0), False])
    if k == 3:
        return np.float64(rng.uniform(-3, 3))
    if k == 4 and not real:
        return rng.choice([0j, 1j, complex(0.5, -2)])
    if k == 5:
        return Fraction(rng.randint(-9, 9), 7)
    if k == 6:
        return rng.randint(-3, 3)
    return rng.uniform(-7, 7)


def same(a, b):
    if isinstance(a, Variable) or isinstance(b, Variable):
        return a is b
    return a is b or bool(a == b)


def all_same(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def make_class(rng):
    name = rng.choice(PNAMES)
    return getattr(ops, name), ref.GATES[name][1], ref.GATES[name][0], name


def model(params, given):
    """Evaluated parameters, or None when that has to be refused."""
    out = []
    for k, p in enumerate(params):
        if not isinstance(p, Variable):
            out.append(p)
        elif given is not None and len(given):
            if k >= len(given):
                return None
            out.append(given[k])
        elif p.value is not None:
            out.append(p.value)
        else:
            return None
    return out


def sec_operation(r, rng, i):
    cls, npar, nq, name = make_class(rng)
    pool = [Variable(rng.choice(["a", "b", "c", "0"])) for _ in range(3)]
    for v in pool:
        if rng.random() < 0.6:
            v.set(value(rng))
    params = [rng.choice(pool) if rng.random() < 0.75 else value(rng) for _ in range(npar)]
    q = [gen.derived(Qubit, 0.1)(str(k)) for k in range(nq)] if rng.random() < 0.7 else None
    bit = Bit("0")
    op = cls(list(params), qubits=q) if q else cls(list(params))
    if rng.random() < 0.3:
        op.conditional(bit)
    cond = gen.cond_of(op)
    given = None
    if rng.random() < 0.5:
        given = [value(rng) for _ in range(npar)]
        if rng.random() < 0.3:
            given = tuple(given)
        elif rng.random() < 0.1 and all(not isinstance(g, (complex, Fraction)) for g in given):
            given = np.array([float(g) for g in given])
        elif rng.random() < 0.1:
            given = given[:rng.randrange(npar + 1)]
    inplace = rng.random() < 0.4
    vals = [v.value for v in pool]
    exp = model(params, given)
    r.seen([name, [repr(p) for p in params], vals.__repr__(), repr(given), inplace, bool(q)],
           any(isinstance(p, Variable) for p in params))
    kw = {} if not inplace and rng.random() < 0.5 else {"inplace": inplace}
    fn = (lambda: op.eval(**kw)) if given is None and rng.random() < 0.5 else (lambda: op.eval(given, **kw))
    if exp is None:
        with gen.ambient(rng, r):
            r.raises((ValueError, IndexError), fn, "unset-variable-evaluated", f"{params} {given}")
        r.check(all_same(op.parameters, params), "refused-evaluation-changed-operation", f"{op.parameters} {params}")
        return
    with gen.ambient(rng, r):
        res = fn()
    if inplace:
        r.check(res is op, "in-place-returns-other")
        r.event("in_place")
    else:
        r.check(res is not op, "copy-is-original")
        r.check(all_same(op.parameters, params), "original-changed", f"{op.parameters} {params}")
        r.check(res.parameters is not op.parameters, "shared-parameters")
        r.event("copies")
    r.check(all_same(res.parameters, exp), "evaluated", f"{res.parameters} instead of {exp}")
    r.check(not any(isinstance(p, Variable) for p in res.parameters), "variable-left")
    r.check(type(res) is cls and (res.qubits is None if q is None else list(res.qubits) == q), "qubits-lost")
    r.check(gen.cond_of(res) is cond or list(gen.cond_of(res) or ()) == list(cond or ()), "condition-lost")
    r.check([v.value for v in pool] == vals or all(same(a, b) for a, b in zip([v.value for v in pool], vals)
                                                   if a is not None and b is not None), "variables-changed")
    r.event("evaluated_by_parameter" if given is not None and len(given) else "evaluated_by_value")
    r.event("zero_values", any(not isinstance(p, Variable) and p == 0 for p in res.parameters))
    if hasattr(op, "control") and q:
        r.check(list(res.control) + list(res.target) == q, "qubits-lost")
    # the copy is its own: changing its parameters does not reach the original
    if not inplace:
        res.parameters[0] = 99
        r.check(all_same(op.parameters, params), "original-changed-through-copy")
        res = op.eval(given)
    # operations made from the same list, or by reapplying one, are bound on their own
    if q:
        given_list = list(params)
        x, y = cls(given_list, qubits=q), cls(given_list, qubits=q)
        z = x()
        for o in rng.sample([x, y, z], 2):
            if model(params, None) is not None or given is not None:
                others = [w for w in (x, y, z) if w is not o]
                seen = [list(w.parameters) for w in others]
                o.eval(given, inplace=True)
                r.check(all_same(o.parameters, exp), "evaluated", f"{o.parameters} instead of {exp}")
                r.check(all(all_same(w.parameters, e) for w, e in zip(others, seen)), "bound-through-other-operation")
        r.check(all_same(given_list, params), "list-of-caller-changed", f"{given_list} {params}")
        r.event("shared_lists")
    # evaluating again changes nothing
    again = res.eval([1.0] * npar)
    r.check(all_same(again.parameters, exp), "numbers-replaced")
    if not any(isinstance(p, complex) and p.imag for p in exp):
        m = res.matrix if not any(isinstance(p, complex) for p in exp) else None
        if m is not None:
            large = sum(abs(float(p)) for p in exp)
            if large < 1e6:
                r.check(ref.close(m, ref.gate_matrix(name, [float(p) for p in exp]), 1e-8), "matrix-of-evaluated")


def random_parametric(rng, n):
    """A parametric circuit of random operations, its model list of (class, params, qubit indices, cond)"""
    c = gen.derived(ParametricCircuit, 0.1)(n, 1)
    rows = []
    with c.context as reg:
        wide = rng.random() < 0.06
        nv = rng.randint(1, 30 if wide else 4)
        reg.p[nv - 1]
        for _ in range(rng.randint(8, 60) if wide else rng.randint(1, 7)):
            o = gen.gate(rng, n, PNAMES if rng.random() < 0.7 else None)
            ps = [reg.p[rng.randrange(nv)] if rng.random() < 0.7 else value(rng, real=True) for _ in o.params]
            op = gen.instantiate(o._replace(params=tuple(ps)), reg.q, rng)
            if rng.random() < 0.2:
                op.conditional(reg.c[0])
            rows.append((op, ps, o))
    return c, rows, nv


def sec_circuit(r, rng, i):
    n = rng.randint(1, 4)
    c, rows, nv = random_parametric(rng, n)
    reg = gen.params_of(c)
    mode = rng.randrange(3)
    vals = [None] * nv
    given = None
    inplace = rng.random() < 0.4
    if not inplace and nv and rows and rng.random() < 0.3:  # the same operations more than once
        c.unlock()
        for _ in range(rng.randint(1, 3)):
            rows.append(rng.choice(rows))
            c.append(rows[-1][0])
        r.event("same_operation_twice")
    if mode == 0:   # by the variables' own values
        for k in range(nv):
            if rng.random() < 0.85:
                vals[k] = value(rng, real=True)
                reg[k].set(vals[k])
    else:
        given = [[value(rng, real=True) for _ in ps] for _, ps, _ in rows]
        if rng.random() < 0.4:  # some operations by the variables' own values
            for k in range(nv):
                if rng.random() < 0.85:
                    vals[k] = value(rng, real=True)
                    reg[k].set(vals[k])
            for k in range(len(given)):
                if rng.random() < 0.3:
                    given[k] = rng.choice([None, [], ()])
                    r.event("rows_left_out", any(isinstance(p, Variable) for p in rows[k][1]))
        if rng.random() < 0.3:
            given = tuple(g and tuple(g) for g in given)
        elif given and all(g is not None and len(g) == len(given[0]) > 0 for g in given) and all(
                type(x) is float for g in given for x in g):
            given = np.array(given)
            r.event("given_as_array")
    exp = [model(ps, given[k] if given is not None else None) for k, (_, ps, _) in enumerate(rows)]
    before = list(c.circuit)
    desc = [n, gen.describe([o for *_, o in rows]), [[repr(p) for p in ps] for _, ps, _ in rows], repr(vals),
            repr(given), inplace]
    r.seen(desc, any(isinstance(p, Variable) for _, ps, _ in rows for p in ps))
    fn = (lambda: c.eval(given, inplace=inplace)) if given is not None or rng.random() < 0.5 else (lambda: c.eval(inplace=inplace))
    if any(e is None for e in exp):
        r.raises((ValueError, IndexError), fn, "unset-variable-evaluated")
        if not inplace:
            r.check(all(all_same(op.parameters, ps) for op, ps, _ in rows if ps), "original-changed")
        return
    with gen.ambient(rng, r, c=c):
        res = fn()
    r.check((res is c) == inplace, "in-place-identity")
    r.check(len(res.circuit) == len(rows), "operations-lost")
    qb = list(c.qubits)
    for k, (op, ps, o) in enumerate(rows):
        e = res.circuit[k]
        r.check(type(e) is type(op), "kind")
        if ps:
            r.check(all_same(e.parameters, exp[k]), "evaluated", f"{e.parameters} instead of {exp[k]}")
            r.event("zero_values", any(p == 0 for p in exp[k]))
        r.check([res.qubits.index(x) for x in e.qubits] == list(o.qubits), "qubits")
        r.check(bool(gen.cond_of(e)) == bool(gen.cond_of(op)), "condition-lost")
        if gen.cond_of(e):
            r.check(list(gen.cond_of(e)) == [res.bits[0]], "condition-lost")
        if not inplace:
            r.check(e is not op, "copy-shares-operation")
            if ps:
                r.check(all_same(op.parameters, ps), "original-changed", f"{op.parameters}")
        else:
            r.check(e is op, "in-place-identity")
    r.check(c.circuit == before if inplace else all(a is b for a, b in zip(c.circuit, before)), "original-changed")
    r.check(list(c.qubits) == qb, "original-changed")
    r.event("in_place" if inplace else "copies")
    r.event("evaluated_by_value" if given is None else "evaluated_by_parameter")
    # behaves like that circuit
    simulate(res)
    if any(abs(x) > 1e6 for ex in exp for x in ex):
        return
    e = gen.final_state([o._replace(params=tuple(float(x) for x in ex)) for (_, _, o), ex in zip(rows, exp)], n)
    r.check(ref.close(res.state, e, 1e-7), "simulated")
    if not inplace:
        r.check(c.state is None, "original-simulated")
    r.event("simulated")
    # binding again, with other values: the original still has its variables
    if not inplace and given is not None:
        given2 = [[value(rng, real=True) for _ in ps] for _, ps, _ in rows]
        res2 = c.eval(given2)
        for k, (op, ps, _) in enumerate(rows):
            if ps:
                r.check(all_same(res2.circuit[k].parameters, model(ps, given2[k])), "second-binding")
                r.check(all_same(res.circuit[k].parameters, exp[k]), "first-binding-changed")


def sec_again(r, rng, i):
    """Circuits bound again and again, in every way, between changes of their operations."""
    n = rng.randint(1, 3)
    circuits = [random_parametric(rng, n) for _ in range(rng.choice([1, 1, 2]))]
    log = []
    for _ in range(rng.randint(2, 6)):
        c, rows, nv = rng.choice(circuits)
        reg = list(gen.params_of(c))
        how = rng.randrange(3)
        if how == 0:   # the variables' own values
            vals = [value(rng, real=True) for _ in reg]
            for v, x in zip(reg, vals):
                v.set(x)
            exp = [[vals[reg.index(p)] if isinstance(p, Variable) else p for p in ps] for _, ps, _ in rows]
            with gen.ambient(rng, r, c=c):
                res = c.eval()
            c.reset_variables()
        elif how == 1:
            given = [[value(rng, real=True) for _ in ps] for _, ps, _ in rows]
            exp = [model(ps, g) for (_, ps, _), g in zip(rows, given)]
            with gen.ambient(rng, r, c=c):
                res = c.eval(given)
        else:
            vals = [value(rng, real=True) for _ in reg]
            exp = [[vals[reg.index(p)] if isinstance(p, Variable) else p for p in ps] for _, ps, _ in rows]
            res = gen.derived(Circuit, 0.1)(n, 1)
            with res.context as h:
                c(vals, list(h.q), list(h.c))
        r.check(len(res.circuit) == len(rows), "again:number-of-operations")
        for got, (op, ps, o), e in zip(res.circuit, rows, exp):
            r.check(type(got) is type(op) and got is not op, "again:kind")
            r.check([res.qubits.index(x) for x in got.qubits] == list(o.qubits), "again:qubits")
            r.check(bool(gen.cond_of(got)) == bool(gen.cond_of(op)), "again:condition")
            if ps:
                r.check(all_same(got.parameters, e), "again:bound", f"{got.parameters} instead of {e}")
                r.check(all_same(op.parameters, ps), "again:original-changed")
        r.event("bound_between_changes")
        log.append([how, len(rows), [[repr(p) for p in ps] for _, ps, _ in rows]])
        # and changed
        c.unlock()
        k = rng.randrange(len(rows))
        op, ps, o = rows[k]
        x = rng.random()
        if x < 0.4 and ps:
            j = rng.randrange(len(ps))
            ps[j] = rng.choice(reg) if rng.random() < 0.3 else value(rng, real=True)
            op.parameters[j] = ps[j]
        elif x < 0.55:
            qs = tuple(rng.sample(range(n), len(o.qubits)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                op.qubits = tuple(c.qubits[q] for q in qs)
            rows[k] = op, ps, o._replace(qubits=qs)
        elif x < 0.7:
            op.conditional(c.bits[0] if rng.random() < 0.5 else ())
        elif x < 0.85 and len(rows) > 1:
            first = c.circuit.index(op)
            c.remove(op)
            rows.pop(first)
        else:
            o = gen.gate(rng, n, PNAMES if rng.random() < 0.7 else None)
            ps = [rng.choice(reg) if rng.random() < 0.7 else value(rng, real=True) for _ in o.params]
            op = gen.instantiate(o._replace(params=tuple(ps)), c.qubits, rng)
            c.append(op)
            rows.append((op, ps, o))
    r.seen(["again", n, log])


def sec_append(r, rng, i):
    """Appending to circuits with and without parameters."""
    cls, npar, nq, name = make_class(rng)
    n = max(nq, rng.randint(1, 3))
    kind = rng.randrange(3)
    c = gen.derived(Circuit, 0.1)(n) if kind == 0 else gen.derived(ParametricCircuit, 0.1)(n)
    other = [Variable("x"), Variable("y")]
    for v in other:
        if rng.random() < 0.75:
            v.set(value(rng))
    qs = rng.sample(range(n), nq)
    params = [rng.choice(other) if rng.random() < 0.8 else value(rng) for _ in range(npar)]
    if kind == 2:
        with c.context as reg:
            reg.p[0]
        c.unlock()
    exp = model(params, None)
    mode = rng.randrange(3)
    pos, keep = [0], list(params)
    r.seen(["append", name, kind, mode, [repr(p) for p in params]], any(isinstance(p, Variable) for p in params))

    def put():
        q = [c.qubits[k] for k in qs]
        if mode == 0:
            op = cls(params, qubits=q)
            c.append(op)
        elif mode == 1:
            op = cls(params, qubits=q)
            seq = [op]
            for _ in range(rng.randint(0, 3)):
                seq.insert(rng.randrange(len(seq) + 1), ops.X(c.qubits[0]))
            pos[0] = seq.index(op)
            c.extend(rng.choice([list, tuple, iter])(seq))
        else:
            with c.context:
                op = gen.instantiate(gen.Op(name, tuple(params), tuple(qs)), c.qubits, rng)
        return op
    if kind == 2:
        put()
        r.check(all_same(c.circuit[pos[0]].parameters, params), "parametric-circuit-evaluated", f"{c.circuit[pos[0]].parameters}")
        r.check([v.value for v in other] == [v.value for v in other], "variables-changed")
        r.event("kept_variables")
        return
    if exp is None:
        r.raises(ValueError, put, "unset-variable-appended", f"{params}")
        r.check(not any(isinstance(o, cls) and o.parameters for o in c.circuit), "refused-operation-appended")
        r.check(all_same(params, keep), "list-of-caller-changed", f"{params} {keep}")
        return
    put()
    r.check(sum(isinstance(o, cls) for o in c.circuit) == 1, "not-appended")
    r.check(all_same(params, keep), "list-of-caller-changed", f"{params} {keep}")
    got = c.circuit[pos[0]].parameters
    r.check(all_same(got, exp), "appended-parameters", f"{got} instead of {exp}")
    r.event("appended_plain")
    r.event("zero_values", any(p == 0 for p in exp))
    for v in other:
        v.set(123.0)
    r.check(all_same(c.circuit[pos[0]].parameters, exp), "appended-parameters-follow-variable")


KINDS = [ValueError, RuntimeError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, CircuitError, TypeError]


def sec_apply(r, rng, i):
    """Parametric circuits applied with parameters, contexts ending in any way."""
    n = rng.randint(1, 3)
    circuits = [random_parametric(rng, n) for _ in range(rng.choice([1, 1, 2, 3]))]
    plain = gen.derived(Circuit, 0.1)(n)
    with plain.context as h:
        ops.X(h.q[0])
    host = gen.derived(Circuit, 0.1)(n, 1) if rng.random() < 0.7 else gen.derived(ParametricCircuit, 0.1)(n, 1)
    calls = []
    stop = rng.random() < 0.4
    thrown = rng.choice(KINDS)("thrown")
    try:
        with host.context as h:
            if isinstance(host, ParametricCircuit) and rng.random() < 0.5:
                h.p[1]
            for _ in range(rng.randint(1, 4)):
                k = rng.randrange(len(circuits))
                c, rows, nv = circuits[k]
                vals = [value(rng, real=True) for _ in range(nv)]
                qm = rng.sample(range(n), n)
                x = rng.random()
                if x < 0.1:  # refused calls in between bind nothing that lasts
                    r.raises(ValueError, lambda: c([*vals, 1.0], list(h.q), [h.c[0]]), "wrong-number-of-parameters")
                elif x < 0.2:
                    r.raises(ValueError, lambda: c(vals, [*h.q, h.q[0]], [h.c[0]]), "wrong-number-of-qubits")
                c(rng.choice([list, tuple, np.array] if all(type(v) is float for v in vals) else [list, tuple])(vals),
                  [h.q[k] for k in qm], [h.c[0]])
                calls.append((k, vals, qm))
                r.event("applied_circuits")
            r.event("several_circuits_applied", len({k for k, *_ in calls}) > 1)
            if stop:
                raise thrown
    except BaseException as e:
        if e is not thrown:
            raise
        r.event("exception_exits")
    r.seen(["apply", [[gen.describe([o for *_, o in rows]), [[repr(p) for p in ps] for _, ps, _ in rows]] for _, rows, _ in circuits],
            repr(calls), stop])

    def compare(host, calls, key):
        j = 0
        for k, vals, qm in calls:
            c, rows, nv = circuits[k]
            reg = list(gen.params_of(c))
            for op, ps, o in rows:
                got = host.circuit[j]
                j += 1
                r.check(type(got) is type(op), "kind")
                if ps:
                    e = [vals[reg.index(p)] if isinstance(p, Variable) else p for p in ps]
                    r.check(all_same(got.parameters, e), key, f"{got.parameters} instead of {e}")
                    r.event("zero_values", any(p == 0 for p in e))
                r.check([host.qubits.index(x) for x in got.qubits] == [qm[x] for x in o.qubits], "qubits")
        r.check(j == len(host.circuit), "number-of-operations")
    compare(host, calls, "applied-parameters")
    for c, rows, nv in circuits:
        for v in gen.params_of(c):
            r.check(v.value is None, "variables-set-after-context", f"{v.value}")
        for op, ps, _ in rows:
            if ps:
                r.check(all_same(op.parameters, ps), "called-circuit-evaluated")
    # binding the called circuits still works, a second host too
    host2 = gen.derived(Circuit, 0.1)(n, 1)
    calls2 = [(k, [value(rng, real=True) for _ in range(nv)], list(range(n))) for k, (_, _, nv) in enumerate(circuits)]
    with host2.context as h:
        for k, vals, _ in calls2:
            circuits[k][0](vals, list(h.q), list(h.c))
    compare(host2, calls2, "second-host-parameters")
    compare(host, calls, "first-host-changed")


def sec_grow(r, rng, i):
    """Parametric circuits recorded over several contexts, with variables that get values and lose them meanwhile."""
    n = rng.randint(1, 3)
    c = gen.derived(ParametricCircuit, 0.1)(n, 1)
    values, rows, log = {}, [], []   # values of the variables; (operation, parameters)

    def some(reg, new):
        k = len(values)
        if new and (not k or rng.random() < 0.3):
            k += rng.randint(0, 2)
            reg[k]
            for j in range(len(values), k + 1):
                values[j] = None
        return reg[rng.randrange(len(values))] if values else value(rng, real=True)

    for _ in range(rng.randint(2, 5)):
        c.unlock()
        inside = rng.random() < 0.75
        ctx = c.context if inside else contextlib.nullcontext()
        with ctx as reg:
            p = reg.p if inside else gen.params_of(c)
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                x = rng.random()
                if x < 0.25 and values:
                    k = rng.randrange(len(values))
                    values[k] = rng.choice([None, value(rng, real=True), 0])
                    p[k].set(values[k]) if values[k] is not None else p[k].reset()
                elif x < 0.35 and values:  # all of them have one
                    for k in values:
                        values[k] = value(rng, real=True)
                        p[k].set(values[k])
                elif x < 0.45:
                    c.reset_variables()
                    values.update(dict.fromkeys(values))
                else:
                    o = gen.gate(rng, n, PNAMES)
                    ps = [some(p, inside) if rng.random() < 0.8 else value(rng, real=True) for _ in o.params]
                    op = gen.instantiate(o._replace(params=tuple(ps)), c.qubits, rng)
                    if not values and not inside:   # (not parametric yet)
                        ps = list(op.parameters)
                    if not inside:
                        c.append(op)
                    rows.append((op, ps))
                    r.event("recorded_with_valued_variables", any(isinstance(q, Variable) and q.value is not None for q in ps))
                log.append([inside, round(x, 2), len(rows), repr(values)])
        r.check(c.num_parameters == len(values), "grow:variables", f"{c.num_parameters} instead of {len(values)}")
        r.check(len(c.circuit) == len(rows) and all(a is b for a, (b, _) in zip(c.circuit, rows)), "grow:operations")
        for op, ps in rows:
            r.check(all_same(op.parameters, ps), "grow:parameters", f"{op.parameters} instead of {ps}")
        r.check([v.value for v in gen.params_of(c)] == list(values.values()), "grow:values", f"{values}")
        r.event("grown_contexts")
        if rows:
            exp = [model(ps, None) for _, ps in rows]
            if any(e is None for e in exp):
                r.raises(ValueError, c.eval, "grow:unset-evaluated")
            else:
                r.check(all(all_same(a.parameters, e) for a, e in zip(c.eval().circuit, exp)), "grow:evaluated")
            given = [[value(rng, real=True) for _ in ps] for _, ps in rows]
            got = c.eval(given)
            r.check(all(all_same(a.parameters, model(ps, g)) for a, (_, ps), g in zip(got.circuit, rows, given)), "grow:evaluated")
    # and applied
    vals = [value(rng, real=True) for _ in values]
    host = gen.derived(Circuit, 0.1)(n, 1)
    reg = list(gen.params_of(c))
    with host.context as h:
        c(vals, list(h.q), list(h.c))
    for got, (op, ps) in zip(host.circuit, rows):
        e = [vals[reg.index(q)] if isinstance(q, Variable) else q for q in ps]
        r.check(all_same(got.parameters, e), "grow:applied", f"{got.parameters} instead of {e}")
    r.seen(["grow", n, log], bool(values))


SECTIONS = [
    ("operation", sec_operation, 2000, 60000),
    ("circuit", sec_circuit, 900, 30000),
    ("again", sec_again, 500, 15000),
    ("append", sec_append, 600, 15000),
    ("grow", sec_grow, 500, 15000),
    ("apply", sec_apply, 500, 15000),
]
