"""C21: comparison of operations, removing, appending and reapplying them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C21"
SCALE = 4
BUDGET = {"quick": 240, "thorough": 600}
RULE = ("pools of operations of every kind (built-in gates, aliases, measurements, barriers, user-defined and created "
        "operations, sharing names) on overlapping qubits, compared pairwise and with foreign objects against descriptors, and "
        "histories of appending, removing and reapplying on circuits compared with a list model by identity after "
        "every step; distinct by history, non-trivial when an equal but different operation was involved")
ASSUMPTIONS = ["the kind of an operation is its class; conditions and measured bits take no part in the comparison"]
REQUIRED = ["pairs", "equal_pairs", "same_name_different_kind", "foreign_pairs", "removed_by_equal", "removed_first_of_several",
            "refused_removals", "refused_appends", "reapplied", "reapplied_elsewhere", "qubits_changed", "parametric_vs_not",
            "reapplied_partly"]
NEEDS_SIMULATOR = False

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import copy
import math
import warnings

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import (Barrier, ControlledOperation, Measurement, Operation, ParametricOperation,
                                        create_operation)
from dwave.gate.primitives import Bit, Qubit, Variable
import gen
import ref

FEW = ["X", "Y", "Hadamard", "RX", "RX", "RY", "Rotation", "CX", "CX", "CRX", "SWAP", "CSWAP", "CCX", "CZ", "Identity"]
PARAMS = [0.0, 0, 0.5, 0.5, 1, -0.5, 1e-12, math.nextafter(0.5, 1), 0.5000001, 1 + 1e-10, 1 + 2 * math.pi, 5e-324]


def made_class(rng, name):
    c = gen.derived(Circuit, 0.1)(rng.choice([1, 1, 2]))
    c.append(ops.X(c.qubits[0]) if rng.random() < 0.5 else ops.Y(c.qubits[0]))
    return create_operation(c, name)


def made_parametric(rng, name):
    c = gen.derived(ParametricCircuit, 0.1)(1)
    with c.context as (p, q, _):
        rng.choice([ops.RX, ops.RZ])(p[0], q[0])
    return create_operation(c, name)


def named(cls, name):
    sub = type(name, (cls,), {})
    return sub


def classes(rng):
    out = [getattr(ops, rng.choice(FEW)) for _ in range(3)]
    out += [made_class(rng, rng.choice([None, "Foo", "X"])) for _ in range(2)]
    if rng.random() < 0.5:
        out.append(made_parametric(rng, rng.choice([None, "Foo", "RX"])))
    if rng.random() < 0.3:
        out.append(named(rng.choice([ops.X, ops.RX, ops.CX]), rng.choice(["X", "RX", "CX", "Sub"])))
    if rng.random() < 0.4:
        out.append(Measurement)
    if rng.random() < 0.3:
        out.append(Barrier)
    return out


def params(rng, cls, variables):
    return [rng.choice(variables) if variables and rng.random() < 0.3 else rng.choice(PARAMS)
            for _ in range(cls._num_params)]


def make(rng, cls, qubits, variables=(), like=None):
    """Operation of the class; with ``like``, a description to repeat."""
    if like:
        par, qs = like
    else:
        par = params(rng, cls, list(variables)) if issubclass(cls, ParametricOperation) else None
        n = cls._num_qubits
        if n is None:
            try:
                n = cls.num_qubits
            except AttributeError:
                n = rng.randint(1, min(3, len(qubits)) if rng.random() < 0.6 else len(qubits))
        qs = None if rng.random() < 0.05 else rng.sample(list(qubits), n)
    pre = () if par is None else (list(par),)
    if qs is None:
        return cls(*pre)
    if issubclass(cls, ControlledOperation):
        nc = cls.num_control
        if rng.random() < 0.5:
            return cls(*pre, tuple(qs[:nc]), qs[nc:])
        return cls(*pre, qubits=tuple(qs))
    return cls(*pre, qs[0] if len(qs) == 1 and rng.random() < 0.5 else (list(qs) if rng.random() < 0.5 else tuple(qs)))


def desc(op):
    par = None
    if isinstance(op, ParametricOperation):
        par = list(op.parameters)
    return type(op), None if op.qubits is None else tuple(q.id for q in op.qubits), par


def par_eq(a, b):
    if isinstance(a, Variable) and isinstance(b, Variable):
        return a.name == b.name
    if isinstance(a, Variable):
        return a.value is not None and a.value == b
    if isinstance(b, Variable):
        return b.value is not None and b.value == a
    return a == b


def same(d, e):
    return (d[0] is e[0] and d[1] == e[1] and (d[2] is None) == (e[2] is None)
            and (d[2] is None or (len(d[2]) == len(e[2]) and all(map(par_eq, d[2], e[2])))))


FOREIGN = ["X", None, 0, 1.5, (), [], object(), Qubit("q"), Bit("b"), Variable("v"), ops.X, ops.RX, Circuit(1), b"X"]


class Dummy:
    """Looks like an operation but is none."""
    qubits = None
    parameters = [0.5]


Dummy.__name__ = "X"


def compare(r, a, b):
    expected = same(desc(a), desc(b))
    for x, y in ((a, b), (b, a)):
        got = gen.anywhere(lambda: x == y)()
        r.check(got is expected or (got in (True, False) and bool(got) is expected), "equality",
                f"({x!r}) == ({y!r}) gives {got}, expected {expected}")
        r.check(bool(x != y) is (not expected), "inequality", f"{x!r} {y!r}")
        r.event("pairs")
    if expected:
        r.event("equal_pairs")
    elif type(a).__name__ == type(b).__name__ and type(a) is not type(b):
        r.event("same_name_different_kind")
    if isinstance(a, ParametricOperation) != isinstance(b, ParametricOperation):
        r.event("parametric_vs_not")
    return expected


def sec_pairs(r, rng, i):
    qubits = [Qubit(rng.choice(["q", "0"])) for _ in range(rng.randint(3, 4))]
    variables = [Variable("a"), Variable("a"), Variable("b")]
    if rng.random() < 0.3:
        variables[rng.randrange(3)].set(rng.choice([0, 0.5]))
    pool = []
    cl = classes(rng)
    for _ in range(rng.randint(4, 9)):
        op = make(rng, rng.choice(cl), qubits, variables)
        pool.append(op)
        if rng.random() < 0.5:
            d = desc(op)
            pool.append(make(rng, type(op), qubits, like=(d[2], None if op.qubits is None else list(op.qubits))))
    for op in list(pool):
        x = rng.random()
        if x < 0.15:
            op.conditional(Bit("c"))
        elif x < 0.25 and isinstance(op, Measurement) and op.qubits:
            op | [Bit("m") for _ in op.qubits]
        elif x < 0.4 and op.qubits:
            qs = list(op.qubits)
            rng.shuffle(qs)
            op.qubits = qs
            r.check([q.id for q in op.qubits] == [q.id for q in qs], "qubits-set")
            if isinstance(op, ControlledOperation):
                r.check(tuple(op.control) + tuple(op.target) == tuple(qs), "control-target")
            r.event("qubits_changed")
        elif x < 0.5:
            pool.append(copy.copy(op))
        elif x < 0.6:
            pool.append(copy.deepcopy(op))
    n = 0
    for a in pool:
        for b in pool:
            n += compare(r, a, b) and a is not b
        for f in FOREIGN + [Dummy()]:
            r.check((a == f) is False and (f == a) is False and (a != f) is True and (f != a) is True, "foreign",
                    f"{a!r} == {f!r}")
            r.event("foreign_pairs", 2)
        r.check(pool.index(a) == next(k for k, b in enumerate(pool) if same(desc(a), desc(b))), "list-index")
    r.seen(["pairs"] + [[type(o).__name__, str(getattr(o, "parameters", "")), [qubits.index(q) for q in o.qubits or []]]
                        for o in pool], n > 0)


def sec_history(r, rng, i):
    par = rng.random() < 0.3
    n = rng.randint(3, 5) if rng.random() < 0.8 else rng.randint(6, 12)
    c = gen.make_circuit(rng, n, rng.choice([0, 2]), parametric=par)
    outside = [Qubit("x"), Qubit("0")]
    variables = []
    if par:
        with c.context as reg:
            variables = [reg.p[k] for k in range(3)]
        c.unlock()
    cl = classes(rng)
    model, log, nontrivial = [], [], False

    def agree(key):
        r.check(len(c.circuit) == len(model) and all(x is y for x, y in zip(c.circuit, model)), key,
                f"after {log[-3:]}: {c.circuit} instead of {model}")
    if rng.random() < 0.06:  # a long circuit
        ones = [make(rng, rng.choice(cl), c.qubits, variables) for _ in range(rng.randint(25, 90))]
        c.extend(ones)
        model += ones
        log.append(["long", [type(o).__name__ for o in ones]])
        agree("extend")
    for step in range(rng.randint(5, 20)):
        x = rng.random()
        if x < 0.4 or not model:
            bad = rng.random() < 0.2
            op = make(rng, rng.choice(cl), list(c.qubits) + outside if bad else c.qubits, variables)
            ok = all(any(q is p for p in c.qubits) for q in op.qubits or [])
            if rng.random() < 0.3:
                op2 = make(rng, rng.choice(cl), c.qubits, variables)
                log.append(["extend", type(op2).__name__, type(op).__name__, ok])
                if ok:
                    c.extend([op2, op])
                    model += [op2, op]
                else:
                    r.raises(ValueError, lambda: c.extend([op2, op]), "append-outside")
                    r.event("refused_appends")
                    if len(c.circuit) > len(model):  # what was accepted before the refused operation
                        model.append(op2)
            else:
                log.append(["append", type(op).__name__, ok])
                if ok:
                    gen.anywhere(c.append)(op)
                    model.append(op)
                else:
                    r.raises(ValueError, lambda: gen.anywhere(c.append)(op), "append-outside")
                    r.event("refused_appends")
            agree("append")
        elif x < 0.7:
            pick = rng.choice(model)
            d = desc(pick)
            y = rng.random()
            if y < 0.35:
                op = pick
            elif y < 0.75:
                op = make(rng, type(pick), c.qubits, like=(d[2], None if pick.qubits is None else list(pick.qubits)))
            elif y < 0.9:
                op = make(rng, rng.choice(cl), c.qubits, variables)
            else:
                op = rng.choice(FOREIGN + [Dummy()])
            where = [k for k, m in enumerate(model) if isinstance(op, Operation) and same(desc(m), desc(op))]
            log.append(["remove", type(op).__name__, where])
            if where:
                res = gen.anywhere(c.remove)(op)
                gone = model.pop(where[0])
                if gone is not op:
                    nontrivial = True
                    r.event("removed_by_equal")
                if len(where) > 1:
                    r.event("removed_first_of_several")
            else:
                r.raises(ValueError, lambda: gen.anywhere(c.remove)(op), "remove-missing", f"{op!r} from {model}")
                r.event("refused_removals")
            agree("remove")
        else:  # reapply
            op = rng.choice(model) if rng.random() < 0.7 else make(rng, rng.choice(cl), c.qubits, variables)
            if op.qubits is None:
                continue
            inside = rng.random() < 0.7
            new_q = rng.random() < 0.5
            qs = list(op.qubits)
            if new_q:
                qs = rng.sample(list(c.qubits), len(qs))
            old = desc(op)

            def call():
                if not new_q:
                    return op()
                if isinstance(op, ControlledOperation):
                    nc = type(op).num_control
                    ctl, tgt = qs[:nc], qs[nc:]
                    style = rng.randrange(5)
                    if style == 3 and set(map(id, ctl)).isdisjoint(map(id, op.target)):
                        qs[nc:] = op.target
                        r.event("reapplied_partly")
                        return op(control=ctl[0] if nc == 1 and rng.random() < 0.5 else tuple(ctl))
                    if style == 4 and set(map(id, tgt)).isdisjoint(map(id, op.control)):
                        qs[:nc] = op.control
                        r.event("reapplied_partly")
                        return op(target=tgt[0] if len(tgt) == 1 and rng.random() < 0.5 else tuple(tgt))
                    if style == 0:
                        return op(ctl[0] if nc == 1 else ctl, tgt[0] if len(tgt) == 1 else tgt)
                    return op(control=tuple(ctl), target=tgt)
                return op(qs[0] if len(qs) == 1 and rng.random() < 0.5 else tuple(qs))
            if inside:
                c.unlock()
                with c.context:
                    new = call()
                c.unlock()
                model.append(new)
            else:
                new = call()
            log.append(["reapply", type(op).__name__, inside, new_q])
            agree("reapply-appended")
            d = desc(new)
            par_free = not any(isinstance(p, Variable) for p in old[2] or [])
            r.check(type(new) is type(op) and new is not op, "reapply-kind", f"{new!r} from {op!r}")
            r.check(d[1] == tuple(q.id for q in qs), "reapply-qubits", f"{new!r} from {op!r}")
            if par_free or par:
                r.check(same((old[0], d[1], old[2]), d), "reapply-parameters", f"{new!r} from {op!r}")
            if isinstance(op, ControlledOperation):
                nc = type(op).num_control
                r.check(list(new.control) == qs[:nc] and list(new.target) == qs[nc:], "reapply-control",
                        f"{new.control} {new.target}")
            if not new_q:
                r.check(new == op and op == new, "reapply-equal")
            r.check(same(desc(op), old), "reapply-changed-original", f"{op!r}")
            r.event("reapplied_elsewhere" if new_q else "reapplied")
            # later changes to one do not reach the other
            if isinstance(new, ParametricOperation) and rng.random() < 0.3 and not inside:
                new.parameters[0] = 99.5
                r.check(same(desc(op), old), "reapply-shares-parameters", f"{op!r}")
        for m in model:
            r.check(all(any(q is p for p in c.qubits) for q in m.qubits or []), "foreign-qubit-in-circuit")
        r.event("steps")
    r.seen(log, nontrivial)


warnings.simplefilter("ignore")
SECTIONS = [
    ("pairs", sec_pairs, 1200, 30000),
    ("history", sec_history, 1500, 40000),
]
