"""C11: contexts."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C11"
RULE = ("random trees of contexts, frozen sections, operations created in every way (valid and refused), refused "
        "entries, appends, locks, applied circuits, simulations and exceptions of every kind thrown through them, on "
        "several circuits at once; a state machine of what is active, frozen, locked and recorded is compared with "
        "the package after every step; distinct by event sequence, non-trivial when an operation was created")
ASSUMPTIONS = ["one thread", "contexts and frozen sections are left in the reverse order of entering (with statements)"]
REQUIRED = ["steps", "recorded_operations", "unrecorded_outside", "unrecorded_frozen", "refused_entries",
            "refused_operations", "refused_locked", "exception_exits", "nested_freezes", "left_open_sections", "parametric_contexts",
            "resets_in_own_context", "grown_in_own_context"]
SCALE = 10
BUDGET = {"quick": 240, "thorough": 450}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import warnings

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.circuit import CircuitContext, CircuitError, ParametricCircuitContext
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers.registers import RegisterError
from dwave.gate.simulator import simulate
from dwave.gate.tools.unitary import build_unitary


class Boom(Exception):
    pass


KINDS = [Boom, ValueError, RuntimeError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, AssertionError, CircuitError,
         RegisterError, TypeError, AttributeError, IndexError, KeyError, NotImplementedError, MemoryError, OSError, ZeroDivisionError,
         BaseException, Exception, UserWarning]


class Model:
    def __init__(self, circuits):
        self.circuits = circuits
        self.ops = [[] for _ in circuits]
        self.locked = [False] * len(circuits)
        self.active = None        # index of the circuit whose context is active
        self.frozen = False
        self.log = []
        self.renewed = set()      # circuits that were reset, and have a new context since


def observe(r, m):
    r.event("steps")
    act = CircuitContext.active_context
    r.check((act is None) == (m.active is None), "active-context", f"{act} expected {m.active}; {m.log[-6:]}")
    r.check(ParametricCircuitContext.active_context is act, "active-context-differs-by-class")
    if act is not None:
        r.check(act.circuit is m.circuits[m.active], "active-context-of-other-circuit", f"{m.log[-6:]}")
        r.check(act.frozen == m.frozen, "frozen-state", f"{act.frozen} expected {m.frozen}; {m.log[-6:]}")
    for k, c in enumerate(m.circuits):
        got = c.circuit
        r.check(len(got) == len(m.ops[k]) and all(a is b for a, b in zip(got, m.ops[k])), "recorded-operations",
                f"circuit {k}: {len(got)} recorded, {len(m.ops[k])} expected; {m.log[-6:]}")
        r.check(c.is_locked() == m.locked[k], "locked-state", f"circuit {k}: {c.is_locked()}; {m.log[-6:]}")


def new_op(rng, c, n):
    """Creates a valid operation on circuit c's qubits."""
    x = rng.random()
    if x < 0.1:
        return ops.Measurement([c.qubits[q] for q in rng.sample(range(n), rng.randint(1, n))])
    if x < 0.15:
        return ops.Barrier(list(c.qubits))
    if x < 0.25:
        return gen.instantiate(gen.custom_ops(rng, n), c.qubits, rng)
    if x < 0.35 and c._is_par:
        p = gen.params_of(c)
        v = p[0] if len(p) else None
        if v is not None:
            return ops.RX(v, c.qubits[rng.randrange(n)])
    return gen.instantiate(gen.gate(rng, n), c.qubits, rng)


def bad_op(rng, c, n):
    """A function that creates an operation that has to be refused inside c's context, appended or not."""
    k = rng.randrange(6)
    if k == 0:
        return lambda: ops.X()
    if k == 1:
        return lambda: ops.RX(0.1)
    if k == 2:
        return lambda: ops.X([c.qubits[0], Qubit("f")])
    if k == 3:
        return lambda: ops.Rotation([1.0], c.qubits[0])
    if k == 4:
        return lambda: ops.CX(c.qubits[0])
    return lambda: ops.CRX([1, 2], qubits=[c.qubits[0], Qubit("f")])


def foreign_op(rng, c):
    """Some operation on qubits of the circuit, with any one of them exchanged for a foreign one."""
    n = c.num_qubits
    if rng.random() < 0.3:
        o = gen.Op(rng.choice(["Measurement", "Barrier"]), (), tuple(rng.sample(range(n), rng.randint(1, n))))
    else:
        o = gen.gate(rng, n)
    qubits = list(c.qubits)
    qubits[rng.choice(o.qubits)] = Qubit(rng.choice(["foreign", "0", c.qubits[0].label]))
    return gen.instantiate(o, qubits, rng)


def refusals(rng, m, k):
    """Creation that is refused only because the operation would be appended to circuit k."""
    c = m.circuits[k]
    x = rng.randrange(5)
    if x == 0:
        return lambda: foreign_op(rng, c)
    if x == 4:
        return lambda: ops.X(Qubit("foreign"))
    if x == 1 and len(m.circuits) > 1:
        other = m.circuits[(k + 1) % len(m.circuits)]
        return lambda: ops.CX(c.qubits[0], other.qubits[0])
    if x == 2 and not c.parametric:
        return lambda: ops.RY(Variable("unset"), c.qubits[0])
    return lambda: ops.Measurement([c.qubits[0], Qubit("foreign")])


def step(r, rng, m, depth, budget):
    """One random step; with statements recurse."""
    budget[0] -= 1
    a = m.active
    x = rng.random()
    n_circ = len(m.circuits)
    k = rng.randrange(n_circ)
    if a is not None and rng.random() < 0.5:
        k = a
    c = m.circuits[k]
    n = c.num_qubits
    appends = a is not None and not m.frozen
    if x < 0.38:   # create an operation
        if a is None:
            new_op(rng, c, n)
            m.log.append(["create-outside", k])
            r.event("unrecorded_outside")
        elif m.frozen:
            new_op(rng, c, n)
            m.log.append(["create-frozen", k])
            r.event("unrecorded_frozen")
        elif m.locked[a]:
            r.raises(CircuitError, lambda: new_op(rng, m.circuits[a], m.circuits[a].num_qubits), "locked-circuit-accepts")
            m.log.append(["create-locked", a])
            r.event("refused_locked")
        else:
            op = new_op(rng, m.circuits[a], m.circuits[a].num_qubits)
            m.ops[a].append(op)
            m.log.append(["create", a, op.name])
            r.event("recorded_operations")
    elif x < 0.46:  # refused creation
        if a is not None:
            if appends and rng.random() < 0.6:
                fn = refusals(rng, m, a)
            else:
                fn = bad_op(rng, m.circuits[a], m.circuits[a].num_qubits)
            r.raises((TypeError, ValueError, CircuitError), fn, "bad-operation-accepted")
            m.log.append(["refused", a])
            r.event("refused_operations")
    elif x < 0.53:  # explicit append / extend
        before = a
        op = make_outside(rng, m, c, n)
        if op is None:
            return
        foreign = rng.random() < 0.2
        if foreign:
            op = ops.X() if a is None else op
            op = make_foreign(rng, m, c)
        fn = (lambda: c.append(op)) if rng.random() < 0.6 else (lambda: c.extend([op]))
        if m.locked[k]:
            r.raises(CircuitError, fn, "locked-circuit-accepts")
            r.event("refused_locked")
        elif foreign:
            r.raises(ValueError, fn, "foreign-qubit-accepted")
            r.event("refused_operations")
        else:
            fn()
            m.ops[k].append(op)
        m.log.append(["append", k, foreign])
    elif x < 0.60:  # lock / unlock
        if rng.random() < 0.35:
            c.lock()
            m.locked[k] = True
        else:
            c.unlock()
            m.locked[k] = False
        m.log.append(["lock", k, m.locked[k]])
    elif x < 0.63:
        if a is None or rng.random() < 0.4:  # also in the middle of the circuit's own context
            c.reset()
            m.ops[k] = []
            m.locked[k] = False
            m.renewed.add(k)
            r.event("resets_in_own_context", a == k)
            m.log.append(["reset", k])
        elif rng.random() < 0.5 and n < 6:
            c.add_qubit() if rng.random() < 0.5 else c.add_qregister(1)
            r.event("grown_in_own_context", a == k)
            m.log.append(["grow", k])
        elif m.ops[k]:
            gone = rng.choice(m.ops[k])
            first = m.ops[k].index(gone)
            c.remove(gone)
            del m.ops[k][first]
            m.log.append(["remove", k, first])
    elif x < 0.70:  # things that must not record anything
        y = rng.randrange(5)
        if y == 0 and m.ops[k]:
            op = rng.choice(m.ops[k])
            if not any(isinstance(p, Variable) for p in getattr(op, "parameters", ())):
                op.matrix
        elif y == 1:
            ops.Rotation.decomposition, ops.CX.matrix, ops.Z.name
        elif y == 2 and a is None:
            r_ = c if not c._is_par else None
            if r_ is not None and not any(isinstance(o, ops.Barrier) for o in m.ops[k]):
                simulate(c)
        elif y == 3 and m.ops[k]:
            str(rng.choice(m.ops[k])), repr(c)
        else:
            c.num_qubits, list(c.bits), c.context.circuit
            r.check(k in m.renewed or c.context.frozen == (m.frozen and a == k), "frozen-state-of-context", f"{m.log[-6:]}")
        m.log.append(["look", k, y])
    elif x < 0.76:  # refused entries
        if a is not None:
            c.unlock()
            m.locked[k] = False
            r.raises(RuntimeError, lambda: c.context.__enter__(), "second-context-entered", f"{m.log[-6:]}")
            r.event("refused_entries")
            m.log.append(["enter-second", k])
        elif m.locked[k]:
            r.raises(CircuitError, lambda: c.context.__enter__(), "locked-circuit-entered")
            r.event("refused_entries")
            m.log.append(["enter-locked", k])
        else:
            r.raises(CircuitError, lambda: c.context.freeze.__enter__(), "frozen-without-context")
            m.log.append(["freeze-outside"])
    elif x < 0.82 and a is not None:  # apply a circuit
        inner = m.circuits[k]
        if k == a or inner._is_par or any(o.__class__ is ops.Measurement for o in m.ops[k]):
            return
        host = m.circuits[a]
        if host.num_qubits < inner.num_qubits:
            return
        args = list(host.qubits)[:inner.num_qubits]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if appends and m.locked[a]:
                if m.ops[k]:
                    r.raises(CircuitError, lambda: inner(args), "locked-circuit-accepts")
            else:
                inner(args)
                if appends:
                    new = host.circuit[len(m.ops[a]):]
                    r.check([type(o) for o in new] == [type(o) for o in m.ops[k]], "applied-operations")
                    m.ops[a] += new
        m.log.append(["apply", k, a])
    elif depth < 5:
        if a is None:
            if m.locked[k]:
                return
            enter(r, rng, m, k, depth, budget)
        else:
            freeze(r, rng, m, depth, budget)


def make_outside(rng, m, c, n):
    """A new operation that is not recorded anywhere by being created."""
    if m.active is None:
        return new_op(rng, c, n)
    if m.frozen:
        return new_op(rng, c, n)
    with m.circuits[m.active].context.freeze:
        return new_op(rng, c, n)


def make_foreign(rng, m, c):
    if m.active is None or m.frozen:
        return foreign_op(rng, c)
    with CircuitContext.freeze:
        return foreign_op(rng, c)


def body(r, rng, m, depth, budget):
    """Random steps; may end by an exception of a random kind, which is returned."""
    for _ in range(rng.randint(0, 9)):
        if budget[0] <= 0:
            break
        step(r, rng, m, depth, budget)
        observe(r, m)
    if rng.random() < 0.3:
        raise rng.choice(KINDS)("thrown")


def is_thrown(e):
    return type(e) in KINDS and e.args == ("thrown",)


def enter(r, rng, m, k, depth, budget):
    c = m.circuits[k]
    m.log.append(["enter", k])
    entered = [False]
    r.event("parametric_contexts", c._is_par)
    try:
        with c.context as regs:
            entered[0] = True
            m.active, m.frozen = k, False
            r.check(list(regs.q) == list(c.qubits) and list(regs.c) == list(c.bits), "registers-of-context")
            observe(r, m)
            body(r, rng, m, depth + 1, budget)
    except BaseException as e:
        if not is_thrown(e):
            raise
        r.event("exception_exits")
        m.log.append(["thrown", type(e).__name__])
    r.check(entered[0], "not-entered")
    m.active, m.frozen = None, False
    m.locked[k] = True
    m.log.append(["exit", k])
    observe(r, m)


def freeze(r, rng, m, depth, budget):
    was = m.frozen
    r.event("nested_freezes", was)
    m.log.append(["freeze"])
    src = rng.choice([lambda: CircuitContext.freeze, lambda: m.circuits[m.active].context.freeze,
                      lambda: CircuitContext.active_context.freeze])
    try:
        with src():
            m.frozen = True
            observe(r, m)
            body(r, rng, m, depth + 1, budget)
    except BaseException as e:
        if not is_thrown(e):
            raise
        if rng.random() < 0.4:   # goes through the enclosing sections too
            m.frozen = was
            raise
        r.event("exception_exits")
        m.log.append(["thrown-in-frozen", type(e).__name__])
    m.frozen = was
    m.log.append(["unfreeze"])
    observe(r, m)


def sec_trees(r, rng, i):
    CircuitContext._active_context = None
    warnings.simplefilter("ignore")
    circuits = []
    for _ in range(rng.randint(1, 3)):
        par = rng.random() < 0.3
        c = gen.make_circuit(rng, rng.randint(1, 3), rng.choice([None, 2]), parametric=par)
        if par:
            gen.params_of(c)[0]
        c._is_par = par
        circuits.append(c)
    m = Model(circuits)
    budget = [rng.randint(5, 60)]
    observe(r, m)
    try:
        while budget[0] > 0:
            try:
                step(r, rng, m, 0, budget)
            except BaseException as e:
                if not is_thrown(e):
                    raise
            observe(r, m)
    finally:
        r.seen(m.log, any(x[0].startswith("create") for x in m.log))
        CircuitContext._active_context = None


def sec_order(r, rng, i):
    """Operations are recorded in creation order, whatever builds them."""
    n = rng.randint(1, 4)
    c = gen.make_circuit(rng, n)
    made = []
    with c.context as reg:
        for _ in range(rng.randint(1, 40)):
            if rng.random() < 0.2:
                with c.context.freeze:
                    gen.instantiate(gen.gate(rng, n), reg.q, rng)
                continue
            if rng.random() < 0.2 and made:
                made.append(rng.choice(made)())
                continue
            made.append(gen.instantiate(gen.gate(rng, n), reg.q, rng))
    r.check(len(c.circuit) == len(made) and all(a is b for a, b in zip(c.circuit, made)), "recorded-order")
    r.event("recorded_operations", len(made))
    r.check(c.is_locked() and CircuitContext.active_context is None, "left-context")
    outside = ops.X(c.qubits[0])
    r.check(len(c.circuit) == len(made), "created-outside-recorded")
    r.raises(CircuitError, lambda: c.append(outside), "locked-circuit-accepts")
    r.seen(["order", n, [o.name for o in made]])


def sec_reentry(r, rng, i):
    """The same circuit entered again and again, each time ending differently."""
    par = rng.random() < 0.5
    c = gen.derived(ParametricCircuit, 0.1)(2, 1) if par else gen.derived(Circuit, 0.1)(2, 1)
    made, log = [], []
    for k in range(rng.randint(1, 8)):
        how = rng.choice(["normal", "throw", "return", "generator"])
        log.append(how)
        ctx = c.context

        def use():
            with ctx as reg:
                if par and rng.random() < 0.5:
                    made.append(ops.RX(reg.p[len(made) % 3], reg.q[0]))
                made.append(ops.X(reg.q[0]))
                if how == "throw":
                    raise Boom()
                if how == "return":
                    return 1
                if how == "generator":
                    yield 1
                made.append(ops.Y(reg.q[1]))
        try:
            g = use()
            for _ in g:
                if how == "generator":
                    g.close()
                    break
        except Boom:
            pass
        r.check(CircuitContext.active_context is None, "still-active", how)
        r.check(c.is_locked(), "not-locked", how)
        r.check(len(c.circuit) == len(made) and all(a is b for a, b in zip(c.circuit, made)), "recorded-order")
        r.raises(CircuitError, lambda: c.context.__enter__(), "locked-circuit-entered")
        r.check(CircuitContext.active_context is None, "refused-entry-active")
        if par:
            r.check(gen.params_of(c).frozen, "parameters-not-frozen")
        c.unlock()
        r.check(not c.is_locked(), "still-locked")
    r.seen(["reentry", par, log])


def sec_open(r, rng, i):
    """Contexts left while sections entered by hand are still open."""
    CircuitContext._active_context = None
    par = rng.random() < 0.3
    c = gen.make_circuit(rng, 2, 1, parametric=par)
    other = gen.derived(Circuit, 0.1)(1)
    made, log = [], []
    for k in range(rng.randint(1, 4)):
        depth = rng.randint(0, 3)
        how = rng.choice(["normal", "throw"])
        sections = []
        log.append([depth, how])
        try:
            with c.context as reg:
                made.append(ops.X(reg.q[0]))
                for _ in range(depth):
                    f = rng.choice([c.context, CircuitContext]).freeze
                    f.__enter__()
                    sections.append(f)
                    ops.Y(reg.q[1])
                r.check(c.context.frozen is (depth > 0), "frozen-state")
                if how == "throw":
                    raise Boom()
        except Boom:
            pass
        r.check(CircuitContext.active_context is None, "still-active", f"{log}")
        r.check(c.is_locked(), "not-locked", f"{log}")
        r.check(len(c.circuit) == len(made) and all(a is b for a, b in zip(c.circuit, made)), "recorded-order")
        r.raises(CircuitError, lambda: c.context.__enter__(), "locked-circuit-entered")
        # another circuit is recorded as ever
        n = len(other.circuit)
        other.unlock()
        with other.context as reg:
            x = ops.Z(reg.q[0])
        r.check(len(other.circuit) == n + 1 and other.circuit[-1] is x, "recorded-order")
        for f in reversed(sections):
            f.__exit__(None, None, None)
        r.check(c.context.frozen is False, "frozen-state")
        r.check(CircuitContext.active_context is None and c.is_locked() and other.is_locked(), "not-locked")
        r.event("left_open_sections", depth)
        c.unlock()
    r.seen(["open", par, log], any(d for d, _ in log))


SECTIONS = [
    ("open", sec_open, 80, 2000),
    ("trees", sec_trees, 1500, 60000),
    ("order", sec_order, 150, 3000),
    ("reentry", sec_reentry, 100, 2000),
]
