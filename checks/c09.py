"""C09: applying circuits inside of circuits."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C09"
RULE = ("random circuits (every kind of operation, user-defined and created ones, measurements with and without "
        "bits, conditions) applied inside hosts at random qubits and bits, repeatedly, nested and between direct "
        "operations; the host's operations compared one by one with a reference splice, the called circuit with "
        "its snapshot, the simulated host with the reference machine; wrong calls refused without effect; distinct "
        "by (called programs, calls), non-trivial when a circuit with at least one operation was applied")
ASSUMPTIONS = ["bits are passed whenever the called circuit has conditions (without them there is nothing to "
               "condition on)", "amplitudes compared to 1e-7"]
REQUIRED = ["calls", "nested_calls", "spliced_operations", "mapped_measurements", "mapped_conditions",
            "set_bits_passed", "refused_with_exception", "simulated_hosts", "parametric_calls", "parametric_hosts",
            "called_with_set_bits", "called_after_simulation", "calls_on_shared_qubits", "wide_calls",
            "called_between_changes"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 500}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import warnings

import numpy as np

import gen
import machine
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.circuit import CircuitContext, CircuitError
from dwave.gate.operations.base import Operation, ParametricOperation, create_operation
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.simulator import simulate

simulate = gen.simulator(simulate)


class V:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"p{self.k}"


def measured(c):
    return [op for op in c.circuit if isinstance(op, ops.Measurement)]


def random_prog(rng, n, nbits, length, nv=0, measure=True):
    prog = []
    for _ in range(length):
        x = rng.random()
        cond = tuple(rng.sample(range(nbits), rng.randint(1, min(nbits, 3)))) if nbits and rng.random() < 0.35 else ()
        if x < 0.2 and measure:
            k = rng.randint(1, min(n, 3))
            bits = tuple(rng.sample(range(nbits), k)) if k <= nbits and rng.random() < 0.8 else ()
            prog.append(gen.Op("Measurement", (), tuple(rng.sample(range(n), k)), cond, bits))
        elif x < 0.25 and measure == "any":
            prog.append(gen.Op("Barrier", (), tuple(rng.sample(range(n), rng.randint(1, n)))))
        elif x < 0.4:
            prog.append(gen.custom_ops(rng, n)._replace(cond=cond))
        else:
            o = gen.gate(rng, n)._replace(cond=cond)
            if nv:
                o = o._replace(params=tuple(V(rng.randrange(nv)) if rng.random() < 0.6 else p for p in o.params))
            prog.append(o)
    return prog


class Called:
    """A circuit together with the concrete operations it is made of."""

    def __init__(self, rng, n, nbits, prog, nv=0):
        self.n, self.nbits, self.prog = n, nbits, prog
        self.c = gen.make_circuit(rng, n, nbits, parametric=bool(nv))
        self.nv = nv
        with self.c.context as reg:
            if nv:
                reg.p[nv - 1]
            for o in prog:
                oo = o._replace(params=tuple(reg.p[p.k] if isinstance(p, V) else p for p in o.params))
                gen.attach(gen.instantiate(oo, reg.q, rng), oo, reg.c, rng)

    def splice(self, qmap, bmap, values=()):
        return [o._replace(qubits=tuple(qmap[q] for q in o.qubits),
                           bits=tuple(bmap[b] for b in o.bits) if bmap is not None else (),
                           cond=tuple(bmap[b] for b in o.cond) if bmap is not None else (),
                           params=tuple(values[p.k] if isinstance(p, V) else p for p in o.params))
                for o in self.prog]


def snap(c):
    return ([(id(o), tuple(map(id, o.qubits or ())), tuple(map(repr, getattr(o, "parameters", ()))),
              tuple(map(id, getattr(o, "bits", None) or ())), tuple(map(id, gen.cond_of(o) or ()))) for o in c.circuit],
            [id(q) for q in c.qubits], [id(b) for b in c.bits], [b.value for b in c.bits], c.is_locked(),
            [v.value for v in gen.params_of(c)], list(c.qregisters), list(c.cregisters))


def same_params(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all((x is y) or (not isinstance(x, Variable) and not isinstance(y, Variable)
                                                 and complex(x) == complex(y)) for x, y in zip(a, b))


def compare(r, host, expected):
    """expected: (class, qubits, parameters or None, bits or None, cond)"""
    got = host.circuit
    r.check(len(got) == len(expected), "number-of-operations", f"{len(got)} instead of {len(expected)}: {got}")
    for k, (op, (cls, qs, params, bits, cond)) in enumerate(zip(got, expected)):
        where = f"operation {k} ({cls.__name__})"
        r.check(type(op) is cls, "kind", f"{where}: {type(op)}")
        r.check([id(q) for q in op.qubits] == [id(q) for q in qs], "qubits", f"{where}: {op.qubits} expected {qs}")
        if params is not None:
            r.check(same_params(op.parameters, params), "parameters", f"{where}: {op.parameters} expected {params}")
        if cls is ops.Measurement:
            r.check([id(b) for b in op.bits or ()] == [id(b) for b in bits or ()], "measured-bits",
                    f"{where}: {op.bits} expected {bits}")
        if cond is not None:
            r.check([id(b) for b in gen.cond_of(op) or ()] == [id(b) for b in cond], "conditions",
                    f"{where}: {gen.cond_of(op)} expected {cond}")
        if hasattr(op, "control") and getattr(op, "num_control", None):
            r.check([id(q) for q in (*op.control, *op.target)] == [id(q) for q in qs], "control-target", where)
    r.event("spliced_operations", len(expected))


def seq(rng, x):
    return rng.choice([list, tuple])(x)


def sec_calls(r, rng, i):
    """A host program made of direct operations and calls of one or more circuits, possibly nested."""
    warnings.simplefilter("ignore")
    n, nbits = rng.randint(1, 4), rng.randint(0, 4)
    wide = rng.random() < 0.06
    if wide:
        n, nbits = rng.randint(2, 8), rng.randint(1, 24)
        r.event("wide_calls")
    pool = []
    for _ in range(rng.randint(1, 3)):
        cn, cb = rng.randint(1, n), rng.randint(0, nbits)
        nv = rng.choice([0, 0, rng.randint(1, 3)])
        prog = random_prog(rng, cn, cb, rng.randint(8, 40) if wide else rng.randint(0, 6), nv, measure="any")
        pool.append(Called(rng, cn, cb, prog, nv))
    pool_desc = [[p.n, p.nbits, gen.describe(p.prog)] for p in pool]
    # nested: circuits whose content is itself made by calls
    for _ in range(rng.choice([0, 1, 1, 2])):
        inner = rng.choice(pool)
        mid_n, mid_b = rng.randint(inner.n, n), rng.randint(inner.nbits, nbits)
        mid = gen.make_circuit(rng, mid_n, mid_b)
        prog, vals = [], [gen.param(rng) for _ in range(inner.nv)]
        with mid.context as reg:
            qm = rng.sample(range(mid_n), inner.n)
            bm = rng.sample(range(mid_b), inner.nbits)
            args = ([reg.q[q] for q in qm], [reg.c[b] for b in bm])
            if inner.nv:
                inner.c(vals, *args)
            else:
                inner.c(*args)
            prog = inner.splice(qm, bm, vals)
            if rng.random() < 0.5:
                o = gen.gate(rng, mid_n)
                gen.instantiate(o, reg.q, rng)
                prog.append(o)
        m = Called.__new__(Called)
        m.n, m.nbits, m.prog, m.nv, m.c = mid_n, mid_b, prog, 0, mid
        pool.append(m)
        r.event("nested_calls")
    # values and records that the called circuits have got by themselves are of no importance to the host
    for p in pool:
        for b in p.c.bits:
            if rng.random() < 0.4:
                b.set(rng.choice([0, 0, 1]))
                r.event("called_with_set_bits")
        if not p.nv and rng.random() < 0.2 and not any(o.name == "Barrier" for o in p.prog):
            simulate(p.c)
            r.event("called_after_simulation")
    snaps = [snap(p.c) for p in pool]
    records = [[m.state for m in measured(p.c)] for p in pool]
    host = gen.make_circuit(rng, n, nbits)
    preset = [rng.choice([None, 0, 1]) for _ in range(nbits)]
    for b, v in zip(host.bits, preset):
        if v is not None:
            b.set(v)
    exp, flat, desc = [], [], []
    nonempty = 0
    with host.context as reg:
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.25:
                o = gen.gate(rng, n)
                op = gen.instantiate(o, reg.q, rng)
                exp.append((type(op), [reg.q[q] for q in o.qubits], list(o.params) or None, None, []))
                flat.append(o)
                desc.append(gen.describe([o]))
                continue
            k = rng.randrange(len(pool))
            p = pool[k]
            qm = rng.sample(range(n), p.n)
            bm = rng.sample(range(nbits), p.nbits)
            has_cond = any(o.cond for o in p.prog)
            qarg = seq(rng, [reg.q[q] for q in qm])
            if p.n == 1 and rng.random() < 0.5:
                qarg = qarg[0]
            barg = seq(rng, [reg.c[b] for b in bm])
            if p.nbits == 1 and rng.random() < 0.5:
                barg = barg[0]
            vals = [rng.choice([0, 0.0, gen.param(rng), gen.param(rng)]) for _ in range(p.nv)]
            pre = (seq(rng, vals),) if p.nv else ()
            use_bits = has_cond or rng.random() < 0.75
            before = len(host.circuit)
            if rng.random() < 0.15:
                with host.context.freeze:
                    p.c(*pre, qarg, barg)
                r.check(len(host.circuit) == before, "call-in-frozen-context-appended")
            if use_bits:
                if p.nbits or rng.random() < 0.5:
                    p.c(*pre, qarg, barg) if rng.random() < 0.6 else p.c(*pre, qubits=qarg, bits=barg)
                else:
                    p.c(*pre, qarg)
                if any(host.bits[b].value == 0 for b in bm):
                    r.event("set_bits_passed")
            else:
                p.c(*pre, qarg)
            part = p.splice(qm, bm if use_bits else None, vals)
            for o, orig in zip(part, p.c.circuit):
                exp.append((type(orig), [reg.q[q] for q in o.qubits], list(o.params) if o.params else None,
                            [reg.c[b] for b in o.bits], [reg.c[b] for b in o.cond]))
                r.event("mapped_measurements", bool(o.bits))
                r.event("mapped_conditions", bool(o.cond))
            flat += part
            nonempty += bool(part)
            desc.append(["call", k, qm, bm if use_bits else None, vals])
            r.event("calls")
            r.event("parametric_calls", bool(p.nv))
    compare(r, host, exp)
    for p, s in zip(pool, snaps):
        r.check(snap(p.c) == s, "called-circuit-changed", f"{s} -> {snap(p.c)}")
        for v in gen.params_of(p.c):
            r.check(v.value is None, "variables-still-set")
    r.check([b.value for b in host.bits] == preset, "bits-changed-by-call")
    r.seen([n, nbits, pool_desc, desc], nonempty > 0)
    # the behaviour of the host
    sim = [o for o in flat if o.name != "Barrier"]
    if len(sim) == len(flat):
        simulate(host, rng_seed=rng.getrandbits(30))
        try:
            machine.replay(sim, n, preset, [m.state for m in measured(host)], host.state, [b.value for b in host.bits])
        except machine.Inconsistent as e:
            r.check(False, "behaviour", str(e))
        r.check(True, "behaviour")
        r.event("simulated_hosts")
        for p, rec in zip(pool, records):
            r.check(all(m.state is s for m, s in zip(measured(p.c), rec)), "called-circuit-simulated")


def sec_again(r, rng, i):
    """Circuits applied again and again, in the same host or in others, between changes of them."""
    warnings.simplefilter("ignore")
    n, nbits = rng.randint(1, 4), rng.randint(1, 3)
    pool = []
    for _ in range(rng.choice([1, 1, 2])):
        nv = rng.choice([0, 0, rng.randint(1, 3)])
        pool.append(Called(rng, n, nbits, random_prog(rng, n, nbits, rng.randint(1, 5), nv, measure="any"), nv))
    host = gen.make_circuit(rng, n, nbits)
    exp, log = [], [[gen.describe(p.prog) for p in pool]]
    for _ in range(rng.randint(2, 5)):
        host.unlock()
        with host.context as reg:
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(pool))
                p = pool[k]
                qm, bm = rng.sample(range(n), n), rng.sample(range(nbits), nbits)
                vals = [gen.param(rng) for _ in range(p.nv)]
                p.c(*([vals] if p.nv else []), [reg.q[q] for q in qm], [reg.c[b] for b in bm])
                for o, orig in zip(p.splice(qm, bm, vals), p.c.circuit):
                    exp.append((type(orig), [reg.q[q] for q in o.qubits], list(o.params) if o.params else None,
                                [reg.c[b] for b in o.bits], [reg.c[b] for b in o.cond]))
                log.append([k, qm, bm, vals])
                r.event("calls")
        compare(r, host, exp)
        if rng.random() < 0.2:
            host, exp = gen.make_circuit(rng, n, nbits), []
        p = rng.choice(pool)
        p.prog, what = gen.change(rng, p.c, p.prog, n, list(ref.GATES), nbits=nbits)
        r.check(len(p.c.circuit) == len(p.prog), "called-circuit-changed")
        log.append([what, gen.describe(p.prog)])
        r.event("called_between_changes")
    r.seen(["again", n, nbits, log], True)


def sec_parametric_host(r, rng, i):
    """Circuits applied in parametric circuits, with numbers or the host's own variables."""
    n = rng.randint(1, 3)
    nv = rng.choice([0, 1, 2, 3])
    p = Called(rng, n, 1, random_prog(rng, n, 1, rng.randint(1, 5), nv), nv)
    s = snap(p.c)
    host = gen.derived(ParametricCircuit, 0.1)(n, 1)
    exp, desc = [], []
    with host.context as reg:
        own = rng.random() < 0.7
        if own:
            ops.RX(reg.p[0], reg.q[0])
            exp.append((ops.RX, [reg.q[0]], [reg.p[0]], None, []))
        for _ in range(rng.randint(1, 3)):
            vals = [reg.p[rng.randrange(3)] if own and rng.random() < 0.4 else rng.choice([0, gen.param(rng)])
                    for _ in range(nv)]
            qm = rng.sample(range(n), n)
            args = ([reg.q[q] for q in qm], [reg.c[0]])
            p.c(vals, *args) if nv else p.c(*args)
            for o, orig in zip(p.splice(qm, [0], vals), p.c.circuit):
                exp.append((type(orig), [reg.q[q] for q in o.qubits], list(o.params) if o.params else None,
                            [reg.c[b] for b in o.bits], [reg.c[b] for b in o.cond]))
            desc.append([qm, [repr(v) for v in vals]])
            r.event("calls")
            r.event("parametric_calls", bool(nv))
    compare(r, host, exp)
    r.check(snap(p.c) == s, "called-circuit-changed")
    r.event("parametric_hosts")
    r.seen(["phost", n, gen.describe(p.prog), desc])


def sec_created(r, rng, i):
    """Created operations and operations with their own classes survive being applied."""
    src = gen.derived(ParametricCircuit, 0.1)(1)
    with src.context as reg:
        ops.RX(reg.p[0], reg.q[0])
        ops.RY(reg.p[1], reg.q[0])
    G = create_operation(src, "G")
    fixed = gen.derived(Circuit, 0.1)(2)
    with fixed.context as reg:
        ops.CX(reg.q[0], reg.q[1])
    F = create_operation(fixed)
    a, b = gen.param(rng), gen.param(rng)
    inner = gen.derived(Circuit, 0.1)(3)
    with inner.context as reg:
        G([a, b], reg.q[1])
        F((reg.q[2], reg.q[0]))
        ops.CRX(a, qubits=[reg.q[0], reg.q[2]])
    for op in inner.circuit[2:]:
        op.qubits = (inner.qubits[2], inner.qubits[1])
    host = gen.derived(Circuit, 0.1)(4)
    qm = rng.sample(range(4), 3)
    with host.context as reg:
        inner([reg.q[k] for k in qm])
    q = [host.qubits[k] for k in qm]
    compare(r, host, [(G, [q[1]], [a, b], None, []), (F, [q[2], q[0]], None, None, []),
                      (ops.CRX, [q[2], q[1]], [a], None, [])])
    r.event("calls")
    r.seen(["created", a, b, qm])


def sec_shared(r, rng, i):
    """The host has some of the called circuit's own qubits and bits, in another order."""
    warnings.simplefilter("ignore")
    n, nbits, nv = rng.randint(1, 4), rng.randint(0, 3), rng.choice([0, 0, 2])
    p = Called(rng, n, nbits, random_prog(rng, n, nbits, rng.randint(1, 6), nv, measure="any"), nv)
    host = gen.derived(Circuit, 0.1)() if rng.random() < 0.8 else gen.derived(ParametricCircuit, 0.1)()
    qs = rng.sample(list(p.c.qubits), rng.choice([n, rng.randint(1, n)]))
    qs += [gen.derived(Qubit, 0.1)(str(k)) for k in range(n - len(qs) + rng.randint(0, 2))]
    bs = rng.sample(list(p.c.bits), rng.choice([nbits, rng.randint(0, nbits)]))
    bs += [gen.derived(Bit, 0.1)(str(k)) for k in range(nbits - len(bs) + rng.randint(0, 1))]
    rng.shuffle(qs)
    rng.shuffle(bs)
    for q in qs:
        host.add_qubit(q, qreg_label=rng.choice([None, "a", "b"]))
    for b in bs:
        host.add_bit(b, creg_label=rng.choice([None, "a", "b"]))
    s = snap(p.c)
    exp, desc = [], []
    with host.context as reg:
        for _ in range(rng.randint(1, 3)):
            qm = rng.sample(range(len(reg.q)), n)
            bm = rng.sample(range(len(reg.c)), nbits)
            vals = [gen.param(rng) for _ in range(nv)]
            args = ([vals] if nv else []) + [[reg.q[k] for k in qm], [reg.c[k] for k in bm]]
            if rng.random() < 0.2 and len(reg.q) == n and len(reg.c) == nbits:
                qm, bm = list(range(n)), list(range(nbits))
                args[-2:] = [reg.q, reg.c]
            p.c(*args)
            for o, orig in zip(p.splice(qm, bm, vals), p.c.circuit):
                exp.append((type(orig), [reg.q[q] for q in o.qubits], list(o.params) if o.params else None,
                            [reg.c[b] for b in o.bits], [reg.c[b] for b in o.cond]))
            desc.append([qm, bm, vals])
            r.event("calls")
    compare(r, host, exp)
    r.check(snap(p.c) == s, "called-circuit-changed", f"{s} -> {snap(p.c)}")
    r.event("calls_on_shared_qubits")
    r.seen(["shared", n, nbits, gen.describe(p.prog), desc])


def sec_wrong(r, rng, i):
    """Calls that have to be refused, without any effect."""
    n, nb = rng.randint(1, 4), rng.randint(1, 3)
    nv = rng.choice([0, 2])
    p = Called(rng, n, nb, random_prog(rng, n, nb, rng.randint(1, 5), nv), nv)
    vals = ([0.3] * nv,) if nv else ()
    s = snap(p.c)
    host = gen.derived(Circuit, 0.1)(6, 5)
    kind = rng.randrange(6)
    hs = snap(host)
    if kind == 0:  # outside of a context
        r.raises((CircuitError, TypeError, ValueError), lambda: p.c(*vals, list(host.qubits)[:n], list(host.bits)[:nb]),
                 "call-outside-context")
        r.check(snap(host) == hs and snap(p.c) == s, "refused-call-had-an-effect")
        # and it leaves nothing behind for later contexts
        var = [v for v in gen.params_of(p.c)]
        for v in var:
            v.set(1.5)
        with host.context as reg:
            ops.X(reg.q[0])
        r.check(all(v.value == 1.5 for v in var), "refused-call-reset-variables-later")
        r.check(len(host.circuit) == 1, "refused-call-had-an-effect")
    elif kind == 1:  # in its own context
        p.c.unlock()
        k = len(p.c.circuit)
        with p.c.context as reg:
            r.raises((TypeError, CircuitError, ValueError), lambda: p.c(*vals, list(reg.q), list(reg.c)),
                     "call-in-own-context")
            r.check(len(p.c.circuit) == k, "refused-call-appended")
            r.check(all(v.value is None for v in gen.params_of(p.c)), "refused-call-set-variables")
            ops.X(reg.q[0])
        r.check(len(p.c.circuit) == k + 1, "context-damaged")
    else:
        with host.context as reg:
            ops.X(reg.q[0])
            m = n + rng.choice([-1, 1, 2]) if kind in (2, 4) else n
            mb = nb + rng.choice([-1, 1, 2]) if kind in (3, 4) else nb
            if m == n and mb == nb:
                pars = ([0.3] * (nv + rng.choice([-1, 1])),) if nv else ("x",)
                fn = lambda: p.c(*pars, list(reg.q)[:m], list(reg.c)[:mb]) if nv else p.c([Qubit("a")] * (n + 1))
            else:
                fn = lambda: p.c(*vals, list(reg.q)[:m], list(reg.c)[:mb])
            r.raises((ValueError, TypeError, IndexError), fn, "wrong-number-accepted", f"{n}/{m} qubits, {nb}/{mb} bits")
            r.check([type(o) for o in host.circuit] == [ops.X], "refused-call-appended", f"{host.circuit}")
            ops.Y(reg.q[0])
        r.check([type(o) for o in host.circuit] == [ops.X, ops.Y], "context-damaged")
        r.check(all(v.value is None for v in gen.params_of(p.c)), "variables-still-set")
    if kind != 1:
        for v in gen.params_of(p.c):
            v.reset()
        r.check(snap(p.c) == s, "called-circuit-changed")
    r.seen(["wrong", kind, n, nb, nv, gen.describe(p.prog)])


SECTIONS = [
    ("calls", sec_calls, 1500, 50000),
    ("parametric_host", sec_parametric_host, 300, 8000),
    ("again", sec_again, 300, 8000),
    ("shared", sec_shared, 400, 8000),
    ("created", sec_created, 60, 1000),
    ("wrong", sec_wrong, 400, 8000),
]
