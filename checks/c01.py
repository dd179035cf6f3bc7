"""C01: state-vector simulation against an independent dense reference."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C01"
RULE = ("random programs (gate mix, placement, width, register layout, construction style, index "
        "convention), every gate on every placement of up to 5 qubits behind a random entangling "
        "prefix, wide circuits, user-defined gates; distinct by (program, layout, convention), "
        "non-trivial when the reference state differs from the initial state")
ASSUMPTIONS = ["double rounding: amplitudes compared with absolute tolerance 1e-10",
               "the dense reference in lib/ref.py is right (textbook matrices, tensor contraction)"]
REQUIRED = ["states_compared", "states_compared_little", "refused_with_exception", "placements",
            "prefix_states_compared", "amplitudes_compared",
            "huge_states", "long_programs", "simulated_again", "grown"]


SCALE = 8
BUDGET = {"quick": 240, "thorough": 560}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import numpy as np

import gen
import ref
import dwave.gate.operations as ops
import dwave.gate.operations.base as base
from dwave.gate import Circuit
from dwave.gate.simulator import simulate

simulate = gen.simulator(simulate)


def observe(r, c, n, little):
    simulate(c, little_endian=little)
    st = c.state
    r.event("states_compared_little" if little else "states_compared")
    r.event("amplitudes_compared", 2 ** n)
    return st


def compare(r, c, n, prog, little, key):
    exp = gen.final_state(prog, n)
    if little:
        exp = ref.reverse_bits(exp, n)
    got = observe(r, c, n, little)
    r.check(ref.close(got, exp, 1e-10), key, f"n={n} little={little} got {np.asarray(got)[:8]} expected {exp[:8]}")


def sec_random(r, rng, i):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7])
    prog = gen.program(rng, n, rng.choice([0, 1, 2, 3, 5, 8, 13, 25]))
    c = gen.build(rng, prog, n)
    little = rng.random() < 0.45
    r.seen([n, [len(q) for q in c.qregisters.values()], little, gen.describe(prog)],
           not ref.close(gen.final_state(prog, n), ref.zero_state(n)))
    compare(r, c, n, prog, little, "final-state")
    compare(r, c, n, prog, not little, "final-state")


def sec_prefix(r, rng, i):
    """The state after every prefix of the program."""
    n = rng.randint(1, 5)
    prog = gen.program(rng, n, rng.randint(3, 10))
    c = gen.make_circuit(rng, n)
    little = rng.random() < 0.5
    r.seen(["prefix", n, little, gen.describe(prog)])
    for k, o in enumerate(prog):
        c.append(gen.instantiate(o, c.qubits, rng))
        compare(r, c, n, prog[:k + 1], little, "prefix-state")
        r.event("prefix_states_compared")


GATELIST = None


def sec_placements(r, rng, i):
    """Every ordered placement of one gate, behind a prefix that leaves no symmetry."""
    names = list(ref.GATES)
    name = names[i % len(names)]
    n = 3 + (i // len(names)) % 3
    nq, npar, _ = ref.GATES[name]
    prefix = [gen.Op("Rotation", tuple(rng.uniform(0.3, 2.8) for _ in range(3)), (q,)) for q in range(n)]
    prefix += [gen.Op("CX", (), (q, (q + 1) % n)) for q in range(n)]
    prefix += [gen.Op("RY", (rng.uniform(0.3, 2.8),), (q,)) for q in range(n)]
    for qs in itertools.permutations(range(n), nq):
        prog = prefix + [gen.Op(name, tuple(rng.uniform(0.2, 3) for _ in range(npar)), qs)]
        c = gen.build(rng, prog, n)
        r.seen(["placement", n, name, list(qs), gen.describe(prog[-1:])])
        for little in (False, True):
            compare(r, c, n, prog, little, f"placement:{name}")
        r.event("placements")


def sec_custom(r, rng, i):
    """User-defined single-qubit gates and gates with one or two controls, generic matrices."""
    n = rng.randint(1, 5)
    prog = gen.program(rng, n, rng.randint(1, 4), custom=0)
    for _ in range(rng.randint(1, 4)):
        prog.insert(rng.randint(0, len(prog)), gen.custom_ops(rng, n))
    c = gen.build(rng, prog, n)
    r.seen(["custom", n, gen.describe(prog), [o.extra for o in prog if o.extra is not None]])
    for little in (False, True):
        compare(r, c, n, prog, little, "custom-gate")
    r.event("custom_programs")


def sec_custom_layout(r, rng, i):
    """Matrices that a user may hand over in other memory layouts and number types."""
    from dwave.gate.mixedproperty import mixedproperty
    n = rng.randint(1, 3)
    kind = ["fortran", "transpose", "float", "int", "slice", "complex64"][i % 6]
    nprng = np.random.default_rng(rng.getrandbits(63))
    u = ref.random_unitary(nprng, 2)
    if kind in ("float", "int"):
        u = ref.ry(rng.uniform(0, 6)).real if kind == "float" else np.array([[0, -1], [1, 0]])
        given = u.copy()
    elif kind == "fortran":
        given = np.asfortranarray(u)
    elif kind == "transpose":
        given = u.T.copy().T
    elif kind == "complex64":
        given = u.astype(np.complex64)
        u = given.astype(complex)
    else:
        big = np.zeros((4, 4), dtype=complex)
        big[::2, ::2] = u
        given = big[::2, ::2]

    class Given(base.Operation):
        _num_qubits = 1

        @mixedproperty
        def matrix(cls):
            return given

    class CGiven(base.ControlledOperation):
        _num_control = 1
        _num_target = 1
        _target_operation = Given

    q = rng.randrange(n)
    ctl = rng.choice([x for x in range(n) if x != q]) if n > 1 else None
    c = gen.derived(Circuit, 0.1)(n)
    with c.context as reg:
        for k in range(n):
            ops.RY(0.7 + k, reg.q[k])
        Given(reg.q[q])
        if ctl is not None:
            CGiven(reg.q[ctl], reg.q[q])
    r.seen(["layout", kind, n, q, ctl, u])
    v = ref.zero_state(n)
    for k in range(n):
        v = ref.apply(v, n, [k], ref.ry(0.7 + k))
    v = ref.apply(v, n, [q], u)
    if ctl is not None:
        v = ref.apply(v, n, [ctl, q], ref.controlled(u))
    simulate(c)
    r.event("states_compared")
    r.check(ref.close(c.state, v, 1e-6 if kind == "complex64" else 1e-9), f"matrix-layout:{kind}",
            f"got {c.state} expected {v}")


def sec_wide(r, rng, i):
    n = rng.choice([9, 10, 11, 12])
    prog = gen.program(rng, n, 30)
    c = gen.build(rng, prog, n)
    little = rng.random() < 0.5
    r.seen(["wide", n, little, gen.describe(prog)])
    compare(r, c, n, prog, little, "wide-state")


def sec_huge(r, rng, i):
    """Registers as large as users run them: every kind of kernel on both halves of the register."""
    n = 13 + i % (11 if r.tier == "thorough" else 7)
    prog = [gen.Op("RY", (rng.uniform(0.3, 2.8),), (q,)) for q in range(n)]
    mix = [gen.gate(rng, n, ["CX", "CY", "CRX", "CRotation", "CHadamard"]), gen.gate(rng, n, ["SWAP"]),
           gen.gate(rng, n, ["CSWAP"]), gen.gate(rng, n, ["CCX"]), gen.gate(rng, n), gen.gate(rng, n)]
    nprng = np.random.default_rng(rng.getrandbits(63))
    for nc in (0, 1, 2):
        qs = tuple(rng.sample(range(n), nc + 1))
        mix.append(gen.Op("custom_c", (), qs, extra=(nc, ref.random_unitary(nprng, 2))) if nc else
                   gen.Op("custom1", (), qs, extra=ref.random_unitary(nprng, 2)))
    rng.shuffle(mix)
    prog += mix
    c = gen.build(rng, prog, n)
    little = rng.random() < 0.5
    r.seen(["huge", n, little, gen.describe(prog)])
    compare(r, c, n, prog, little, "huge-state")
    r.event("huge_states")


def sec_long(r, rng, i):
    """Hundreds of operations on few qubits: nothing accumulates."""
    n = rng.randint(1, 5)
    length = rng.choice([200, 400, 700, 1100, 1700, 2600])
    prog = gen.program(rng, n, length, custom=0.03)
    c = gen.build(rng, prog, n)
    little = rng.random() < 0.5
    r.seen(["long", n, little, gen.describe(prog)[:20], i])
    compare(r, c, n, prog, little, "long-state")
    r.event("long_programs")
    r.event("long_operations", length)


def sec_bound(r, rng, i):
    """Parametric circuits whose parameters were bound."""
    from dwave.gate import ParametricCircuit
    n = rng.randint(1, 4)
    prog = gen.program(rng, n, rng.randint(1, 6), custom=0)
    c = gen.derived(ParametricCircuit, 0.1)(n)
    k = 0
    vals = []
    with c.context as reg:
        for o in prog:
            if o.params:
                o2 = o._replace(params=tuple(reg.p[k + j] for j in range(len(o.params))))
                vals.append(list(o.params))
                k += len(o.params)
            else:
                o2 = o
                vals.append([])
            gen.instantiate(o2, reg.q, rng)
    c2 = c.eval(vals, inplace=rng.random() < 0.5)
    r.seen(["bound", n, gen.describe(prog)], bool(k))
    for little in (False, True):
        compare(r, c2, n, prog, little, "bound-state")


def sec_shared(r, rng, i):
    """The same operation objects in several circuits whose qubits are in another order, and operations that change
    between the simulations of their circuit."""
    n = rng.randint(2, 5)
    prog = gen.program(rng, n, rng.randint(2, 8), custom=0.2)
    a = gen.build(rng, prog, n)
    little = rng.random() < 0.3
    compare(r, a, n, prog, little, "shared:first")
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if x < 0.6:  # another circuit on the same qubits
            order = rng.sample(range(n), n)
            extra = rng.randint(0, 2)
            b = gen.derived(Circuit, 0.1)(extra) if extra and rng.random() < 0.5 else gen.derived(Circuit, 0.1)()
            lead = b.num_qubits
            for k in order:
                b.add_qubit(a.qubits[k], rng.choice([None, "x", "y"])) if not lead else b.add_qubit(a.qubits[k])
            names = {id(q): k for k, q in enumerate(b.qubits)}
            where = [names[id(q)] for q in a.qubits]
            b.extend(a.circuit)
            moved = [o._replace(qubits=tuple(where[k] for k in o.qubits)) for o in prog]
            compare(r, b, b.num_qubits, moved, little, "shared:other-order")
            r.event("shared_orders")
        elif x < 0.85:  # the operation moves to other qubits
            k = rng.randrange(len(prog))
            op = a.circuit[k]
            new = rng.sample(range(n), len(prog[k].qubits))
            if isinstance(op, base.ControlledOperation):
                continue
            op.qubits = tuple(a.qubits[j] for j in new)
            prog = [o._replace(qubits=tuple(new)) if a.circuit[j] is op else o for j, o in enumerate(prog)]
            r.event("moved_operations")
        else:  # or its parameters change
            k = rng.randrange(len(prog))
            op = a.circuit[k]
            if not prog[k].params:
                continue
            par = [rng.uniform(-4, 4) for _ in prog[k].params]
            op.parameters[:] = par
            prog = [o._replace(params=tuple(par)) if a.circuit[j] is op else o for j, o in enumerate(prog)]
            r.event("changed_parameters")
        compare(r, a, n, prog, little, "shared:again")
    r.seen(["shared", n, gen.describe(prog)])


def sec_again(r, rng, i):
    """Simulated again and again between changes of the circuit."""
    n = rng.randint(1, 5)
    prog = gen.program(rng, n, rng.choice([1, 2, 3, 6, 12]))
    c = gen.build(rng, prog, n)
    log = [gen.describe(prog)]
    little = rng.random() < 0.4
    for _ in range(rng.randint(2, 6)):
        compare(r, c, n, prog, little, "again")
        if rng.random() < 0.2:
            little = not little
        prog, what = gen.change(rng, c, prog, n, list(ref.GATES))
        n, _, grown = gen.grow(rng, c, n, most=7)
        log.append([what, grown, little, gen.describe(prog)])
        r.event("simulated_again")
        r.event("grown", grown is not None)
    r.seen(log, len(prog) > 0)


def sec_refused(r, rng, i):
    """What cannot be executed must raise: the stored state must not silently be a wrong one."""
    n = rng.randint(4, 7)
    kind = ["multi", "controls3", "nparam", "dup", "rect", "mat4", "nocontrols", "user"][i % 8]
    c = gen.derived(Circuit, 0.1)(n)
    qs = rng.sample(range(n), n)
    pre = [gen.gate(rng, n) for _ in range(rng.randint(0, 3))]
    gen.build(rng, pre, n, circuit=c)
    q = [c.qubits[k] for k in qs]
    c.unlock()
    r.seen(["refused", kind, n, qs, gen.describe(pre)])
    exc = Exception
    if kind == "multi":
        k = rng.randint(2, n)
        src = gen.derived(Circuit, 0.1)(k)
        with src.context as reg:
            for _ in range(rng.randint(0, 4)):
                ops.Hadamard(reg.q[rng.randrange(k)])
                ops.CX(*rng.sample(list(reg.q), 2))
        many = base.create_operation(src, name="Many")
        c.append(many(q[:k]))
        exc = (ValueError, NotImplementedError)
    elif kind == "user":
        from dwave.gate.mixedproperty import mixedproperty
        k = rng.randint(2, n)
        m = np.eye(2 ** k, dtype=complex)
        if rng.random() < 0.7:
            m[-1, -1] = rng.choice([-1, 1j])

        class User(base.Operation):
            _num_qubits = k

            @mixedproperty
            def matrix(cls):
                return m.copy()
        c.append(User(q[:k]))
        exc = (ValueError, NotImplementedError)
    elif kind == "controls3":
        nprng = np.random.default_rng(rng.getrandbits(63))
        k = rng.randint(3, n - 1)
        cls = gen.custom_class(gen.Op("custom_c", extra=(k, ref.random_unitary(nprng, 2))))
        c.append(cls(q[:k], q[k]))
        exc = (ValueError, NotImplementedError)
    elif kind == "nparam":
        from dwave.gate import ParametricCircuit
        c = gen.derived(ParametricCircuit, 0.1)(n)
        with c.context as reg:
            ops.RX(reg.p[0], reg.q[qs[0]])
    elif kind == "dup":
        g = rng.choice(["CX", "CZ", "SWAP", "CSWAP", "CCX", "CRX"])
        nq, npar, _ = ref.GATES[g]
        idx = list(q[:nq])
        idx[rng.randrange(1, nq)] = idx[0]
        cls = getattr(ops, g)
        if g in ref.ONE_CONTROL:
            c.append(cls(0.3, idx[0], idx[1]) if npar else cls(idx[0], idx[1]))
        else:
            c.append(cls(idx))
        exc = ValueError
    elif kind in ("rect", "mat4"):
        from dwave.gate.mixedproperty import mixedproperty
        bad = np.ones((2, 3), dtype=complex) if kind == "rect" else np.eye(4, dtype=complex)[[1, 0, 2, 3]]

        class Bad(base.Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                return bad
        c.append(Bad(q[0]))
    else:
        class Opaque(base.Operation):
            _num_qubits = 1
        c.append(Opaque(q[0]))
    if rng.random() < 0.3:  # other operations follow
        c.unlock()
        gen.build(rng, [gen.gate(rng, n) for _ in range(rng.randint(1, 3))], n, circuit=c)
    kw = rng.choice([{}, {}, {"little_endian": True}, {"mixed_state": True}, {"mixed_state": True, "little_endian": True}])
    r.raises(exc, lambda: simulate(c, **kw), f"not-refused:{kind}:{sorted(kw)}")


SECTIONS = [
    ("placements", sec_placements, 66, 1500),
    ("random", sec_random, 900, 60000),
    ("prefix", sec_prefix, 150, 6000),
    ("custom", sec_custom, 240, 12000),
    ("custom_layout", sec_custom_layout, 60, 2000),
    ("bound", sec_bound, 90, 4000),
    ("shared", sec_shared, 400, 12000),
    ("again", sec_again, 250, 12000),
    ("long", sec_long, 6, 300),
    ("wide", sec_wide, 18, 1200),
    ("huge", sec_huge, 14, 220),
    ("refused", sec_refused, 160, 3200),
]
