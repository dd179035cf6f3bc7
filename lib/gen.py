"""Program generation: abstract programs (lists of ``Op``), and building them in the package.

An abstract program is independent of the package; oracles interpret it with ``ref``.
"""
import contextlib
import copy
import math
import random
import sys
import warnings
from collections import namedtuple

import numpy as np

import ref

# name: canonical gate name, alias, "custom1" (user-defined single-qubit), "custom_c" (user-defined
# controlled), "Measurement" or "Barrier"; cond / bits: bit indices
Op = namedtuple("Op", "name params qubits cond bits extra", defaults=((), (), (), (), None))

PARAMS = [0.0, math.pi, -math.pi, math.pi / 2, 2 * math.pi, 4 * math.pi, 1, -2, 1e-9, 100.25, 12345.678]
BASES = [0.0, 0.0, math.pi, -math.pi, 2 * math.pi, 4 * math.pi]


def param(rng):
    x = rng.random()
    if x < 0.3:
        return rng.choice(PARAMS)
    if x < 0.36:  # close to an angle at which the gate is special
        return rng.choice(BASES) + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -1)
    if x < 0.43:
        return rng.choice([0, 1, 2, 3, -1])
    return rng.uniform(-7, 7)


def gate(rng, n, names=None, alias=True):
    """A random gate on distinct qubits out of n."""
    names = names or list(ref.GATES)
    names = [g for g in names if ref.GATES[ref.ALIASES.get(g, g)][0] <= n]
    g = rng.choice(names)
    nq, npar, _ = ref.GATES[g]
    if alias and rng.random() < 0.2:
        al = [a for a, c in ref.ALIASES.items() if c == g]
        if al:
            g = rng.choice(al)
    return Op(g, tuple(param(rng) for _ in range(npar)), tuple(rng.sample(range(n), nq)))


def layout(rng, n, maxregs=4, empty=True):
    """Random split of n into register sizes."""
    if maxregs == 4 and rng.random() < 0.15:
        maxregs = n
    sizes = []
    left = n
    while left:
        s = rng.randint(1, left) if len(sizes) < maxregs - 1 else left
        if empty and rng.random() < 0.08:
            sizes.append(0)
        sizes.append(s)
        left -= s
    return sizes or [0]


def describe(ops):
    return [[o.name, list(o.params), list(o.qubits)] + ([list(o.cond)] if o.cond else [])
            + ([["->"] + list(o.bits)] if o.bits else []) for o in ops]


def skewed(a, b):
    """Generic unitary of two parameters, for user-defined parametric operations."""
    return ref.rx(a) @ ref.rz(b + 0.3) @ ref.ry(1.1 * a - b)


def op_matrix(o):
    if o.name == "custom1":
        return o.extra
    if o.name == "custom_c":
        nc, m = o.extra
        return ref.controlled(m, nc)
    if o.name == "custom_p":
        return skewed(*o.params)
    if o.name == "custom_pc":
        nc, target = o.extra
        return ref.controlled(skewed(*o.params) if target == "custom_p" else ref.gate_matrix(target, o.params), nc)
    return ref.gate_matrix(o.name, o.params)


def oplist(ops):
    return [(op_matrix(o), o.qubits) for o in ops if o.name not in ("Barrier", "Measurement")]


def final_state(ops, n):
    v = ref.zero_state(n)
    for m, q in oplist(ops):
        v = ref.apply(v, n, list(q), m)
    return v


# ------------------------------------------------------------------ building in the package

def item_label(rng):
    """Labels are not unique: qubits (bits) of one circuit may well share them."""
    return rng.choice(["a", "0", "1", str(rng.randrange(4)), str(rng.random())])


def make_circuit(rng, n, nbits=None, parametric=False, sizes=None, bsizes=None):
    """A circuit with n qubits (and nbits bits) spread over registers in some construction style."""
    c = new_circuit(rng, n, nbits, parametric, sizes, bsizes)
    if 0 < n <= 8 and rng.random() < 0.1:
        c = reused(rng, c)
    return c


def reused(rng, c):
    """A circuit with the registers of ``c`` that had the same qubits and bits in another order, was used, and then reset."""
    try:
        from dwave.gate.simulator.simulator import simulate
    except ModuleNotFoundError as e:  # checks that do not need the simulator are built without it
        if e.name != "dwave.gate.simulator.simulator":
            raise
        simulate = None
    d = type(c)()
    n = c.num_qubits
    for q in rng.sample(list(c.qubits), n):
        d.add_qubit(q, qreg_label=rng.choice([None, None, "a", "b"]))
    for b in rng.sample(list(c.bits), c.num_bits):
        d.add_bit(b, creg_label=rng.choice([None, None, "a", "b"]))
    d.extend([instantiate(o, list(d.qubits), rng) for o in program(rng, n, rng.randint(1, 5), custom=0)])
    touch(rng, d, n, len(d.circuit))
    if n <= 6 and rng.random() < 0.7 and simulate is not None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            simulate(d, mixed_state=n <= 4 and rng.random() < 0.3, little_endian=rng.random() < 0.3)
    if rng.random() < 0.5:
        touch(rng, d, n, len(d.circuit))
    d.reset(keep_registers=False)
    kinds = [(c.qregisters, d.add_qregister, lambda q, k: d.add_qubit(q, qreg_label=k)),
             (c.cregisters, d.add_cregister, lambda b, k: d.add_bit(b, creg_label=k))]
    rng.shuffle(kinds)
    for regs, add_register, add in kinds:
        for label, reg in regs.items():
            add_register(label=label)
            for x in reg:
                add(x, label)
    assert list(d.qubits) == list(c.qubits) and list(d.bits) == list(c.bits), (d, c)
    return d


def derived(cls, p=0.03):
    """Sometimes a class of the user's derived from it, which is the same in all respects."""
    if CASE.random() >= p:
        return cls
    if cls not in DERIVED:
        DERIVED[cls] = type(cls)(cls.__name__, (cls,), {"__doc__": "as its base"})
    return DERIVED[cls]


DERIVED = {}


def new_circuit(rng, n, nbits, parametric, sizes, bsizes):
    import dwave.gate as dg
    from dwave.gate.circuit import Circuit, ParametricCircuit
    from dwave.gate.primitives import Bit, Qubit
    cls = derived(ParametricCircuit if parametric else Circuit, 0.06)
    style = rng.randrange(4)
    nb = nbits or 0
    if style == 0 and sizes is None and bsizes is None:
        return cls(n, nbits) if nbits else cls(n)
    c = cls()
    sizes = sizes if sizes is not None else layout(rng, n)
    bsizes = bsizes if bsizes is not None else (layout(rng, nb) if nb else [])
    jobs = [("q", k, s) for k, s in enumerate(sizes)] + [("c", k, s) for k, s in enumerate(bsizes)]
    if rng.random() < 0.5:  # interleave registers of both kinds
        qs = [j for j in jobs if j[0] == "q"]; cs = [j for j in jobs if j[0] == "c"]
        jobs = []
        while qs or cs:
            src = qs if qs and (not cs or rng.random() < 0.5) else cs
            jobs.append(src.pop(0))
    for kind, k, s in jobs:
        label = f"{kind}r{k}" if rng.random() < 0.7 else None
        if kind == "q":
            if label is None:
                label = f"qreg{len(c.qregisters)}"
                c.add_qregister(s)
            elif rng.random() < 0.5:
                c.add_qregister(s, label)
            else:
                c.add_qregister(0, label)
                for _ in range(s):
                    c.add_qubit(derived(Qubit)(item_label(rng)) if rng.random() < 0.6 else None, label)
        else:
            if label is None:
                c.add_cregister(s)
            elif rng.random() < 0.5:
                c.add_cregister(s, label)
            else:
                c.add_cregister(0, label)
                for _ in range(s):
                    c.add_bit(derived(Bit)(item_label(rng)) if rng.random() < 0.6 else None, label)
    assert len(c.qubits) == n and len(c.bits) == nb, (sizes, bsizes, c)
    return c


def qubits_of(c):
    """The qubits in the order of the registers, which is the order that the package documents."""
    return [q for reg in c.qregisters.values() for q in reg]


def params_of(c):
    """The parameter register of a circuit, or an empty tuple."""
    return getattr(c, "_parameter_register", ())


def cond_of(op):
    """The bits that the operation is conditioned on, or None."""
    return getattr(op, "_cond", None)


_custom_cache = {}


def custom_class(o, rng=None):
    """User-defined operation class with the given matrix, as the documentation describes."""
    from dwave.gate.mixedproperty import mixedproperty
    from dwave.gate.operations.base import (ControlledOperation, Operation, ParametricControlledOperation,
                                            ParametricOperation)
    import dwave.gate.operations as ops
    if o.name == "custom_p":
        class CustomP(ParametricOperation):
            _num_qubits = 1
            _num_params = 2

            @mixedproperty(self_required=True)
            def matrix(cls, self):
                return skewed(*self.eval().parameters)
        return CustomP
    if o.name == "custom_pc":
        class CustomPC(ParametricControlledOperation):
            _num_control = o.extra[0]
            _num_target = 1
            _num_params = len(o.params)
            _target_operation = custom_class(Op("custom_p")) if o.extra[1] == "custom_p" else getattr(ops, o.extra[1])
        return CustomPC
    if o.name == "custom1":
        mat = o.extra

        class Custom1(Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                return mat.copy()
        return Custom1
    nc, mat = o.extra
    one = custom_class(Op("custom1", extra=mat))

    class CustomC(ControlledOperation):
        _num_control = nc
        _num_target = 1
        _target_operation = one
    return CustomC


def container(rng, items):
    """Some sequence of the given qubits or bits."""
    from dwave.gate.primitives import Bit
    from dwave.gate.registers import ClassicalRegister, QuantumRegister
    items = list(items)
    x = rng.random()
    if x < 0.1 and items and len({it.id for it in items}) == len(items):
        kind = ClassicalRegister if isinstance(items[0], Bit) else QuantumRegister
        return kind(items) if x < 0.05 else kind(items[::-1])[::-1]
    return tuple(items) if x < 0.55 else items


def bare(o, rng):
    """The operation without qubits, and a function that applies it to qubits by calling it."""
    import dwave.gate.operations as ops
    cls = custom_class(o) if o.name.startswith("custom") else getattr(ops, o.name)
    op = cls(o.params[0] if len(o.params) == 1 and rng.random() < 0.5 else list(o.params)) if o.params else cls()
    controlled = ref.ALIASES.get(o.name, o.name) in ref.ONE_CONTROL or o.name in ("custom_c", "custom_pc")

    def call(q):
        qs = [q[i] for i in o.qubits]
        if not controlled:
            arg = qs[0] if len(qs) == 1 and rng.random() < 0.5 else container(rng, qs)
            return op(arg) if rng.random() < 0.7 else op(qubits=arg)
        ctl = container(rng, qs[:-1]) if len(qs) > 2 or rng.random() < 0.5 else qs[0]
        tgt = qs[-1] if rng.random() < 0.5 else container(rng, qs[-1:])
        return op(ctl, tgt) if rng.random() < 0.7 else op(target=tgt, control=ctl)
    return op, call


def instantiate(o, q, rng, cls=None):
    """Creates the operation on the qubit objects q[...] in one of the ways the API offers."""
    import dwave.gate.operations as ops
    qs = [q[i] for i in o.qubits]
    if cls is None:
        cls = custom_class(o) if o.name.startswith("custom") else derived(getattr(ops, o.name))
    if o.name == "Measurement":
        return cls(container(rng, qs))
    if o.name == "Barrier":
        return cls(container(rng, qs))
    canon = ref.ALIASES.get(o.name, o.name)
    par = None
    if o.params:
        par = list(o.params) if rng.random() < 0.5 else tuple(o.params)
        if len(o.params) == 1 and rng.random() < 0.6:
            par = o.params[0]
    style = rng.randrange(3)
    if canon in ref.ONE_CONTROL or o.name in ("custom_c", "custom_pc"):
        nc = o.extra[0] if o.name.startswith("custom") else 1
        pre = () if par is None else (par,)
        ctl = container(rng, qs[:nc]) if (nc > 1 or rng.random() < 0.3) else qs[0]
        tgt = qs[nc] if rng.random() < 0.7 else container(rng, [qs[nc]])
        if style == 0:
            return cls(*pre, ctl, tgt)
        if style == 1:
            return cls(*pre, control=ctl, target=tgt)
        return cls(*pre, qubits=container(rng, qs))
    arg = qs[0] if len(qs) == 1 and rng.random() < 0.7 else container(rng, qs)
    if par is not None:
        if style == 0:
            return cls(par, arg)
        if style == 1:
            return cls(parameters=par, qubits=arg)
        return cls(par, qubits=arg)
    return cls(arg) if style else cls(qubits=arg)


def build(rng, ops, n, nbits=0, circuit=None, barriers=False):
    """Builds the abstract program as a circuit, in one of several construction styles and with some past."""
    c = build_plain(rng, ops, n, nbits, circuit)
    if rng.random() < 0.15:
        touch(rng, c, n, len(ops))
    if circuit is None and n <= 8 and rng.random() < 0.06:
        c = copy.deepcopy(c)
        if rng.random() < 0.3:
            touch(rng, c, n, len(ops))
    return c


@contextlib.contextmanager
def ambient(rng, r=None, p=0.3, n=2, c=None):
    """Sometimes a context is active meanwhile, frozen or not: the one of an unrelated circuit, of a circuit with the
    qubits of ``c`` in another order, or the one of ``c`` itself. Nothing is recorded there."""
    from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
    if rng.random() >= p or CircuitContext.active_context is not None:
        yield None
        return
    other = (Circuit if rng.random() < 0.7 else ParametricCircuit)
    kind = rng.choice(["own", "same", "other"]) if c is not None else "other"
    if kind == "own":
        locked = c.is_locked()
        c.unlock()
        other = c
    elif kind == "same":
        other = other()
        for q in rng.sample(list(c.qubits), len(c.qubits)):
            other.add_qubit(q)
        for q in rng.sample(list(c.bits), len(c.bits)):
            other.add_bit(q)
    else:
        other = other(n)
    frozen = rng.random() < 0.6
    try:
        with other.context:
            if frozen:
                with other.context.freeze:
                    yield None if kind == "own" else other
            else:
                yield None if kind == "own" else other
    finally:
        if kind == "own" and not locked:
            c.unlock()
    if r is not None:
        r.check(kind == "own" or not other.circuit, "recorded-elsewhere", f"{other.circuit}")
        r.event("in_frozen_contexts" if frozen else "in_other_contexts")
        r.event(f"context_of_{kind}_circuit")


CASE = random.Random(0)  # seeded anew for every case by the harness


def anywhere(fn, p=0.08):
    """The function, which is now and then called while some context is active."""
    from dwave.gate.circuit import Circuit
    owner = getattr(fn, "__self__", None)

    def call(*args, **kw):
        c = owner if owner is not None else args[0] if args else None
        with ambient(CASE, p=p, c=c if isinstance(c, Circuit) else None) as other:
            res = fn(*args, **kw)
        if other is not None and other.circuit:
            raise AssertionError(f"recorded in an unrelated circuit: {other.circuit}")
        return res
    return call


def simulator(simulate):
    """The same for the simulator, which creates the targets of parametric controlled operations and cannot in a context."""
    from dwave.gate.operations.base import ParametricControlledOperation
    outside = anywhere(simulate)

    def call(c, *args, **kw):
        plain = not any(isinstance(op, ParametricControlledOperation) for op in c.circuit)
        return (outside if plain else simulate)(c, *args, **kw)
    return call


def touch(rng, c, n, length):
    """Uses of a circuit that leave it as it is, and may not have any influence on later ones."""
    from dwave.gate.circuit import Circuit
    from dwave.gate.operations.base import ControlledOperation, create_operation
    from dwave.gate.tools.unitary import build_unitary
    if n > 8 or length > 80:  # operations made of other circuits would have large matrices
        return
    qir = "dwave.gate.qir.compiler" in sys.modules
    # (other operations with several qubits are not supported by build_unitary, which may build huge matrices for them)
    small = n <= 6 and length <= 30 and all(isinstance(op, ControlledOperation) or op.num_qubits == 1 for op in c.circuit)

    def host():
        h = Circuit(c.num_qubits, c.num_bits or None)
        with h.context as reg:
            c(reg.q, reg.c if c.num_bits else None)

    def elsewhere():
        # the same operations in a circuit with the same qubits in another order
        d = Circuit()
        if rng.random() < 0.5:
            d.add_qubit()
        for q in rng.sample(list(c.qubits), n):
            d.add_qubit(q)
        for b in reversed(list(c.bits)):
            d.add_bit(b)
        d.extend(list(c.circuit))
        rng.choice([d.to_qasm, lambda: build_unitary(d) if small else None, d.to_qir if qir else d.to_qasm,
                    lambda: [op.matrix for op in d.circuit] if small else None])()
    uses = [lambda: repr(c), lambda: c.to_qasm(gate_definitions=rng.random() < 0.5), host, elsewhere, lambda: copy.deepcopy(c),
            lambda: [(op.matrix if small else None, op.name, str(op), op.is_blocked) for op in c.circuit], lambda: [c.find_qubit(q) for q in c.qubits],
            lambda: (hash(tuple(c.qubits)), list(c.bits)), lambda: [op == p for op in c.circuit for p in c.circuit[:5]]]
    if small:
        uses += [lambda: build_unitary(c), lambda: create_operation(c).matrix]
    if qir:
        uses.append(lambda: c.to_qir(add_external=True))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for use in rng.sample(uses, rng.randint(1, 3)):
            try:
                with ambient(rng, p=0.1, c=c):
                    use()
            except Exception:  # not everything is possible with every circuit; decided elsewhere
                pass


def build_plain(rng, ops, n, nbits, circuit):
    c = circuit if circuit is not None else make_circuit(rng, n, nbits)
    mode = rng.randrange(4)
    if mode == 0:  # created outside, appended / extended
        made = []
        shared = {}
        for o in ops:
            key = repr(o)
            if o.name != "Measurement" and key in shared and rng.random() < 0.5:
                made.append(shared[key])  # the same operation object, several times
                continue
            made.append(attach(instantiate(o, qubits_of(c), rng), o, c.bits, rng))
            shared[key] = made[-1]
        c.unlock()
        if rng.random() < 0.5:
            c.extend(made)
        else:
            for m in made:
                c.append(m)
        return c
    if mode == 1 and len(ops) > 1:  # two context sessions
        cut = rng.randrange(1, len(ops))
        for part in (ops[:cut], ops[cut:]):
            c.unlock()
            with c.context as reg:
                for o in part:
                    attach(instantiate(o, reg.q, rng), o, reg.c, rng)
        return c
    if mode == 2:  # created without qubits where possible, then called
        c.unlock()
        made = [None if o.name in ("Measurement", "Barrier") else bare(o, rng) if rng.random() < 0.5 else
                (instantiate(o, qubits_of(c), rng), None) for o in ops]
        with c.context as reg:
            for o, m in zip(ops, made):
                if m is None:
                    attach(instantiate(o, reg.q, rng), o, reg.c, rng)
                else:
                    attach(m[0]() if m[1] is None else m[1](reg.q), o, reg.c, rng)
        return c
    c.unlock()
    with c.context as reg:
        for o in ops:
            attach(instantiate(o, reg.q, rng), o, reg.c, rng)
    return c


def grow(rng, c, n, nb=None, most=5):
    """Sometimes add a qubit (after all others) or a bit to a circuit; returns how many there are then."""
    from dwave.gate.primitives import Bit, Qubit
    x = rng.random()
    # names given by default must not be those of other registers of the other kind
    auto = not any(str(k).startswith("creg") for k in c.qregisters) and not any(str(k).startswith("qreg") for k in c.cregisters)
    if x < 0.12 and n < most:
        last = next(reversed(c.qregisters))
        rng.choice([lambda: c.add_qubit(None, last), lambda: c.add_qubit(Qubit("late"), last),
                    lambda: c.add_qregister(1, *([] if auto else [f"grownq{c.num_qubits}"])), lambda: c.add_qregister(1, f"grownq{c.num_qubits}")])()
        return (n + 1, nb, "qubit added")
    if nb and 0.12 < x < 0.2:
        last = next(reversed(c.cregisters))
        rng.choice([lambda: c.add_bit(None, last), lambda: c.add_bit(Bit("late"), last),
                    lambda: c.add_cregister(1, *([] if auto else [f"grownc{c.num_bits}"])), lambda: c.add_cregister(1, f"grownc{c.num_bits}")])()
        return (n, nb + 1, "bit added")
    return n, nb, None


def change(rng, c, prog, n, names, value=param, nbits=0):
    """Change a circuit in any of the ways there are; returns what it holds then.

    With ``nbits``, measurements, conditions and the order of the operations are changed as well.
    """
    prog = list(prog)
    gates = [k for k, o in enumerate(prog) if o.name != "Measurement"]
    x = rng.random()
    c.unlock()
    if nbits and prog and rng.random() < 0.4:
        k = rng.randrange(len(prog))
        op = c.circuit[k]
        alone = sum(o is op for o in c.circuit) == 1
        if x < 0.35:
            bs = tuple(rng.sample(range(nbits), rng.randint(0, min(nbits, 2))))
            if alone:
                op.conditional(container(rng, [c.bits[b] for b in bs]))
                prog[k] = prog[k]._replace(cond=bs)
            return prog, "condition"
        if x < 0.7:
            meas = [j for j, o in enumerate(prog) if o.name == "Measurement" and len(o.qubits) <= nbits]
            if meas:
                k = rng.choice(meas)
                bs = tuple(rng.sample(range(nbits), len(prog[k].qubits)))
                c.circuit[k] | container(rng, [c.bits[b] for b in bs])
                prog[k] = prog[k]._replace(bits=bs)
            return prog, "bits"
        first = next(j for j, o in enumerate(c.circuit) if o == op)
        moved = c.circuit[first]
        c.remove(op)
        c.append(moved)
        prog.append(prog.pop(first))
        return prog, "moved"
    if x < 0.3:    # another program of the same shape
        new = []
        for o in prog:
            if o.name in ("Measurement", "Barrier") or o.name.startswith("custom"):
                new.append(o)
            else:
                same = [k for k in names if ref.GATES[ref.ALIASES.get(k, k)][:2] == ref.GATES[ref.ALIASES.get(o.name, o.name)][:2]]
                g = gate(rng, n, same or [o.name])
                new.append(g._replace(params=tuple(value(rng) for _ in g.params), cond=o.cond))
        c.reset()
        build(rng, new, n, c.num_bits, circuit=c)
        return new, "rebuilt"
    if nbits:
        gates = list(range(len(prog)))
    if x < 0.5 and gates:
        k = rng.choice(gates)
        op = c.circuit[k]
        first = next(j for j, o in enumerate(c.circuit) if o == op)
        c.remove(op)
        prog.pop(first)
        return prog, "removed"
    par = [k for k in gates if prog[k].params]
    if x < 0.7 and par:
        k = rng.choice(par)
        j = rng.randrange(len(prog[k].params))
        v = value(rng)
        ps = list(prog[k].params)
        if sum(o is c.circuit[k] for o in c.circuit) == 1:
            c.circuit[k].parameters[j] = v
            ps[j] = v
        prog[k] = prog[k]._replace(params=tuple(ps))
        return prog, "parameter"
    if x < 0.85 and gates:
        k = rng.choice(gates)
        if sum(o is c.circuit[k] for o in c.circuit) == 1:
            qs = rng.sample(range(n), len(prog[k].qubits))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                c.circuit[k].qubits = tuple(c.qubits[j] for j in qs)
            prog[k] = prog[k]._replace(qubits=tuple(qs))
        return prog, "qubits"
    if nbits or len(prog) == len(gates):
        g = gate(rng, n, names)
        g = g._replace(params=tuple(value(rng) for _ in g.params))
        c.append(instantiate(g, c.qubits, rng))
        return prog + [g], "appended"
    return prog, "none"


def attach(op, o, bits, rng):
    if o.name == "Measurement" and o.bits:
        bs = [bits[b] for b in o.bits]
        if rng.random() < 0.15:  # more bits than needed: the first ones are used
            bs += [bits[rng.randrange(len(bits))] for _ in range(rng.randint(1, 3))]
        op | (bs[0] if len(bs) == 1 and rng.random() < 0.4 else container(rng, bs))
    if o.cond:
        bs = [bits[b] for b in o.cond]
        op.conditional(bs[0] if len(bs) == 1 and rng.random() < 0.7 else container(rng, bs))
    return op


def custom_ops(rng, n, parametric=True):
    """A random user-defined operation."""
    nprng = np.random.default_rng(rng.getrandbits(63))
    m = ref.random_unitary(nprng, 2)
    nc = rng.choice([0, 1, 2]) if n >= 3 else rng.randrange(n)
    if parametric and rng.random() < 0.4:
        if nc == 0:
            return Op("custom_p", (param(rng), param(rng)), (rng.randrange(n),))
        t = rng.choice(["RX", "RY", "RZ", "Rotation", "custom_p"])
        return Op("custom_pc", tuple(param(rng) for _ in range(2 if t == "custom_p" else ref.GATES[t][1])),
                  tuple(rng.sample(range(n), nc + 1)), extra=(nc, t))
    if nc and rng.random() < 0.2:
        m = ref.gate_matrix(rng.choice(["Y", "S", "T", "Hadamard", "Z"]))
    if nc == 0:
        return Op("custom1", (), (rng.randrange(n),), extra=m)
    return Op("custom_c", (), tuple(rng.sample(range(n), nc + 1)), extra=(nc, m))


def program(rng, n, length, names=None, custom=0.1, alias=True):
    ops = []
    for _ in range(length):
        if ops and rng.random() < 0.12:  # repetitions: of the last operation, or of any of them
            ops.append(ops[-1] if rng.random() < 0.5 else rng.choice(ops))
        elif custom and rng.random() < custom:
            ops.append(custom_ops(rng, n))
        else:
            ops.append(gate(rng, n, names, alias))
    return ops
