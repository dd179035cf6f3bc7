"""C13: bookkeeping of qubits and bits."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C13"
RULE = ("random histories of adding qubits, bits and registers (labels of all kinds, default labels, shared labels, "
        "set bits, duplicates, wrong types), operations, simulations and resets on both kinds of circuits; every "
        "count, sequence and lookup compared with a model by identity after every step; distinct by history, "
        "non-trivial with at least two registers or a refused addition")
ASSUMPTIONS = ["registers are changed through the circuit, not by adding to a register object it returned"]
REQUIRED = ["steps", "refused_additions", "lookups", "resets", "resets_without_registers", "default_labels",
            "set_bits_added", "used_after_reset", "many_registers"]
SCALE = 12
BUDGET = {"quick": 240, "thorough": 400}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.simulator import simulate

LABELS = ["a", "b", "q", 0, 1, "", ("t", 1), "qreg1", "creg1", "qreg0", "creg2", frozenset(), 2.5, False]
NAMES = ["0", "1", "x", "", 0, ("l",), None]


class Side:
    """Registers of one kind: ordered list of [label, items]."""

    def __init__(self):
        self.regs = {}

    def items(self):
        return [x for v in self.regs.values() for x in v]


def compare(r, c, q, b, full):
    for what, side, seq, regs, num, find, get in (
            ("qubit", q, c.qubits, c.qregisters, c.num_qubits, c.find_qubit, c.get_qubit),
            ("bit", b, c.bits, c.cregisters, c.num_bits, c.find_bit, c.get_bit)):
        exp = side.items()
        got = list(seq)
        r.check(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), f"{what}s",
                f"{got} instead of {exp} ({list(side.regs.items())})")
        r.check(num == len(exp) == len(seq), f"num-{what}s", f"{num} instead of {len(exp)}")
        r.check(list(regs) == list(side.regs), f"{what}-registers", f"{list(regs)} instead of {list(side.regs)}")
        for label, items in side.regs.items():
            got = list(regs[label])
            r.check(len(got) == len(items) and all(x is y for x, y in zip(got, items)), f"{what}-register-content",
                    f"{label}: {got} instead of {items}")
        r.check(len({x.id for x in exp}) == len(exp), f"{what}-twice")
        if not full:
            continue
        for k, (label, items) in enumerate(side.regs.items()):
            for j, x in enumerate(items):
                r.check(seq.index(x) == exp.index(x) and x in seq, f"{what}-index")
                pos = find(x)
                r.check(tuple(pos) == (k, j), f"find-{what}", f"{pos} instead of {(k, j)}")
                kw = {"qreg_label": True} if what == "qubit" else {"creg_label": True}
                pos = find(x, **kw)
                r.check(pos[0] == label and pos[1] == j, f"find-{what}-label", f"{pos} instead of {(label, j)}")
                r.event("lookups", 2)
        for name in NAMES[:5]:
            hits = [x for x in exp if x.label == name]
            if hits:
                r.check(get(name) is hits[0], f"get-{what}", f"{name!r}")
                allh = get(name, return_all=True)
                r.check(len(allh) == len(hits) and all(x is y for x, y in zip(allh, hits)), f"get-{what}-all",
                        f"{allh} instead of {hits}")
            else:
                r.raises(ValueError, lambda: get(name), f"get-unknown-{what}")
                r.raises(ValueError, lambda: get(name, return_all=True), f"get-unknown-{what}")
            for label, items in side.regs.items():
                hits = [x for x in items if x.label == name]
                if hits:
                    r.check(get(name, label) is hits[0], f"get-{what}-in-register", f"{name!r} in {label!r}")
                    allh = get(name, label, return_all=True)
                    r.check(len(allh) == len(hits) and all(x is y for x, y in zip(allh, hits)), f"get-{what}-all-in-register")
                else:
                    r.raises(ValueError, lambda: get(name, label), f"get-unknown-{what}-in-register", f"{name!r} in {label!r}")
                r.event("lookups")
        r.raises(ValueError, lambda: find(Qubit("z") if what == "qubit" else Bit("z")), f"find-unknown-{what}")
        r.raises((KeyError, ValueError), lambda: get("0", "no such register"), f"get-in-unknown-{what}-register")


def fresh_label(side, kind):
    """A default label: any that is not used and was not chosen by the caller."""
    return None


def default_label(r, before, after, kind):
    new = [l for l in after if l not in before]
    r.check(len(after) == len(before) + 1 and len(new) == 1 and list(after)[-1] == new[0], "default-register",
            f"{list(before)} -> {list(after)}")
    r.check(isinstance(new[0], str) and new[0].startswith(kind), "default-label", f"{new[0]!r}")
    r.event("default_labels")
    return new[0]


def sec_history(r, rng, i):
    par = rng.random() < 0.25
    cls = gen.derived(ParametricCircuit if par else Circuit, 0.1)
    q, b = Side(), Side()
    x = rng.random()
    if x < 0.4:
        nq, nb = rng.randint(0, 3), rng.choice([None, 0, 2])
        c = cls(nq) if nb is None else cls(nq, nb)
        q.regs[list(c.qregisters)[0]] = list(c.qubits)
        if nb is not None:
            b.regs[list(c.cregisters)[0]] = list(c.bits)
        r.check(len(q.items()) == nq and len(b.items()) == (nb or 0), "created-size")
    else:
        c = cls()
    log, refused, used_reset = [], 0, False
    everything = []  # objects ever used
    many = rng.random() < 0.04  # registers, most of them of their own label
    if many:
        r.event("many_registers")
    for step in range(rng.randint(40, 90) if many else rng.randint(3, 25)):
        x = rng.random()
        if many and (0.62 <= x < 0.72 and len(q.items()) > 8 or 0.78 <= x < 0.87):
            x = 0.5
        kind = rng.choice(["q", "c"])
        side = q if kind == "q" else b
        regs = c.qregisters if kind == "q" else c.cregisters
        make = Qubit if kind == "q" else Bit
        add = c.add_qubit if kind == "q" else c.add_bit
        kwl = "qreg_label" if kind == "q" else "creg_label"
        label = rng.choice(LABELS) if rng.random() < 0.7 else None
        if many and rng.random() < 0.7:
            label = rng.choice([None, f"r{rng.randrange(60)}", f"{rng.randrange(60)}", rng.randrange(60)])
        if x < 0.42:  # a single (qu)bit
            obj = None
            y = rng.random()
            if y < 0.45:
                obj = gen.derived(make, 0.1)(rng.choice(NAMES))
                if kind == "c" and rng.random() < 0.5:
                    obj.set(rng.choice([0, 0, 1]))
                    r.event("set_bits_added")
            elif y < 0.6 and side.items():
                obj = rng.choice(side.items())
            elif y < 0.68:
                obj = rng.choice([Bit("w") if kind == "q" else Qubit("w"), "0", 0, 1.5, Variable("v"), object(), [], False])
            elif y < 0.75:
                pool = [o for o in everything if isinstance(o, make)]
                if pool:
                    obj = rng.choice(pool)
            before = dict(regs)
            args = [obj]
            fn = (lambda: add(obj, label)) if rng.random() < 0.5 else (lambda: add(obj, **{kwl: label}))
            if obj is not None and not isinstance(obj, make):
                r.raises(TypeError, fn, "wrong-type-added", f"{obj!r}")
                refused += 1
                log.append(["refused-type", kind, repr(label)])
            elif obj is not None and any(obj is o for o in side.items()):
                r.raises(ValueError, fn, "duplicate-added", f"{obj!r}")
                refused += 1
                log.append(["refused-duplicate", kind, repr(label)])
            else:
                with gen.ambient(rng, r, p=0.15, c=c):
                    fn()
                log.append(["add", kind, repr(label), obj is None])
                if label is None and not side.regs:
                    label = default_label(r, before, regs, kind)
                    side.regs[label] = []
                elif label is None:
                    label = list(side.regs)[0]
                items = side.regs.setdefault(label, [])
                got = list(regs[label])
                r.check(len(got) == len(items) + 1, "not-added", f"{got}")
                if obj is None:
                    obj = got[-1]
                    r.check(isinstance(obj, make), "created-type")
                    r.check(obj.label == str(len(side.items())), "created-label", f"{obj.label!r}")
                    r.check(all(obj is not o and obj.id != o.id for o in everything + side.items()), "created-not-new")
                items.append(obj)
                everything.append(obj)
        elif x < 0.62:  # a register
            num = rng.choice([0, 1, 2, 3]) if rng.random() < 0.985 else rng.choice([20, 130, 300])
            fn = c.add_qregister if kind == "q" else c.add_cregister
            before = dict(regs)
            if label is not None and label in side.regs:
                r.raises(ValueError, lambda: fn(num, label), "duplicate-register", f"{label!r}")
                refused += 1
                log.append(["refused-register", kind, repr(label)])
            else:
                start = len(side.items())
                if label is None:
                    with gen.ambient(rng, r, p=0.15, c=c):
                        fn(num) if rng.random() < 0.7 else fn(num, label=None)
                    label = default_label(r, before, regs, kind)
                else:
                    with gen.ambient(rng, r, p=0.15, c=c):
                        fn(num, label) if rng.random() < 0.7 else fn(label=label, **{"num_qubits" if kind == "q" else "num_bits": num})
                new = list(regs[label])
                r.check(len(new) == num and all(isinstance(o, make) for o in new), "register-size")
                r.check([o.label for o in new] == [str(k) for k in range(start, start + num)], "created-labels",
                        f"{[o.label for o in new]}")
                side.regs[label] = new
                everything += new
                log.append(["register", kind, repr(label), num])
        elif x < 0.72 and q.items():  # operations
            n = len(q.items())
            c.unlock()
            o = gen.gate(rng, n)
            op = gen.instantiate(o, q.items(), rng)
            k = len(c.circuit)
            c.append(op)
            r.check(len(c.circuit) == k + 1 and c.circuit[-1] is op, "append-after-registers")
            if n <= 6 and rng.random() < 0.5 and not par:
                for bit in b.items():
                    if rng.random() < 0.5:
                        bit.set(rng.randint(0, 1), force=True)
                simulate(c)
                r.check(c.state.shape == (2 ** n,), "simulated-size")
            log.append(["operation", o.name])
            used_reset and r.event("used_after_reset")
        elif x < 0.78:
            for bit in b.items():
                bit.set(rng.randint(0, 1), force=True)
            c.lock() if rng.random() < 0.5 else None
            if par and rng.random() < 0.5:
                c.unlock()
                with c.context as reg:
                    reg.p[rng.randrange(3)]
            log.append(["touch"])
        elif x < 0.88:
            keep = rng.random() < 0.5
            if rng.random() < 0.5:
                c.lock()
            c.reset() if keep and rng.random() < 0.5 else c.reset(keep_registers=keep)
            used_reset = True
            r.check(not c.circuit and not c.is_locked(), "reset-operations")
            r.check(c.state is None and c.density_matrix is None, "reset-state")
            r.event("resets")
            if keep:
                r.check(all(bit.value is None for bit in b.items()), "reset-bits")
            else:
                q, b = Side(), Side()
                r.check(not c.qregisters and not c.cregisters, "reset-registers")
                r.check(c.num_parameters == 0 and not c.parametric, "reset-parameters")
                r.event("resets_without_registers")
            log.append(["reset", keep])
        compare(r, c, q, b, full=rng.random() < 0.4)
        r.event("steps")
    compare(r, c, q, b, full=True)
    r.event("refused_additions", refused)
    r.seen(log, len(q.regs) + len(b.regs) > 1 or refused > 0)


def sec_like_new(r, rng, i):
    """After removing the registers, a circuit used for something works exactly like a new one."""
    par = rng.random() < 0.4
    cls = gen.derived(ParametricCircuit if par else Circuit, 0.1)
    old = gen.make_circuit(rng, rng.randint(1, 4), rng.choice([0, 2]), parametric=par)
    with old.context as reg:
        if par:
            ops.RX(reg.p[rng.randrange(3)], reg.q[0])
        ops.X(reg.q[0])
    if not par:
        simulate(old, mixed_state=rng.random() < 0.5)
        if rng.random() < 0.5:
            old.density_matrix
    old.qubits, old.bits
    old.reset(keep_registers=False)
    new = cls()
    n = rng.randint(1, 4)
    prog = gen.program(rng, n, rng.randint(1, 6))
    st = rng.getstate()
    outs = []
    for c in (old, new):
        rng.setstate(st)
        facts = [c.num_qubits, c.num_bits, len(c.circuit), c.is_locked(), c.parametric, c.num_parameters, c.state is None,
                 c.density_matrix is None]
        c.add_qregister(n) if rng.random() < 0.5 else [c.add_qubit() for _ in range(n)]
        c.add_cregister(2)
        facts += [list(c.qregisters), list(c.cregisters), [x.label for x in c.qubits], [x.label for x in c.bits]]
        with c.context as reg:
            facts.append([len(x) for x in reg])
            for o in prog:
                gen.instantiate(o, reg.q, rng)
        facts.append([o.name for o in c.circuit])
        simulate(c)
        facts.append(c.state.round(9).tolist())
        outs.append(facts)
    r.check(outs[0] == outs[1], "reset-circuit-differs-from-new", f"{outs}")
    e = gen.final_state(prog, n)
    r.check(ref.close(old.state, e), "reset-circuit-simulates")
    r.event("used_after_reset")
    r.seen(["like_new", par, n, gen.describe(prog)])


SECTIONS = [
    ("history", sec_history, 900, 30000),
    ("like_new", sec_like_new, 120, 3000),
]
