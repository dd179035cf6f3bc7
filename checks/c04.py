"""C04: conditional operations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C04"
RULE = ("random programs mixing measurements (bits shared and overwritten) with operations of every kind "
        "conditioned on one or more bits, preset bits; replayed by a reference machine that applies an "
        "operation exactly when no condition bit is 0; the full truth table of up to four bits for every "
        "gate; distinct by (program, preset bits), non-trivial when an operation was blocked")
ASSUMPTIONS = ["amplitudes compared with tolerance 1e-7"]
REQUIRED = ["blocked_steps", "executed_steps", "truth_table_rows", "blocked_measurements", "overwritten_bits",
            "changed_conditions", "grown"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 560}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import itertools
import warnings

import numpy as np

import gen
import machine
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.primitives import Bit
from dwave.gate.simulator import simulate

simulate = gen.simulator(simulate)


def measured(c):
    return [op for op in c.circuit if isinstance(op, ops.Measurement)]


def random_prog(rng, n, nbits, length):
    prog = []
    for _ in range(length):
        x = rng.random()
        cond = ()
        if rng.random() < 0.5:
            cond = tuple(rng.sample(range(nbits), rng.choice([1, 1, 2, 3]) if nbits >= 3 else rng.randint(1, nbits)))
            if nbits > 4 and rng.random() < 0.4:
                cond = tuple(rng.sample(range(nbits), rng.randint(4, nbits)))
        if x < 0.3:
            k = rng.randint(1, min(n, 2, nbits))
            bits = tuple(rng.sample(range(nbits), k)) if rng.random() < 0.9 else ()
            prog.append(gen.Op("Measurement", (), tuple(rng.sample(range(n), k)), cond if rng.random() < .5 else (), bits))
        elif x < 0.4:
            prog.append(gen.custom_ops(rng, n)._replace(cond=cond))
        else:
            prog.append(gen.gate(rng, n)._replace(cond=cond))
    return prog


def sec_programs(r, rng, i):
    n, nbits = rng.randint(1, 4), rng.randint(1, 4)
    wide = rng.random() < 0.08
    if wide:
        n, nbits = rng.randint(3, 7), rng.randint(5, 20)
    prog = [gen.Op("RY", (rng.uniform(0.5, 2.5),), (q,)) for q in range(n)] + random_prog(rng, n, nbits, rng.randint(12, 50) if wide else rng.randint(2, 12))
    vals = [rng.choice([None, None, 0, 1] if not wide else [None, 1, 1, 1, 0]) for _ in range(nbits)]
    c = gen.build(rng, prog, n, nbits)
    for round_ in range(rng.choice([1, 1, 2])):
        if round_:
            vals = [b.value for b in c.bits]
            if rng.random() < 0.5:
                for k, b in enumerate(c.bits):
                    if rng.random() < 0.5:
                        vals[k] = rng.choice([None, 0, 1])
                        b.reset()
                        if vals[k] is not None:
                            b.set(vals[k])
        else:
            for b, v in zip(c.bits, vals):
                if v is not None:
                    b.set(v)
        simulate(c, rng_seed=rng.getrandbits(32))
        recs = [m.state for m in measured(c)]
        try:
            _, w, blocked, executed = machine.replay(prog, n, vals, recs, c.state, [b.value for b in c.bits])
        except machine.Inconsistent as e:
            r.seen([n, vals, gen.describe(prog)])
            r.check(False, "conditional-execution", str(e), preset=vals)
        r.check(True, "conditional-execution")
        r.event("blocked_steps", blocked)
        r.event("executed_steps", executed)
        r.event("blocked_measurements", sum(1 for x in recs if x is None))
        writes = [b for o in prog if o.name == "Measurement" for b in o.bits]
        r.event("overwritten_bits", len(writes) - len(set(writes)))
        r.seen([n, vals, round_, gen.describe(prog)], blocked > 0)


def sec_foreign(r, rng, i):
    """Conditions on, and measurements into, bits that are in no register of the circuit."""
    n, nbits = rng.randint(1, 3), rng.randint(0, 3)
    other = gen.derived(Circuit, 0.1)(1, 2)
    bits_f = [gen.derived(Bit, 0.1)(str(k)) for k in range(rng.randint(1, 3))] + (list(other.bits) if rng.random() < 0.5 else [])
    total = nbits + len(bits_f)
    prog = [gen.Op("RY", (rng.uniform(0.5, 2.5),), (q,)) for q in range(n)] + random_prog(rng, n, total, rng.randint(2, 9))
    c = gen.make_circuit(rng, n, nbits)
    bits = [b for reg in c.cregisters.values() for b in reg] + bits_f
    rng.shuffle(bits)
    c.unlock()
    mode = rng.randrange(2)
    with c.context as reg:
        if mode:
            for o in prog:
                gen.attach(gen.instantiate(o, reg.q, rng), o, bits, rng)
    if not mode:
        c.unlock()
        c.extend([gen.attach(gen.instantiate(o, c.qubits, rng), o, bits, rng) for o in prog])
    vals = [rng.choice([None, 0, 0, 1]) for _ in range(total)]
    for b, v in zip(bits, vals):
        if v is not None:
            b.set(v)
    simulate(c, rng_seed=rng.getrandbits(32))
    r.seen(["foreign", n, nbits, len(bits_f), vals, gen.describe(prog)])
    try:
        _, w, blocked, executed = machine.replay(prog, n, vals, [m.state for m in measured(c)], c.state, [b.value for b in bits])
    except machine.Inconsistent as e:
        r.check(False, "foreign-bits", str(e), preset=vals)
    r.check(True, "foreign-bits")
    r.event("blocked_steps", blocked)
    r.event("executed_steps", executed)
    r.event("foreign_bit_programs")


def sec_again(r, rng, i):
    """Conditions, measurements and everything else changed between simulations."""
    warnings.simplefilter("ignore")
    n, nbits = rng.randint(1, 3), rng.randint(1, 4)
    prog = [gen.Op("RY", (rng.uniform(0.5, 2.5),), (q,)) for q in range(n)] + random_prog(rng, n, nbits, rng.randint(2, 7))
    c = gen.build(rng, prog, n, nbits)
    log = [gen.describe(prog)]
    for _ in range(rng.randint(2, 5)):
        for b in c.bits:
            if rng.random() < 0.5:
                b.reset()
                if rng.random() < 0.7:
                    b.set(rng.choice([0, 1]))
        vals = [b.value for b in c.bits]
        for op, o in zip(c.circuit, prog):
            r.check(op.is_blocked == any(vals[b] == 0 for b in o.cond), "is-blocked")
        simulate(c, rng_seed=rng.getrandbits(30))
        try:
            _, w, blocked, executed = machine.replay(prog, n, vals, [m.state for m in measured(c)], c.state,
                                                     [b.value for b in c.bits])
        except machine.Inconsistent as e:
            r.check(False, "conditional-execution-again", str(e), preset=vals)
        r.check(True, "conditional-execution-again")
        r.event("blocked_steps", blocked)
        r.event("executed_steps", executed)
        prog, what = gen.change(rng, c, prog, n, list(ref.GATES), nbits=nbits)
        n, nbits, grown = gen.grow(rng, c, n, nbits, 4)
        r.event("grown", grown is not None)
        log.append([vals, what, grown, gen.describe(prog)])
        r.event("changed_conditions", what == "condition")
    r.seen(["again", n, nbits, log], True)


def sec_table(r, rng, i):
    """The full truth table over condition bits (unset, 0, 1), one gate."""
    names = list(ref.GATES)
    name = names[i % len(names)]
    nq, npar, _ = ref.GATES[name]
    n = max(3, nq)
    k = 1 + (i // len(names)) % 3
    pre = [gen.Op("Rotation", tuple(rng.uniform(0.4, 2.5) for _ in range(3)), (q,)) for q in range(n)]
    o = gen.Op(name, tuple(rng.uniform(0.4, 2.5) for _ in range(npar)), tuple(rng.sample(range(n), nq)))
    order = rng.sample(range(k), k)
    o = o._replace(cond=tuple(order))
    c = gen.build(rng, pre + [o], n, k)
    psi0 = gen.final_state(pre, n)
    psi1 = gen.final_state(pre + [o], n)
    for vals in itertools.product((None, 0, 1), repeat=k):
        for b, v in zip(c.bits, vals):
            b.reset()
            if v is not None:
                b.set(v)
        blocked = 0 in vals
        r.check(c.circuit[-1].is_blocked == blocked, "is-blocked", f"{vals}")
        r.check(not c.circuit[0].is_blocked, "unconditioned-blocked")
        for kw in (dict(), dict(little_endian=True), dict(mixed_state=True)):
            simulate(c, **kw)
            exp = psi0 if blocked else psi1
            if kw.get("little_endian"):
                exp = ref.reverse_bits(exp, n)
            if kw.get("mixed_state"):
                r.check(ref.close(c.density_matrix, np.outer(exp, exp.conj())), f"table:{name}:mixed", f"{vals}")
            else:
                r.check(ref.close(c.state, exp), f"table:{name}", f"bits {vals}")
            r.check([b.value for b in c.bits] == list(vals), "bits-changed")
        r.event("truth_table_rows")
        r.event("blocked_steps" if blocked else "executed_steps")
        r.seen(["table", name, list(o.qubits), order, vals], blocked)


def sec_measure_table(r, rng, i):
    """A conditioned measurement neither records, collapses nor writes bits when blocked."""
    n, k = rng.randint(1, 3), rng.randint(1, 3)
    pre = [gen.Op("Rotation", tuple(rng.uniform(0.6, 2.4) for _ in range(3)), (q,)) for q in range(n)]
    nm = rng.randint(1, n)
    qs = tuple(rng.sample(range(n), nm))
    o = gen.Op("Measurement", (), qs, tuple(range(k)), tuple(range(k, k + nm)))
    c = gen.build(rng, pre + [o], n, k + nm)
    for vals in itertools.product((None, 0, 1), repeat=k):
        tgt = [rng.choice([None, 0, 1]) for _ in range(nm)]
        allv = list(vals) + tgt
        for b, v in zip(c.bits, allv):
            b.reset()
            if v is not None:
                b.set(v)
        simulate(c, rng_seed=rng.getrandbits(30))
        rec = measured(c)[0].state
        if 0 in vals:
            r.check(rec is None, "blocked-measurement-recorded")
            r.check([b.value for b in c.bits] == allv, "blocked-measurement-wrote-bits")
            r.check(ref.close(c.state, gen.final_state(pre, n)), "blocked-measurement-collapsed")
            r.event("blocked_measurements")
        else:
            try:
                machine.replay(pre + [o], n, allv, [rec], c.state, [b.value for b in c.bits])
            except machine.Inconsistent as e:
                r.check(False, "conditioned-measurement", str(e))
            r.check(True, "conditioned-measurement")
        r.event("truth_table_rows")
        r.seen(["mtable", n, qs, vals, tgt], 0 in vals)


def sec_forms(r, rng, i):
    """The ways to state a condition, on operations alone."""
    k = rng.randint(1, 4) if rng.random() < 0.8 else rng.randint(5, 30)
    bits = [gen.derived(Bit, 0.1)(str(j)) for j in range(k)]
    vals = [rng.choice([None, 0, 1]) for _ in range(k)]
    if k > 4:  # at most one that blocks, anywhere
        vals = [rng.choice([None, 1]) for _ in range(k)]
        if rng.random() < 0.7:
            vals[rng.randrange(k)] = 0
    form = rng.randrange(4)
    c = gen.derived(Circuit, 0.1)(1)
    op = [lambda: ops.X(c.qubits[0]), lambda: ops.RX(0.4, c.qubits[0]), lambda: ops.Measurement(c.qubits[0]),
          lambda: ops.Rotation([1, 2, 3], c.qubits[0])][rng.randrange(4)]()
    r.check(not op.is_blocked, "blocked-without-condition")
    arg = bits[0] if k == 1 and form == 0 else (tuple(bits) if form == 1 else bits)
    res = op.conditional(arg)
    r.check(res is op, "conditional-returns-operation")
    r.check(not op.is_blocked, "unset-bits-block")
    for b, v in zip(bits, vals):
        if v is not None:
            b.set(v)
    r.check(op.is_blocked == (0 in vals), "is-blocked", f"{vals}")
    # the condition is read at the time, not captured
    for b in bits:
        b.set(1, force=True)
    r.check(not op.is_blocked, "condition-captured")
    bits[rng.randrange(k)].set(0, force=True)
    r.check(op.is_blocked, "condition-captured")
    r.seen(["forms", k, vals, form], 0 in vals)


def sec_bound(r, rng, i):
    """Conditions survive binding the parameters of a parametric circuit."""
    n = rng.randint(1, 3)
    c = gen.derived(ParametricCircuit, 0.1)(n, 1)
    th = rng.uniform(0.5, 2.5)
    g = rng.choice(["RX", "RY", "Rotation"] + (["CRX", "CRotation"] if n > 1 else []))
    nq, npar, _ = ref.GATES[g]
    qs = tuple(rng.sample(range(n), nq))
    vals = [rng.uniform(0.4, 2.5) for _ in range(npar)]
    prep = [gen.Op("RY", (th,), (q,)) for q in range(n)]
    prog = prep + [gen.Op("Measurement", (), (0,), (), (0,)), gen.Op(g, tuple(vals), qs, (0,))]
    with c.context as reg:
        for q in range(n):
            ops.RY(th, reg.q[q])
        ops.Measurement(reg.q[0]) | reg.c[0]
        o = prog[-1]._replace(params=tuple(reg.p[j] for j in range(npar)))
        gen.instantiate(o, reg.q, rng).conditional(reg.c[0])
    inplace = rng.random() < 0.5
    c2 = c.eval([[]] * (n + 1) + [vals], inplace=inplace)
    seen = set()
    for _ in range(8):
        for b in c2.bits:
            b.reset()
        simulate(c2, rng_seed=rng.getrandbits(30))
        try:
            machine.replay(prog, n, [None], [m.state for m in measured(c2)], c2.state, [b.value for b in c2.bits])
        except machine.Inconsistent as e:
            r.check(False, "bound-condition", str(e), gate=g)
        r.check(True, "bound-condition")
        seen.add(c2.bits[0].value)
    r.event("blocked_steps", 0 in seen)
    r.seen(["bound", n, g, qs, inplace], len(seen) == 2)


SECTIONS = [
    ("programs", sec_programs, 2000, 60000),
    ("foreign", sec_foreign, 300, 8000),
    ("again", sec_again, 300, 8000),
    ("table", sec_table, 66, 660),
    ("measure_table", sec_measure_table, 120, 3000),
    ("forms", sec_forms, 150, 2000),
    ("bound", sec_bound, 120, 4000),
]
