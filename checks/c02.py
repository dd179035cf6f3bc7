"""C02: density-matrix simulation against the pure evolution of an independent reference."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C02"
RULE = ("random programs with complex amplitudes, every gate on every placement, conditions on preset "
        "bits, both index conventions, both routes to a density matrix; distinct by (program, route, "
        "convention), non-trivial when the reference density matrix has an imaginary part or more than "
        "one non-zero entry")
ASSUMPTIONS = ["entries compared with absolute tolerance 1e-9"]
REQUIRED = ["density_matrices_compared_big", "density_matrices_compared_little",
            "pure_to_density", "conditioned_programs", "placements",
            "custom_placements", "simulated_again", "grown", "wide_density_matrices", "large_outer_products"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 560}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import itertools

import numpy as np

import gen
import ref
from dwave.gate import Circuit
from dwave.gate.circuit import CircuitError
from dwave.gate.simulator import simulate

simulate = gen.simulator(simulate)


def check_dm(r, dm, psi, n, key, w=""):
    exp = np.outer(psi, psi.conj())
    r.check(isinstance(dm, np.ndarray) and dm.shape == (2 ** n, 2 ** n), key + ":shape", f"{w} {type(dm)}")
    r.check(ref.close(dm, dm.conj().T), key + ":hermitian", w)
    r.check(abs(np.trace(dm) - 1) < 1e-9, key + ":trace", f"{w} trace {np.trace(dm)}")
    r.check(np.linalg.eigvalsh((dm + dm.conj().T) / 2).min() > -1e-9, key + ":psd", w)
    r.check(ref.close(dm, exp), key + ":value", f"{w} got {dm[:4, :4]} expected {exp[:4, :4]}")


def observe(r, c, psi, n, key):
    for little in (False, True):
        exp = ref.reverse_bits(psi, n) if little else psi
        simulate(c, mixed_state=True, little_endian=little)
        check_dm(r, c.density_matrix, exp, n, f"{key}:mixed:{'little' if little else 'big'}")
        r.raises(CircuitError, lambda: c.state, key + ":state-of-mixed")
        r.event("density_matrices_compared_" + ("little" if little else "big"))
        simulate(c, little_endian=little)
        check_dm(r, c.density_matrix, exp, n, f"{key}:pure")
        # reading the density matrix leaves the vector alone and is repeatable
        check_dm(r, c.density_matrix, exp, n, f"{key}:pure-again")
        r.check(ref.close(c.state, exp), key + ":pure-state")
        r.event("pure_to_density")


def nontrivial(psi):
    return float(np.abs(psi).max()) < 1 - 1e-9


def sec_random(r, rng, i):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    prog = gen.program(rng, n, rng.choice([0, 1, 2, 4, 8, 14]))
    psi = gen.final_state(prog, n)
    c = gen.build(rng, prog, n)
    r.seen([n, [len(q) for q in c.qregisters.values()], gen.describe(prog)], nontrivial(psi))
    observe(r, c, psi, n, "random")


def sec_placements(r, rng, i):
    names = list(ref.GATES)
    name = names[i % len(names)]
    n = 3 if (i // len(names)) % 2 == 0 else 4
    nq, npar, _ = ref.GATES[name]
    prefix = [gen.Op("Rotation", tuple(rng.uniform(0.3, 2.8) for _ in range(3)), (q,)) for q in range(n)]
    prefix += [gen.Op("CX", (), (q, (q + 1) % n)) for q in range(n)]
    for qs in itertools.permutations(range(n), nq):
        prog = prefix + [gen.Op(name, tuple(rng.uniform(0.2, 3) for _ in range(npar)), qs)]
        c = gen.build(rng, prog, n)
        psi = gen.final_state(prog, n)
        r.seen(["placement", n, name, list(qs), gen.describe(prog)])
        observe(r, c, psi, n, f"placement:{name}")
        r.event("placements")


def sec_conditioned(r, rng, i):
    """Operations conditioned on bits that the caller has set."""
    n, nb = rng.randint(1, 4), rng.randint(1, 3)
    prog = gen.program(rng, n, rng.randint(1, 8))
    prog = [o._replace(cond=tuple(rng.sample(range(nb), rng.randint(1, nb)))) if rng.random() < 0.6 else o
            for o in prog]
    vals = [rng.choice([None, 0, 1]) for _ in range(nb)]
    c = gen.build(rng, prog, n, nb)
    for b, v in zip(c.bits, vals):
        if v is not None:
            b.set(v)
    run = [o for o in prog if not any(vals[b] == 0 for b in o.cond)]
    psi = gen.final_state(run, n)
    r.seen(["cond", n, vals, gen.describe(prog)], len(run) < len(prog))
    observe(r, c, psi, n, "conditioned")
    r.event("conditioned_programs")


def sec_history(r, rng, i):
    """Switching between the two modes on one circuit that keeps growing."""
    n = rng.randint(1, 3)
    c = gen.make_circuit(rng, n)
    prog = []
    for step in range(rng.randint(2, 5)):
        for o in gen.program(rng, n, rng.randint(0, 3)):
            prog.append(o)
            c.append(gen.instantiate(o, c.qubits, rng))
        psi = gen.final_state(prog, n)
        r.seen(["history", n, step, gen.describe(prog)], nontrivial(psi))
        mixed, little = rng.random() < 0.5, rng.random() < 0.5
        exp = ref.reverse_bits(psi, n) if little else psi
        simulate(c, mixed_state=mixed, little_endian=little)
        if rng.random() < 0.7:
            check_dm(r, c.density_matrix, exp, n, "history")
        if not mixed:
            r.check(ref.close(c.state, exp), "history:state")


def sec_again(r, rng, i):
    """Simulated again and again, in one mode or the other, between changes of the circuit."""
    n = rng.randint(1, 4)
    prog = gen.program(rng, n, rng.choice([1, 2, 3, 6]))
    c = gen.build(rng, prog, n)
    log = [gen.describe(prog)]
    mixed, little = rng.random() < 0.7, rng.random() < 0.5
    for _ in range(rng.randint(2, 5)):
        psi = gen.final_state(prog, n)
        exp = ref.reverse_bits(psi, n) if little else psi
        simulate(c, mixed_state=mixed, little_endian=little)
        check_dm(r, c.density_matrix, exp, n, "again")
        if not mixed:
            r.check(ref.close(c.state, exp), "again:state")
        if rng.random() < 0.15:
            mixed = not mixed
        if rng.random() < 0.15:
            little = not little
        prog, what = gen.change(rng, c, prog, n, list(ref.GATES))
        n, _, grown = gen.grow(rng, c, n)
        r.event("grown", grown is not None)
        log.append([what, grown, mixed, little, gen.describe(prog)])
        r.event("simulated_again")
    r.seen(log, nontrivial(psi))


def sec_controls(r, rng, i):
    """User-defined operations with one or two controls, with and without parameters, on every placement."""
    n = rng.choice([2, 3, 3, 4])
    while True:
        op = gen.custom_ops(rng, n)
        if op.name in ("custom_c", "custom_pc"):
            break
    prefix = [gen.Op("Rotation", tuple(rng.uniform(0.3, 2.8) for _ in range(3)), (q,)) for q in range(n)]
    prefix += [gen.Op("CX", (), (q, (q + 1) % n)) for q in range(n)]
    for qs in itertools.permutations(range(n), len(op.qubits)):
        prog = prefix + [op._replace(qubits=qs)]
        c = gen.build(rng, prog, n)
        psi = gen.final_state(prog, n)
        r.seen(["controls", n, op.name, list(qs), gen.describe(prog), i])
        observe(r, c, psi, n, f"controls:{op.name}")
        r.event("custom_placements")


def sec_wide(r, rng, i):
    """Density matrices of larger registers."""
    n = rng.choice([6, 7, 7, 8] if r.tier == "quick" else [6, 7, 8, 8, 9])
    prog = [gen.Op("Rotation", tuple(rng.uniform(0.3, 2.8) for _ in range(3)), (q,)) for q in range(n)]
    prog += gen.program(rng, n, 14, custom=0.3)
    psi = gen.final_state(prog, n)
    c = gen.build(rng, prog, n)
    r.seen(["wide", n, gen.describe(prog)], nontrivial(psi))
    little = rng.random() < 0.5
    exp = ref.reverse_bits(psi, n) if little else psi
    simulate(c, mixed_state=True, little_endian=little)
    check_dm(r, c.density_matrix, exp, n, "wide:mixed")
    simulate(c, little_endian=little)
    check_dm(r, c.density_matrix, exp, n, "wide:pure")
    r.event("wide_density_matrices")


def sec_outer(r, rng, i):
    """The density matrix of state vectors that are too large for a density-matrix simulation here."""
    n = rng.choice([9, 9, 10] if r.tier == "quick" else [9, 10, 10, 11])
    prog = [gen.Op("Rotation", tuple(rng.uniform(0.3, 2.8) for _ in range(3)), (q,)) for q in range(n)]
    prog += gen.program(rng, n, 10, custom=0.3)
    psi = gen.final_state(prog, n)
    c = gen.build(rng, prog, n)
    little = rng.random() < 0.5
    exp = ref.reverse_bits(psi, n) if little else psi
    r.seen(["outer", n, gen.describe(prog)], nontrivial(psi))
    simulate(c, little_endian=little)
    for _ in range(2):
        dm = c.density_matrix
        r.check(isinstance(dm, np.ndarray) and dm.shape == (2 ** n, 2 ** n), "outer:shape")
        r.check(ref.close(dm, np.outer(exp, exp.conj()), 1e-12), "outer:value")
        r.check(abs(np.trace(dm) - 1) < 1e-9, "outer:trace")
    r.event("large_outer_products")


SECTIONS = [
    ("outer", sec_outer, 4, 60),
    ("controls", sec_controls, 40, 1500),
    ("wide", sec_wide, 8, 200),
    ("placements", sec_placements, 44, 1000),
    ("random", sec_random, 400, 16000),
    ("conditioned", sec_conditioned, 200, 8000),
    ("history", sec_history, 200, 8000),
    ("again", sec_again, 200, 8000),
]
