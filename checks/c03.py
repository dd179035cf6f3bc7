"""C03: measurements: Born rule, collapse, records, sampling."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C03"
RULE = ("random programs with measurements anywhere (several qubits, repeated, with and without bits, "
        "overwritten bits), replayed by a reference machine that keeps all executions consistent with "
        "the recorded states, bits and final state; outcome frequencies over many seeds and samples "
        "against Born probabilities (Chernoff bound, false-alarm probability below 1e-11 per cell); "
        "distinct by program, non-trivial when some measured outcome was not certain")
ASSUMPTIONS = ["numpy's Generator is an unbiased uniform source",
               "amplitudes compared with tolerance 1e-7"]
REQUIRED = ["measurements_replayed", "branching_executions", "born_cells", "sample_cells",
            "sample_qubit_cells", "expval_checked", "repeat_measurements", "resimulated", "wide_circuits",
            "simulated_between_changes", "grown", "drawn_by_many_calls", "rare_expvals"]
SCALE = 5
BUDGET = {"quick": 240, "thorough": 560}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import collections
import math
import warnings

import numpy as np

import gen
import machine
import ref
import dwave.gate.operations as ops
from dwave.gate import Circuit
from dwave.gate.circuit import CircuitError
from dwave.gate.simulator import simulate
from dwave.gate.simulator.simulator import sample_qubit

simulate = gen.simulator(simulate)


def measured(c):
    return [op for op in c.circuit if isinstance(op, ops.Measurement)]


def with_measurements(rng, n, prog, nm, nbits, reuse=False, nobits=0.15, most=3):
    """Inserts nm measurements; bits are fresh unless ``reuse``."""
    prog = list(prog)
    positions = sorted(rng.randint(0, len(prog)) for _ in range(nm))
    free = list(range(nbits))
    rng.shuffle(free)
    for off, pos in enumerate(positions):
        k = rng.randint(1, min(n, most))
        qs = tuple(rng.sample(range(n), k))
        if rng.random() < nobits:
            bits = ()
        elif reuse:
            bits = tuple(rng.sample(range(nbits), k)) if nbits >= k else ()
        else:
            bits = tuple(free.pop() for _ in range(k)) if len(free) >= k else ()
        prog.insert(pos + off, gen.Op("Measurement", (), qs, (), bits))
    return prog


def replay(r, c, prog, n, bits0, key):
    recs = [m.state for m in measured(c)]
    try:
        _, width, _, _ = machine.replay(prog, n, bits0, recs, c.state, [b.value for b in c.bits])
    except machine.Inconsistent as e:
        r.check(False, key, str(e), program=gen.describe(prog))
    r.check(True, key)
    r.event("measurements_replayed", len(recs))
    if width > 1:
        r.event("branching_executions")
    return width


def sec_trace(r, rng, i):
    n = rng.randint(1, 5)
    nbits = rng.randint(1, 8)
    wide = rng.random() < 0.06
    if wide:
        n, nbits = rng.randint(6, 9), rng.randint(8, 40)
    prog = gen.program(rng, n, rng.randint(0, 10) if not wide else rng.randint(5, 60))
    prog = with_measurements(rng, n, prog, rng.randint(1, 4) if not wide else rng.randint(1, 12), nbits, reuse=rng.random() < 0.4,
                             most=8 if wide else 3)
    r.event("wide_circuits", wide)
    c = gen.build(rng, prog, n, nbits)
    seed = rng.choice([None, rng.getrandbits(32), rng.randrange(5)])
    simulate(c, rng_seed=seed)
    w = replay(r, c, prog, n, [None] * nbits, "trace")
    r.seen([n, nbits, gen.describe(prog)], w > 1)
    for m in measured(c):
        if m.bits is not None:
            r.check(all(b.value in (0, 1) for b in m.bits), "bit-set")
    # the records are copies: later operations and simulations do not change them
    if rng.random() < 0.5:
        recs = [m.state for m in measured(c)]
        copies = [x.copy() for x in recs]
        bits0 = [b.value for b in c.bits]
        simulate(c, rng_seed=rng.getrandbits(30))
        for x, y in zip(recs, copies):
            r.check(np.array_equal(x, y), "record-modified-by-resimulation")
        replay(r, c, prog, n, bits0, "trace-again")
        for m in measured(c):
            s = m.sample(num_samples=2)
            r.check(len(s) == 2 and all(len(x) == len(m.qubits) for x in s), "sample-width-after-resimulation",
                    f"{s} for {len(m.qubits)} measured qubits")
        r.event("resimulated")


def sec_again(r, rng, i):
    """Simulated again and again between changes of the operations, measured bits and conditions."""
    warnings.simplefilter("ignore")
    n, nb = rng.randint(1, 4), rng.randint(1, 4)
    prog = with_measurements(rng, n, gen.program(rng, n, rng.randint(0, 6)), rng.randint(1, 3), nb, reuse=True, nobits=0.25)
    if rng.random() < 0.5:
        prog = [o._replace(cond=(rng.randrange(nb),)) if rng.random() < 0.3 else o for o in prog]
    c = gen.build(rng, prog, n, nb)
    log = [gen.describe(prog)]
    w = 1
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.5:
            for b in c.bits:
                b.reset()
        bits0 = [b.value for b in c.bits]
        log.append(bits0)
        simulate(c, rng_seed=rng.getrandbits(30))
        w = max(w, replay(r, c, prog, n, bits0, "again"))
        for m in measured(c):
            if m.state is not None and rng.random() < 0.5:
                s = m.sample(num_samples=2)
                r.check(len(s) == 2 and all(len(x) == len(m.qubits) for x in s), "again:sample-width", f"{s}")
        prog, what = gen.change(rng, c, prog, n, list(ref.GATES), nbits=nb)
        n, nb, grown = gen.grow(rng, c, n, nb)
        r.event("grown", grown is not None)
        log.append([what, grown, gen.describe(prog)])
        r.event("simulated_between_changes")
    r.seen(["again", n, nb, log], w > 1)


def sec_repeat(r, rng, i):
    """Measuring again right away gives the same outcome with certainty."""
    n = rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(5, 9)
    prog = gen.program(rng, n, rng.randint(1, 8) if n < 5 else rng.randint(8, 30))
    k = rng.randint(1, n)
    qs = rng.sample(range(n), k)
    c = gen.make_circuit(rng, n, 2 * k)
    gen.build(rng, prog, n, circuit=c)
    c.unlock()
    perm = list(range(k))
    rng.shuffle(perm)
    with c.context as reg:
        ops.Measurement([reg.q[q] for q in qs]) | [reg.c[j] for j in range(k)]
        if rng.random() < 0.5:
            ops.Measurement([reg.q[qs[p]] for p in perm]) | [reg.c[k + p] for p in perm]
        else:
            for p in perm:
                ops.Measurement(reg.q[qs[p]]) | reg.c[k + p]
    for _ in range(4):
        simulate(c, rng_seed=rng.getrandbits(32))
        vals = [b.value for b in c.bits]
        r.check(vals[:k] == vals[k:], "repeat-differs", f"{vals}")
        r.event("repeat_measurements")
    r.seen(["repeat", n, qs, gen.describe(prog)], True)


def sec_register(r, rng, i):
    """Measuring a register into a register, more bits than qubits, too few bits."""
    n, extra = rng.randint(1, 4), rng.randint(0, 2)
    prog = gen.program(rng, n, rng.randint(1, 6))
    c = gen.derived(Circuit, 0.1)(n, n + extra)
    gen.build(rng, prog, n, circuit=c)
    c.unlock()
    with c.context as reg:
        m = ops.Measurement(reg.q) | reg.c
    r.check(tuple(m.bits) == tuple(c.bits)[:n], "register-bits")
    simulate(c, rng_seed=rng.getrandbits(32))
    full = prog + [gen.Op("Measurement", (), tuple(range(n)), (), tuple(range(n)))]
    w = replay(r, c, full, n, [None] * (n + extra), "register")
    r.check(all(b.value is None for b in list(c.bits)[n:]), "register-extra-bit")
    r.seen(["register", n, extra, gen.describe(prog)], w > 1)
    if n > 1:
        m2 = ops.Measurement(list(c.qubits))
        r.raises(ValueError, lambda: m2 | list(c.bits)[:n - 1], "too-few-bits")
        r.check(m2.bits is None, "too-few-bits-kept")
        r.raises(ValueError, lambda: m | list(c.bits)[:n - 1], "too-few-bits")
        r.check(tuple(m.bits) == tuple(c.bits)[:n], "too-few-bits-kept")
    r.raises(CircuitError, lambda: simulate(c, little_endian=True), "little-endian-measurement")


def sec_born(r, rng, i):
    """Joint outcome frequencies over independent seeds."""
    n = rng.randint(1, 3)
    prog = [gen.Op("Rotation", tuple(rng.uniform(0.4, 2.7) for _ in range(3)), (q,)) for q in range(n)]
    prog += gen.program(rng, n, rng.randint(0, 4), alias=False)
    k = rng.randint(1, n)
    qs = tuple(rng.sample(range(n), k))
    mid = gen.program(rng, n, 2, alias=False) if rng.random() < 0.4 else []
    c = gen.make_circuit(rng, n, k)
    full = prog + [gen.Op("Measurement", (), qs, (), tuple(range(k)))] + mid
    gen.build(rng, full, n, circuit=c)
    probs = machine.joint_probs(gen.final_state(prog, n), n, qs)
    N = 1500
    base_seed = rng.getrandbits(40)
    cnt = collections.Counter()
    for s in range(N):
        simulate(c, rng_seed=base_seed + s if s % 5 else None)
        cnt[tuple(b.value for b in c.bits)] += 1
    r.seen(["born", n, qs, gen.describe(full)], max(probs.values()) < 1 - 1e-6)
    r.check(set(cnt) <= set(probs), "born-outcome", str(cnt))
    for o, p in probs.items():
        r.check(not machine.implausible(cnt[o], N, p), "born-frequency",
                f"outcome {o}: {cnt[o]}/{N}, Born probability {p}", program=gen.describe(full), qubits=qs)
        r.event("born_cells")


def sec_sample(r, rng, i):
    """Sampling a recorded measurement."""
    n = rng.randint(1, 4)
    prog = [gen.Op("Rotation", tuple(rng.uniform(0.4, 2.7) for _ in range(3)), (q,)) for q in range(n)]
    prog += gen.program(rng, n, rng.randint(0, 4), alias=False)
    k = rng.randint(1, n)
    qs = tuple(rng.sample(range(n), k))
    mid = gen.program(rng, n, 3, alias=False)
    full = prog + [gen.Op("Measurement", (), qs, (), tuple(range(k)))] + mid
    c = gen.build(rng, full, n, n)
    m = measured(c)[0]
    r.raises(CircuitError, lambda: m.sample(), "sample-before-simulation")
    simulate(c)
    rec = m.state.copy()
    bits = [b.value for b in c.bits]
    st = c.state.copy()
    which = None if rng.random() < 0.5 else rng.sample(range(n), rng.randint(1, n))
    if which is not None and rng.random() < 0.5:  # other sequences of indices
        a, b = sorted(rng.sample(range(n + 1), 2))
        which = rng.choice([tuple(which), range(a, b), range(b - 1, a - 1, -1)])
    asked = list(qs if which is None else which)
    N = 1500
    r.seen(["sample", n, qs, which and [type(which).__name__, *which], gen.describe(prog)])
    s = gen.anywhere(m.sample)(which, num_samples=N) if rng.random() < 0.5 else m.sample(qubits=which, num_samples=N)
    r.check(isinstance(s, list) and len(s) == N and all(len(x) == len(asked) for x in s), "sample-shape")
    cnt = collections.Counter(tuple(x) for x in s)
    probs = machine.joint_probs(rec, n, asked)
    for o in cnt:
        r.check(o in probs, "sample-outcome", str(o))
    for o, p in probs.items():
        r.check(not machine.implausible(cnt[o], N, p), "sample-frequency", f"asked {asked}: {o} {cnt[o]}/{N}, p={p}")
        r.event("sample_cells")
    sb = gen.anywhere(m.sample)(which, num_samples=N // 3, as_bitstring=True)
    r.check(len(sb) == N // 3 and all(isinstance(x, str) and len(x) == len(asked) for x in sb), "bitstring-shape")
    cnt = collections.Counter(tuple(int(ch) for ch in x) for x in sb)
    for o, p in probs.items():
        r.check(not machine.implausible(cnt[o], N // 3, p), "bitstring-frequency", f"{o} {cnt[o]}, p={p}")
    # drawn by many calls
    cnt = collections.Counter()
    while sum(cnt.values()) < 500:
        for x in gen.anywhere(m.sample)(which, num_samples=rng.choice([1, 1, 1, 2, 3])):
            cnt[tuple(x)] += 1
    for o, p in probs.items():
        r.check(not machine.implausible(cnt[o], sum(cnt.values()), p), "single-samples-frequency", f"{o} {cnt[o]}, p={p}")
    means = collections.Counter()
    for _ in range(60):
        for k, e in enumerate(gen.anywhere(m.expval)(which, num_samples=10)):
            means[k] += round(10 * e)
    for k, q in enumerate(asked):
        r.check(not machine.implausible(means[k], 600, ref.prob_of(rec, n, q)), "single-expvals-frequency",
                f"qubit {q}: {means[k]}/600, expected {ref.prob_of(rec, n, q)}")
    r.event("drawn_by_many_calls")
    r.check(len(gen.anywhere(m.sample)(which)) == 1, "sample-default-count")
    r.check(gen.anywhere(m.sample)(which, num_samples=0) == [], "sample-none")
    ev = gen.anywhere(m.expval)(which, num_samples=N)
    r.check(len(ev) == len(asked), "expval-shape", str(ev))
    for q, e in zip(asked, ev):
        kk = round(e * N)
        r.check(abs(kk - e * N) < 1e-6, "expval-not-a-mean", str(ev))
        r.check(not machine.implausible(kk, N, ref.prob_of(rec, n, q)), "expval",
                f"qubit {q}: {e}, expected {ref.prob_of(rec, n, q)}")
        r.event("expval_checked")
    r.check(len(gen.anywhere(m.expval)(which)) == len(asked), "expval-default")
    # a qubit may be asked for more than once: it has one outcome in each sample
    twice = [rng.randrange(n) for _ in range(rng.randint(2, 5))]
    twice.append(rng.choice(twice))
    rng.shuffle(twice)
    uniq = sorted(set(twice))
    cnt = collections.Counter()
    for x in m.sample(twice, num_samples=600):
        d = {}
        r.check(len(x) == len(twice) and all(d.setdefault(q, b) == b for q, b in zip(twice, x)), "sample-of-repeated-qubit",
                f"{twice}: {x}")
        cnt[tuple(d[q] for q in uniq)] += 1
    for o, p in machine.joint_probs(rec, n, uniq).items():
        r.check(not machine.implausible(cnt[o], 600, p), "sample-of-repeated-qubit-frequency", f"{uniq}: {o} {cnt[o]}/600, p={p}")
    ev = m.expval(twice, num_samples=50)
    r.check(all(ev[a] == ev[b] for a in range(len(twice)) for b in range(a) if twice[a] == twice[b]), "expval-of-repeated-qubit",
            f"{twice}: {ev}")
    r.event("repeated_qubits_sampled")
    # sampling observes only
    r.check(np.array_equal(m.state, rec), "sampling-changed-record")
    r.check([b.value for b in c.bits] == bits and np.array_equal(c.state, st), "sampling-changed-circuit")
    r.raises(ValueError, lambda: m.sample([n + rng.randint(0, 3)]), "sample-out-of-range")


def sec_many_samples(r, rng, i):
    """Large numbers of samples of entangled qubits, of which all outcomes are known."""
    n = rng.randint(2, 4) if rng.random() < 0.6 else rng.randint(5, 9)
    c = gen.derived(Circuit, 0.1)(n, n)
    bits = [rng.getrandbits(1) for _ in range(n)]
    qs = rng.sample(range(n), rng.randint(2, n))
    with c.context as reg:  # a|bits> + b|complement>
        ops.RY(rng.uniform(0.6, 2.5), reg.q[0])
        for k in range(1, n):
            ops.CX(reg.q[0], reg.q[k])
        for k in range(n):
            if bits[k]:
                ops.X(reg.q[k])
        ops.Measurement([reg.q[k] for k in qs]) | [reg.c[k] for k in range(len(qs))]
    simulate(c)
    m = c.circuit[-1]
    rec = m.state.copy()
    for N in [1, rng.randint(2, 300), [501, 1025, 2049, 4097, 5001, 8193, 10001, 20011][i % 8]]:
        which = None if rng.random() < 0.5 else rng.sample(range(n), rng.randint(2, n))
        asked = qs if which is None else which
        s = gen.anywhere(m.sample)(which, num_samples=N, as_bitstring=rng.random() < 0.3)
        cnt = collections.Counter(tuple(int(ch) for ch in x) for x in s)
        probs = machine.joint_probs(rec, n, asked)
        r.check(set(cnt) <= {o for o, p in probs.items() if p > 1e-12} and sum(cnt.values()) == N, "many-samples:outcome",
                f"{N} samples of {asked}: {dict(cnt)}")
        for o, p in probs.items():
            r.check(not machine.implausible(cnt[o], N, p), "many-samples:frequency", f"{asked}: {o} {cnt[o]}/{N}, p={p}")
        r.event("many_samples", N)
    N = [1500, 4100, 10010][i % 3]
    ev = m.expval(None, num_samples=N)
    for q, e in zip(qs, ev):
        r.check(not machine.implausible(round(e * N), N, ref.prob_of(rec, n, q)), "many-samples:expval", f"qubit {q}: {e}")
    r.check(np.array_equal(m.state, rec), "many-samples:changed-record")
    # expectation values of rare outcomes, over many calls with the same number of samples
    p = rng.uniform(0.001, 0.012)
    N = rng.choice([150, 200, 333, 500, 1000])
    c = gen.derived(Circuit, 0.1)(1)
    with c.context as reg:
        ops.RY(2 * math.asin(math.sqrt(p)), reg.q[0])
        m = ops.Measurement(reg.q[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        simulate(c)
    calls = 20000 // N
    total = sum(m.expval(num_samples=N)[0] for _ in range(calls)) * N
    r.check(not machine.implausible(round(total), calls * N, p), "rare:expval", f"{total} of {calls * N} samples, p={p}")
    r.event("rare_expvals")
    r.seen(["many", n, qs, bits, i])


def sec_sample_qubit(r, rng, i):
    """The sampling primitive on arbitrary states, with and without collapse, both conventions."""
    n = rng.randint(1, 6)
    nprng = np.random.default_rng(rng.getrandbits(60))
    psi = ref.random_state(nprng, n)
    if rng.random() < 0.3:  # sparse states
        psi = psi * (nprng.random(2 ** n) < 0.4)
        psi = psi / np.linalg.norm(psi) if np.linalg.norm(psi) > 0 else ref.zero_state(n)
    q = rng.randrange(n)
    little = rng.random() < 0.5
    big = ref.reverse_bits(psi, n) if little else psi  # same state, first qubit most significant
    p1 = ref.prob_of(big, n, q)
    g = np.random.default_rng(rng.getrandbits(60))
    N = 3000
    r.seen(["sample_qubit", n, q, little, p1], 1e-6 < p1 < 1 - 1e-6)
    work = psi.copy()
    ones = 0
    for _ in range(N):
        b = sample_qubit(q, work, g, collapse_state=False, little_endian=little)
        r.check(b in (0, 1), "sample-qubit-value", repr(b))
        ones += b
    r.check(np.array_equal(work, psi), "sample-without-collapse-changed-state")
    r.check(not machine.implausible(ones, N, p1), "sample-qubit-frequency", f"{ones}/{N}, p={p1}")
    r.event("sample_qubit_cells")
    for _ in range(12):
        work = psi.copy()
        b = sample_qubit(q, work, g, little_endian=little)
        exp = ref.project(big, n, q, b)
        exp = ref.reverse_bits(exp, n) if little else exp
        r.check(ref.prob_of(big, n, q) > 1e-12 if b else p1 < 1 - 1e-12, "impossible-outcome")
        r.check(ref.close(work, exp), "collapse", f"qubit {q} -> {b}: {work[:8]} expected {exp[:8]}")
        again = [sample_qubit(q, work, g, little_endian=little) for _ in range(3)]
        r.check(again == [b] * 3, "collapse-repeat")
        r.event("collapses")


def sec_extreme(r, rng, i):
    """Outcomes that are certain, or nearly so, and very unlikely branches."""
    n = rng.randint(1, 4)
    th = rng.choice([0.0, 1e-12, 1e-6, 1e-3, np.pi, np.pi - 1e-6, np.pi / 2])
    c = gen.derived(Circuit, 0.1)(n, n)
    with c.context as reg:
        for q in range(n):
            ops.RY(th, reg.q[q])
        if n > 1 and rng.random() < 0.5:
            ops.CX(reg.q[0], reg.q[1])
        ops.Measurement(reg.q) | reg.c
    for s in range(20):
        simulate(c, rng_seed=s)
        prog = [gen.Op("RY", (th,), (q,)) for q in range(n)]
        if len(c.circuit) == n + 2:
            prog.append(gen.Op("CX", (), (0, 1)))
        prog.append(gen.Op("Measurement", (), tuple(range(n)), (), tuple(range(n))))
        bits0 = [None] * n
        replay(r, c, prog, n, bits0, "extreme")
        r.check(abs(np.linalg.norm(c.state) - 1) < 1e-9, "extreme-norm")
    r.seen(["extreme", n, th, len(c.circuit)])


SECTIONS = [
    ("again", sec_again, 250, 8000),
    ("trace", sec_trace, 1200, 40000),
    ("repeat", sec_repeat, 200, 8000),
    ("register", sec_register, 120, 3000),
    ("born", sec_born, 24, 500),
    ("sample", sec_sample, 24, 500),
    ("many_samples", sec_many_samples, 8, 200),
    ("sample_qubit", sec_sample_qubit, 60, 2500),
    ("extreme", sec_extreme, 40, 400),
]
