"""C18: simulations are reproducible and isolated."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C18"
RULE = ("random programs with measurements and conditions, simulated in interleaved schedules with other circuits (sharing nothing, "
        "operations or the classes), earlier runs, seeding and drawing of global random numbers, threads and other "
        "processes in between; byte-wise comparison of states, bits and records of runs with equal seeds and bits, and of "
        "everything that must not change before and after each run; distinct by (programs, schedule), non-trivial with "
        "a random measurement")
ASSUMPTIONS = ["equal results are compared byte by byte on one machine", "threads simulate circuits of their own"]
REQUIRED = ["runs", "repeated_runs", "random_measurements", "frozen_arrays", "global_state_checks", "other_circuits",
            "distinct_seeds_differ", "unseeded_differ", "threads", "processes", "mixed_runs", "preset_runs", "refused_runs",
            "unseeded_after_seeded", "all_blocked_keys"]
SCALE = 2
BUDGET = {"quick": 240, "thorough": 560}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import contextlib
import copy
import decimal
import gc
import hashlib
import json
import locale
import random
import signal
import subprocess
import sys as _sys
import threading
import warnings

import numpy as np

import gen
import ref
import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, CircuitContext, ParametricCircuit
from dwave.gate.operations.base import ControlledOperation, Measurement, ParametricOperation
from dwave.gate.primitives import Bit
from dwave.gate.simulator.simulator import simulate


def random_prog(rng, n, nbits, length, measure=True):
    prog = [gen.Op("RY", (rng.uniform(0.5, 2.5),), (q,)) for q in range(n)]
    for _ in range(length):
        x = rng.random()
        cond = tuple(rng.sample(range(nbits), rng.randint(1, min(2, nbits)))) if nbits and rng.random() < 0.3 else ()
        if measure and x < 0.3:
            k = rng.randint(1, n)
            bits = tuple(rng.sample(range(nbits), k)) if nbits >= k and rng.random() < 0.9 else ()
            prog.append(gen.Op("Measurement", (), tuple(rng.sample(range(n), k)), cond, bits))
        elif x < 0.4:
            prog.append(gen.custom_ops(rng, n)._replace(cond=cond))
        else:
            prog.append(gen.gate(rng, n)._replace(cond=cond))
    return prog


def shape(c):
    """Everything of the circuit that simulating must leave alone."""
    out = [id(c.circuit), c.is_locked(), [(k, id(v), [id(x) for x in v], [x.label for x in v]) for k, v in c.qregisters.items()],
           [(k, id(v), [id(x) for x in v], [x.label for x in v]) for k, v in c.cregisters.items()],
           [id(x) for x in c.qubits], [id(x) for x in c.bits], c.num_parameters]
    for op in c.circuit:
        d = [id(op), type(op), [id(x) for x in op.qubits], None if gen.cond_of(op) is None else [id(b) for b in gen.cond_of(op)], op.num_qubits,
             op.is_blocked if not isinstance(op, Measurement) and False else None]
        if isinstance(op, ParametricOperation):
            d += [id(op.parameters), [repr(p) for p in op.parameters], [type(p) for p in op.parameters]]
        if isinstance(op, ControlledOperation):
            d += [[id(x) for x in op.control], [id(x) for x in op.target]]
        if isinstance(op, Measurement):
            d += [None if op.bits is None else [id(b) for b in op.bits]]
        out.append(d)
    return out


def class_state():
    """Class-level and global state."""
    st = np.random.get_state()
    return [random.getstate(), st[0], st[1].tobytes(), st[2:], CircuitContext.active_context is None,
            len(getattr(CircuitContext, "on_exit_functions", ())), settings()]


def settings():
    """Settings of the interpreter and of numpy that are global."""
    return [np.geterr(), np.get_printoptions(), list(warnings.filters), warnings.showwarning, _sys.getrecursionlimit(), _sys.getswitchinterval(),
            gc.isenabled(), gc.get_threshold(), os.getcwd(), dict(os.environ), _sys.gettrace(), _sys.getprofile(), _sys.displayhook, _sys.excepthook,
            [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE)], locale.setlocale(locale.LC_ALL), str(decimal.getcontext())]


@contextlib.contextmanager
def caller_settings(rng):
    """What a caller may have set."""
    with contextlib.ExitStack() as stack:
        stack.enter_context(warnings.catch_warnings())
        x = rng.randrange(4)
        if x == 0:
            warnings.simplefilter("ignore")
        elif x == 1:
            warnings.simplefilter("always")
            warnings.showwarning = lambda *a, **kw: None
        elif x == 2:
            warnings.simplefilter("ignore")
            stack.enter_context(np.errstate(divide="ignore", over=rng.choice(["ignore", "warn"]), under="ignore", invalid="ignore"))
        yield


def result(c, mixed):
    return [(c.density_matrix if mixed else c.state).tobytes(), [b.value for b in c.bits],
            [None if m.state is None else m.state.tobytes() for m in c.circuit if isinstance(m, Measurement)],
            widths(c)]


def widths(c):
    """Outcomes for the qubits that were measured, through the public interface."""
    out = []
    for m in c.circuit:
        if isinstance(m, Measurement):
            st = m.state
            try:
                out.append([len(x) for x in m.sample(num_samples=1)])
            except Exception as e:
                out.append(type(e).__name__)
    return out


def set_bits(c, vals):
    for b, v in zip(c.bits, vals):
        b.reset()
        if v is not None:
            b.set(v)


class Frozen:
    """Arrays that were returned, with their content at that time."""

    def __init__(self):
        self.items = []

    def add(self, a):
        if a is not None and not any(a is b for b, _ in self.items):
            self.items.append((a, a.copy()))

    def check(self, r, key):
        for a, b in self.items:
            r.check(np.array_equal(a, b), key, f"{np.round(a, 3)} was {np.round(b, 3)}")
        r.event("frozen_arrays", len(self.items))


def expected_widths(c):
    return [[len(m.qubits)] if m.state is not None else "CircuitError" for m in c.circuit if isinstance(m, Measurement)]


def run(r, rng, c, seed, vals, mixed, little, frozen, others):
    set_bits(c, vals)
    before, glob = shape(c), class_state()
    obits = [[b.value for b in o.bits] for o in others]
    oshape = [shape(o) for o in others]
    ostate = [getattr(o, "_state", None) for o in others]
    kw = {}
    if mixed:
        kw["mixed_state"] = True
    if little:
        kw["little_endian"] = True
    if seed is not None:
        kw["rng_seed"] = seed
    with caller_settings(random.Random(len(before) + len(vals) + (seed or 0))):
        outer = settings()
        simulate(c, **kw)
        now = settings()
        r.check(now == outer, "settings-changed", f"{[x for x in zip(now, outer) if x[0] != x[1]]}")
    if not mixed and len({id(m) for m in c.circuit}) == len(c.circuit):
        r.check(widths(c) == expected_widths(c), "measured-qubits", f"{widths(c)} instead of {expected_widths(c)}")
    r.check(shape(c) == before, "circuit-changed", f"{[a for a, b in zip(shape(c), before) if a != b]} were {[b for a, b in zip(shape(c), before) if a != b]}")
    now = class_state()
    r.check(now == glob, "global-state-changed", f"{[x for x in zip(now[-1], glob[-1]) if x[0] != x[1]]}")
    r.event("global_state_checks")
    for o, bv, os_, st in zip(others, obits, oshape, ostate):
        r.check([b.value for b in o.bits] == bv and shape(o) == os_ and getattr(o, "_state", None) is st, "other-circuit-changed")
        r.event("other_circuits")
    frozen.check(r, "earlier-result-modified")
    res = result(c, mixed)
    frozen.add(c.density_matrix if mixed or rng.random() < 0.3 else c.state)
    if not mixed:
        frozen.add(c.state)
    for m in c.circuit:
        if isinstance(m, Measurement):
            frozen.add(m.state)
            if m.state is not None and rng.random() < 0.2:
                m.sample(num_samples=2)
    r.event("runs")
    return res


def noise(rng, frozen, r):
    """Things that must have no influence."""
    x = rng.randrange(6)
    if x == 0:
        np.random.seed(rng.randrange(1000))
    elif x == 1:
        random.seed(rng.random())
    elif x == 2:
        np.random.random(rng.randint(1, 5))
        random.random()
    elif x == 3:
        np.random.default_rng(rng.randrange(100)).random(10)
    elif x == 4:
        c = gen.build(rng, random_prog(rng, 2, 2, 3), 2, 2)
        simulate(c)
    else:
        random.random()


def sec_schedule(r, rng, i):
    frozen = Frozen()
    circuits = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        nbits = rng.choice([0, 1, 2, 4])
        mixed = rng.random() < 0.25
        little = rng.random() < 0.4
        prog = random_prog(rng, n, nbits, rng.randint(1, 8), measure=not mixed and not little)
        dull = rng.random()
        if dull < 0.06:  # nothing to do
            prog = []
        elif dull < 0.2 and nbits:  # everything depends on bits
            prog = [o._replace(cond=o.cond or (rng.randrange(nbits),)) for o in prog]
        c = gen.build(rng, prog, n, nbits)
        keys = [(rng.choice([0, 1, 42, rng.getrandbits(32), rng.getrandbits(100)]),
                 tuple(rng.choice([None, None, 0, 1]) for _ in range(nbits))) for _ in range(rng.randint(1, 3))]
        if dull < 0.2 and nbits:
            keys.append((keys[0][0], (0,) * nbits))
            r.event("all_blocked_keys")
        circuits.append((c, mixed, little, prog, keys))
    first = {}
    log = []
    rand = False
    for step in range(rng.randint(5, 14)):
        k = rng.randrange(len(circuits))
        c, mixed, little, prog, keys = circuits[k]
        if rng.random() < 0.4:
            noise(rng, frozen, r)
        seed, vals = rng.choice(keys)
        rec = [o for o in prog if o.name == "Measurement"]
        if rng.random() < 0.15:  # a run with another seed, or none, in between
            run(r, rng, c, rng.choice([None, rng.getrandbits(20)]), tuple(rng.choice([None, 0, 1]) for _ in vals), mixed, little,
                frozen, [o[0] for o in circuits if o[0] is not c])
            log.append([k, "other"])
            continue
        if rng.random() < 0.1:  # something else is stored
            d = 2 ** c.num_qubits
            v = np.zeros(d, dtype=complex)
            v[-1] = 1
            c.set_state(v, force=True)
        if rng.random() < 0.1:  # a simulation that is refused
            bad = ops.Barrier([c.qubits[0]])
            c.unlock()
            c.append(bad)
            stored = (getattr(c, "_state", None), getattr(c, "_density_matrix", None))
            try:
                simulate(c)
            except Exception:
                r.event("refused_runs")
                now = (getattr(c, "_state", None), getattr(c, "_density_matrix", None))
                r.check(all(a is None for a in now) or all(a is b for a, b in zip(now, stored)), "refused-run-stored-a-state", f"{now}")
            c.remove(bad)
            frozen.check(r, "refused-run-modified-result")
        res = run(r, rng, c, seed, vals, mixed, little, frozen, [o[0] for o in circuits if o[0] is not c])
        log.append([k, keys.index((seed, vals))])
        if mixed:
            r.event("mixed_runs")
        if any(v is not None for v in vals):
            r.event("preset_runs")
        if rec:
            r.event("random_measurements", len(rec))
            rand = True
        key = (k, seed, vals)
        if key in first:
            e = first[key]
            r.check(res[0] == e[0], "state-differs", f"circuit {k}, seed {seed}, bits {vals}")
            r.check(res[1] == e[1], "bits-differ", f"circuit {k}, seed {seed}, bits {vals}: {res[1]} and {e[1]}")
            r.check(res[2] == e[2], "records-differ", f"circuit {k}, seed {seed}, bits {vals}")
            r.event("repeated_runs")
        else:
            first[key] = res
            if rng.random() < 0.25:  # an equal circuit that was never used
                st = rng.getstate()
                c2 = gen.build(random.Random(5), prog, c.num_qubits, len(vals))
                c3 = gen.build(random.Random(6), prog, c.num_qubits, len(vals))
                a = run(r, rng, c2, seed, vals, mixed, little, frozen, [c])
                b = run(r, rng, c3, seed, vals, mixed, little, frozen, [c2, c])
                r.check(a[0] == res[0] == b[0] and a[1] == res[1] == b[1] and a[2] == res[2] == b[2], "equal-circuits-differ",
                        f"seed {seed}, bits {vals}: {a[1]} {b[1]} {res[1]}")
                r.event("repeated_runs")
                rng.setstate(st)
    frozen.check(r, "result-modified")
    r.seen([[gen.describe(p[3]) for p in circuits], log], rand)


def sec_seeds(r, rng, i):
    """Different seeds, and no seed, give different outcomes."""
    n = 4
    c = gen.derived(Circuit, 0.1)(n, 40)
    with c.context as reg:
        for j in range(10):
            for q in range(n):
                ops.Hadamard(reg.q[q])
            ops.Measurement(reg.q) | [reg.c[4 * j + q] for q in range(n)]
            for q in range(n):
                ops.Hadamard(reg.q[q])
                ops.RY(rng.uniform(-.3, .3), reg.q[q])
    seen = set()
    for k in range(6):
        simulate(c, rng_seed=i * 100 + k)
        seen.add(tuple(b.value for b in c.bits))
    r.check(len(seen) > 1, "seed-ignored", f"{seen}")
    r.event("distinct_seeds_differ", len(seen))
    seen = set()
    for k in range(6):
        if rng.random() < 0.5:
            np.random.seed(3)
            random.seed(3)
        simulate(c)
        seen.add(tuple(b.value for b in c.bits))
    r.check(len(seen) > 1, "unseeded-runs-repeat", f"{seen}")
    r.event("unseeded_differ", len(seen))
    # runs without a seed do not go on where a run with one has stopped
    seen, s = set(), rng.getrandbits(20)
    for k in range(5):
        simulate(c, rng_seed=s)
        simulate(c)
        seen.add(tuple(b.value for b in c.bits))
    r.check(len(seen) > 1, "unseeded-runs-follow-seeded", f"{seen}")
    r.event("unseeded_after_seeded")
    m = next(o for o in c.circuit if isinstance(o, Measurement))
    a, b = (m.sample(num_samples=30) for _ in range(2))
    r.check(a != b, "samples-repeat")
    r.seen(["seeds", i])


def sec_threads(r, rng, i):
    """Simulations in concurrent threads give what they give alone."""
    jobs = []
    for _ in range(4):
        n = rng.randint(2, 6)
        prog = random_prog(rng, n, 3, 10)
        c = gen.build(rng, prog, n, 3)
        seed = rng.getrandbits(32)
        jobs.append((c, seed))
    alone = []
    for c, seed in jobs:
        set_bits(c, [None] * 3)
        simulate(c, rng_seed=seed)
        alone.append(result(c, False))
    bad = []
    old = _sys.getswitchinterval()
    _sys.setswitchinterval(1e-5)

    def work(k):
        c, seed = jobs[k]
        try:
            for _ in range(6):
                set_bits(c, [None] * 3)
                simulate(c, rng_seed=seed)
                if result(c, False) != alone[k]:
                    bad.append(k)
        except Exception as e:
            bad.append(repr(e))
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(jobs))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        _sys.setswitchinterval(old)
    r.check(not bad, "threads-interfere", f"{bad}")
    r.event("threads", len(jobs))
    r.event("runs", 24)
    r.seen(["threads", i])


CODE = """
import sys, random, warnings, hashlib
warnings.simplefilter("ignore")
sys.path[:0] = [{lib!r}]
import importlib.util
spec = importlib.util.spec_from_file_location("c18", {file!r})
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
print(m.digest({seed}))
"""


def digest(seed):
    """Digest of the results of some simulations, all determined by the seed."""
    rng = random.Random(seed)
    h = hashlib.sha256()
    for _ in range(6):
        n = rng.randint(1, 4)
        prog = random_prog(rng, n, 3, 8)
        c = gen.build(rng, prog, n, 3)
        set_bits(c, [rng.choice([None, 0, 1]) for _ in range(3)])
        simulate(c, rng_seed=rng.getrandbits(40))
        res = result(c, False)
        h.update(res[0])
        h.update(repr(res[1]).encode())
        for x in res[2]:
            h.update(b"-" if x is None else x)
    return h.hexdigest()


def sec_process(r, rng, i):
    """The same in a fresh process with other hash seeds."""
    seed = rng.getrandbits(32)
    here = digest(seed)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000)))
    lib = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")
    p = subprocess.run([_sys.executable, "-c", CODE.format(lib=lib, file=os.path.abspath(__file__), seed=seed)], env=env,
                       capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    r.check(p.stdout.split()[-1] == here, "process-differs", f"seed {seed}")
    r.event("processes")
    r.event("repeated_runs")
    r.seen(["process", i])


warnings.simplefilter("ignore")
SECTIONS = [
    ("schedule", sec_schedule, 500, 25000),
    ("seeds", sec_seeds, 24, 300),
    ("threads", sec_threads, 30, 600),
    ("process", sec_process, 6, 60),
]
