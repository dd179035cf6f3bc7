"""C20: the generator of the simulator's kernels."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C20"
RULE = ("batches of randomly specified kernels (targets, controls, masks, precompiled real, complex, integer, sparse and identity-like "
        "matrices, norm collection) and Kraus operator sets, generated by the package, compiled with UBSan and run from "
        "Python on random states inside guard regions for both index conventions and many qubit placements, every amplitude compared with a "
        "dense reference; wide states of up to 40 qubits with most qubits as controls in sparse memory; incomplete "
        "sets offered for refusal; distinct by (specification, placement, convention), non-trivial unless the operator "
        "is the identity")
ASSUMPTIONS = ["operator sets with controls are judged on states on which all controls are one",
               "at least one target; matrices are passed contiguously, as the simulator does",
               "uniform random values within 1e-9 of a cumulative probability are not used"]
REQUIRED = ["kernels_compiled", "kernel_runs", "masked", "precompiled", "precompiled_complex", "precompiled_integer",
            "with_controls", "norms_collected", "sets_compiled", "set_runs", "set_applied", "set_not_applied", "sets_refused",
            "little", "big", "guards_checked", "every_operator_chosen"]
SCALE = 1
BUDGET = {"quick": 240, "thorough": 600}
TRACE = True

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import importlib.util
import itertools
import math
import mmap
import re
import shutil
import subprocess
import sysconfig
import tempfile
import warnings

import numpy as np

from dwave.gate.simulator import operation_generation as og
import ref

HEAD_C = "#include <complex>\n#include <complex.h>\n#include <algorithm>\n#include <cstdint>\n"


def header():
    """The preamble that the generator's own main program writes, so that kernels are compiled like there."""
    return HEAD_C


def compile_module(items, sets, name, flags):
    """Compiles the kernels into an extension module; returns (module, error)."""
    d = tempfile.mkdtemp(prefix="c20-")
    try:
        with open(os.path.join(d, "ops.h"), "w") as f:
            f.write(header())
            for _, info in items + sets:
                f.write(str(info.function_definition) + "\n\n")
        src = ["# distutils: language = c++", "# cython: language_level=3", "cimport numpy as np",
               "from libc.stdint cimport uint64_t", "import numpy as np", "import warnings", 'cdef extern from "./ops.h" nogil:']
        for _, info in items + sets:
            src.append(info.cython_header)
        for _, info in items + sets:
            src.append(info.cython_function)
        for s, info in items:
            q = [f"target{k}" for k in range(s["nt"])] + [f"control{k}" for k in range(s["nc"])]
            src.append(f"def py_{s['name']}(uint64_t n, complex[::1] state, complex[:,:] gate, "
                       + ", ".join(f"uint64_t {x}" for x in q) + f", little_endian):\n    return {s['name']}(n, state, gate, "
                       + ", ".join(q) + ", little_endian=little_endian)\n")
        for s, info in sets:
            q = [f"target{k}" for k in range(s["nt"])] + [f"control{k}" for k in range(s["nc"])]
            src.append(f"def py_{s['name']}(uint64_t n, complex[::1] state, "
                       + ", ".join(f"uint64_t {x}" for x in q) + f", rng, little_endian, apply):\n    return {s['name']}(n, state, "
                       + ", ".join(q) + ", rng, little_endian=little_endian, apply_operator=apply)\n")
        pyx = os.path.join(d, name + ".pyx")
        open(pyx, "w").write("\n".join(src))
        p = subprocess.run([sys.executable, "-m", "cython", "--cplus", "-3", pyx], capture_output=True, text=True, cwd=d, timeout=300)
        if p.returncode:
            return None, "cython: " + (p.stdout + p.stderr)[-1500:]
        so = os.path.join(d, name + ".so")
        inc = [f"-I{sysconfig.get_path('include')}", f"-I{np.get_include()}", f"-I{d}"]
        p = subprocess.run(["g++", "-shared", "-fPIC", "-std=c++17", "-w", *flags, *inc, os.path.join(d, name + ".cpp"), "-o", so],
                           capture_output=True, text=True, cwd=d, timeout=300)
        if p.returncode:
            err = p.stderr
            m = re.search(r"error:.*", err)
            return None, "g++: " + err[max(0, (m.start() if m else 0) - 300):][:1500]
        spec = importlib.util.spec_from_file_location(name, so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        return mod, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ specifications

def rand_matrix(rng, nprng, d):
    """A matrix to precompile, and its kind."""
    x = rng.random()
    if x < 0.15:
        return ref.random_unitary(nprng, d), "complex"
    if x < 0.3:  # permutation-like, integers
        m = np.zeros((d, d), dtype=rng.choice([int, np.int8, np.int64]))
        for a, b in enumerate(rng.sample(range(d), d)):
            m[a, b] = rng.choice([1, -1, 1])
        return m, "integer"
    if x < 0.42:  # diagonal phases
        return np.diag(rng.choice([np.exp(1j * nprng.uniform(0, 7, d)), np.array([rng.choice([1, -1, 1j, -1j]) for _ in range(d)])])), "complex"
    if x < 0.55:  # partly identity
        m = np.eye(d, dtype=rng.choice([float, complex, int]))
        k = rng.randrange(d)
        m[k, rng.randrange(d)] = rng.choice([0, 2, -1, 1])
        return m, "integer" if m.dtype == int else "real" if m.dtype == float else "complex"
    if x < 0.7:  # sparse, also with rows of zeros
        m = nprng.normal(size=(d, d)) * (nprng.random((d, d)) < 0.35)
        return m, "real"
    if x < 0.8:
        return nprng.normal(size=(d, d)).astype(np.float32), "real"
    if x < 0.88:
        m = (nprng.normal(size=(d, d)) + 1j * nprng.normal(size=(d, d))) * (nprng.random((d, d)) < 0.5)
        return m.astype(rng.choice([complex, np.complex64])), "complex"
    if x < 0.91:  # entries of very different size, all of which count
        m = np.eye(d) * rng.choice([1, 1e-9, 1e-12]) + nprng.normal(size=(d, d)) * 10.0 ** nprng.choice([-15, -12, -9, -6], size=(d, d))
        return (m, "real") if rng.random() < 0.5 else (m * np.exp(1j * nprng.uniform(0, 7, (d, d))), "complex")
    if x < 0.95:  # numbers that need all digits or an exponent
        return nprng.normal(size=(d, d)) * 10.0 ** nprng.integers(-20, 8, size=(d, d)), "real"
    return np.linalg.qr(nprng.normal(size=(d, d)))[0], "real"


def simple_matrix(rng, d):
    """Entries that generators treat specially, and those that are nearly the same."""
    m = np.eye(d, dtype=complex) if rng.random() < 0.5 else np.zeros((d, d), dtype=complex)
    for _ in range(rng.randint(1, 2 * d)):
        m[rng.randrange(d), rng.randrange(d)] = rng.choice([0, 1, -1, 2, -2, 0.5, 3, 1 + 1e-9, 1 - 1e-12])
    m[rng.randrange(d), :] *= rng.choice([1, 2, 0])
    if rng.random() < 0.5:
        return m.real.copy(), "real"
    k = rng.randrange(d)
    m[k, k] = rng.choice([1j, -1j, 1 + 1j, 1 - 2j, 1 + 1e-9j, 2j])
    return m, "complex"


def kernel_spec(r, rng, nprng, k):
    if k == 0:  # one large kernel in each batch
        nt, nc = rng.choice([4, 4, 4, 5]), rng.choice([0, 1])
        r.event("large_kernels")
    else:
        nt = rng.choice([1, 1, 1, 2, 2, 3])
        nc = rng.choice([0, 0, 1, 1, 2, 3])
    d = 2 ** nt
    s = dict(name=f"ker{k}", nt=nt, nc=nc, kind="plain", matrix=None, mask=None, norm=False)
    kw = {}
    x = rng.random()
    if x < 0.55 or k == 1:
        m, kind = rand_matrix(rng, nprng, d) if k != 1 else simple_matrix(rng, d)
        s.update(kind=kind, matrix=m)
        kw["precompile_gate"] = m
        r.event("precompiled")
        r.event(f"precompiled_{kind}")
    elif x < 0.8:
        mask = (nprng.random((d, d)) < rng.choice([0.3, 0.6, 0.9])).astype(rng.choice([int, bool, float]))
        s.update(kind="masked", mask=mask)
        kw["sparse_gate_mask"] = mask
        r.event("masked")
    if rng.random() < 0.2:
        s["norm"] = True
        kw["collect_norm"] = True
    s["desc"] = [nt, nc, s["kind"], s["norm"], None if s["matrix"] is None else np.round(np.asarray(s["matrix"], dtype=complex), 6).tolist(),
                 None if s["mask"] is None else np.asarray(s["mask"]).astype(int).tolist()]
    return s, og.generate_op(s["name"], nt, nc, **kw)


def kraus(rng, nprng, d):
    """A complete set of operators of some kind."""
    x = rng.random()
    if x < 0.25:  # projectors
        parts = [rng.randrange(rng.randint(1, d) + 1) for _ in range(d)]
        out = []
        for p in sorted(set(parts)):
            out.append(np.diag([1.0 if q == p else 0.0 for q in parts]))
        return out
    k = rng.randint(1, 4)
    if x < 0.5:  # mixtures of unitaries
        w = nprng.random(k) + 0.05
        w /= w.sum()
        return [np.sqrt(p) * ref.random_unitary(nprng, d) for p in w]
    if x < 0.6:  # with operators of probability zero
        u = np.linalg.qr(nprng.normal(size=(d, d)))[0]
        out = [np.zeros((d, d)), u]
        return out if rng.random() < 0.5 else out + [np.zeros((d, d))]
    if x < 0.7:
        e = rng.uniform(0.05, 0.9)
        a = np.eye(d)
        a[-1, -1] = math.sqrt(1 - e)
        b = np.zeros((d, d))
        b[0, -1] = math.sqrt(e)
        return [a, b]
    a = nprng.normal(size=(k * d, d)) + (1j * nprng.normal(size=(k * d, d)) if rng.random() < 0.6 else 0)
    q = np.linalg.qr(a)[0]
    return [q[j * d:(j + 1) * d] for j in range(k)]


def set_spec(r, rng, nprng, k):
    nt = rng.choice([1, 1, 2]) if k else rng.choice([1, 2, 3])
    nc = rng.choice([0, 0, 0, 1, 2])
    s = dict(name=f"set{k}", nt=nt, nc=nc, ops=kraus(rng, nprng, 2 ** nt))
    s["desc"] = [nt, nc] + [np.round(np.asarray(m, dtype=complex), 6).tolist() for m in s["ops"]]
    return s, og.generate_op_set(s["name"], nt, nc, s["ops"])


# ------------------------------------------------------------------ reference

def positions(n, qubits, little):
    """Bit positions in the state index."""
    return [q if little else n - 1 - q for q in qubits]


def apply_reference(v, n, m, tpos, cpos, inplace_rows=None):
    """Applies ``m`` on the bits tpos (first one least significant) where the bits cpos are all one."""
    out = v.copy()
    idx = np.arange(2 ** n)
    sel = np.ones(2 ** n, dtype=bool)
    for p in cpos:
        sel &= (idx >> p) & 1 == 1
    for p in tpos:
        sel &= (idx >> p) & 1 == 0
    base = idx[sel]
    offs = [sum(((s >> k) & 1) << p for k, p in enumerate(tpos)) for s in range(len(m))]
    sub = np.stack([v[base + o] for o in offs])
    res = np.asarray(m, dtype=complex) @ sub
    for s, o in enumerate(offs):
        out[base + o] = res[s]
    return out, float(np.sum(np.abs(res) ** 2))


PAD = 64
GUARD = complex(1.5e300, -2.5e300)


class Guarded:
    def __init__(self, v):
        self.buf = np.full(len(v) + 2 * PAD, GUARD, dtype=complex)
        self.v = self.buf[PAD:-PAD]
        self.v[:] = v

    def intact(self):
        return bool(np.all(self.buf[:PAD] == GUARD) and np.all(self.buf[-PAD:] == GUARD))


def rand_state(rng, nprng, n):
    x = rng.random()
    if x < 0.2:
        v = np.zeros(2 ** n, dtype=complex)
        v[rng.randrange(2 ** n)] = np.exp(1j * rng.uniform(0, 7))
        return v
    return ref.random_state(nprng, n)


class U:
    """Gives chosen uniform values."""

    def __init__(self, u):
        self.u, self.n = u, 0

    def uniform(self, *a):
        self.n += 1
        return self.u

    random = random_sample = uniform


def run_kernel(r, rng, nprng, mod, s, runs):
    fn = getattr(mod, "py_" + s["name"])
    nt, nc, d = s["nt"], s["nc"], 2 ** s["nt"]
    for _ in range(runs):
        n = rng.randint(nt + nc, max(nt + nc, 7))
        qs = rng.sample(range(n), nt + nc)
        little = rng.random() < 0.5
        v = rand_state(rng, nprng, n)
        if rng.random() < 0.2:
            v = v * rng.choice([0.5, 3.0])  # linear, whatever the norm
        if s["matrix"] is not None:
            m = np.asarray(s["matrix"], dtype=complex)
            given = rng.choice([np.full((d, d), np.nan + 0j), np.eye(d, dtype=complex)])  # is not read
        else:
            given = ref.random_unitary(nprng, d) if rng.random() < 0.5 else nprng.normal(size=(d, d)) + 1j * nprng.normal(size=(d, d))
            if rng.random() < 0.2:
                given = np.eye(d, dtype=complex)
            m = given
            if s["mask"] is not None:
                m = np.where(np.asarray(s["mask"]) != 0, given, 0)
                given = np.where(np.asarray(s["mask"]) != 0, given, rng.choice([given, np.full((d, d), 3 + 4j)]))
        given = np.ascontiguousarray(given, dtype=complex)
        keep = given.copy()
        g = Guarded(v)
        res = fn(n, g.v, given, *qs, little)
        pos = positions(n, qs, little)
        out, norm = apply_reference(v, n, m, pos[:nt], pos[nt:])
        what = f"{s['desc']} on {qs} of {n}, {'little' if little else 'big'}"
        r.seen(["kernel", s["desc"], qs, n, little], not np.array_equal(m, np.eye(d)))
        if s["norm"]:
            r.check(np.array_equal(g.v, v), "norm-changes-state", what)
            r.check(isinstance(res, float) and abs(res - norm) <= 1e-9 * max(1, abs(norm)), "norm", f"{res} instead of {norm}: {what}")
            r.event("norms_collected")
        else:
            r.check(res is None, "kernel-result")
            bound, _ = apply_reference(np.abs(v).astype(complex), n, np.abs(m), pos[:nt], pos[nt:])
            r.check(bool(np.all(np.abs(g.v - out) <= 1e-13 * bound.real)), "kernel-state",
                    f"{what}: {np.round(g.v, 4)[:16]} instead of {np.round(out, 4)[:16]}")
            untouched = np.ones(2 ** n, dtype=bool)
            idx = np.arange(2 ** n)
            if nc:
                for p in pos[nt:]:
                    untouched &= (idx >> p) & 1 == 1
                r.check(np.array_equal(g.v[~untouched], v[~untouched]), "uncontrolled-amplitudes-touched", what)
                r.event("with_controls")
        r.check(g.intact(), "wrote-outside-state", what)
        r.check(np.array_equal(given, keep, equal_nan=True), "matrix-changed", what)
        r.event("guards_checked")
        r.event("kernel_runs")
        r.event("little" if little else "big")


def run_set(r, rng, nprng, mod, s, runs):
    fn = getattr(mod, "py_" + s["name"])
    nt, nc = s["nt"], s["nc"]
    chosen = set()
    for _ in range(runs):
        n = rng.randint(nt + nc, max(nt + nc, 5))
        qs = rng.sample(range(n), nt + nc)
        little = rng.random() < 0.5
        pos = positions(n, qs, little)
        v = rand_state(rng, nprng, n)
        if nc:
            idx = np.arange(2 ** n)
            for p in pos[nt:]:
                v[(idx >> p) & 1 == 0] = 0
            if np.linalg.norm(v) < 1e-6:
                v[-1] = 1
            v /= np.linalg.norm(v)
        outs = [apply_reference(v, n, m, pos[:nt], pos[nt:]) for m in s["ops"]]
        probs = [p for _, p in outs]
        cum = np.cumsum(probs)
        if abs(cum[-1] - 1) > 1e-9:
            raise RuntimeError(f"reference probabilities {probs}")
        us = [rng.random() for _ in range(2)] + [0.0]
        for k, c in enumerate(cum):
            for e in (1e-6, 1e-8):
                us += [c - e, c + e]
        for u in us:
            if not 0 <= u < 1 - 1e-9 or min(abs(u - c) for c in [*cum, -1] if c > 0) < 1e-9:
                continue
            want = next((k for k, c in enumerate(cum) if u < c), None)
            if want is None or probs[want] < 1e-12:
                continue
            apply = rng.random() < 0.7
            g = Guarded(v)
            gen = U(u)
            got = fn(n, g.v, *qs, gen, little, apply)
            what = f"{s['desc']} on {qs} of {n}, {'little' if little else 'big'}, u={u!r}, probabilities {probs}"
            r.check(got == want, "operator-chosen", f"{got} instead of {want}: {what}")
            r.check(gen.n == 1, "draws", f"{gen.n} draws")
            exp = outs[want][0] / math.sqrt(probs[want]) if apply else v
            r.check(bool(np.all(np.abs(g.v - exp) <= 1e-9 / math.sqrt(probs[want]))), "set-state",
                    f"{what}: {np.round(g.v, 4)[:16]} instead of {np.round(exp, 4)[:16]}")
            r.check(g.intact(), "wrote-outside-state", what)
            r.event("set_applied" if apply else "set_not_applied")
            r.event("set_runs")
            r.event("guards_checked")
            chosen.add(want)
            r.seen(["set", s["desc"], qs, n, little, want, apply])
    r.event("every_operator_chosen", len(chosen) == len(s["ops"]))


def sec_batch(r, rng, i):
    """One compiled batch of kernels and operator sets."""
    nprng = np.random.default_rng(rng.getrandbits(63))
    items = [kernel_spec(r, rng, nprng, k) for k in range(14)]
    sets = [set_spec(r, rng, nprng, k) for k in range(5)]
    # refused: sets that are not complete
    for _ in range(10):
        nt = rng.choice([1, 1, 2])
        d = 2 ** nt
        ops = kraus(rng, nprng, d)
        x = rng.randrange(5)
        if x == 0:
            ops = [m * rng.choice([1.01, 0.98, 1.1, 0.5, 2]) for m in ops]
        elif x == 1:
            k = rng.randrange(len(ops))
            if np.linalg.norm(ops[k]) < 1e-6:
                continue
            ops = ops[:k] + ops[k + 1:] or [np.zeros((d, d))]
        elif x == 2:
            ops = ops + [np.eye(d) * 0.3]
        elif x == 3:
            k = rng.randrange(len(ops))
            m = np.array(ops[k], dtype=complex)
            a, b = rng.randrange(d), rng.randrange(d)
            m[a, b] += rng.choice([0.3, -0.4j, 1])
            ops = list(ops)
            ops[k] = m
            s = sum(np.conj(o).T @ o for o in ops)
            if np.max(np.abs(s - np.eye(d))) < 1e-3:
                continue
        else:  # the adjoints are complete, but not the operators
            a = np.array([[1, 0], [0, 0]]), np.array([[0, 0], [1, 0]])
            nt, ops = 1, [a[0], a[1]] if rng.random() < 0.5 else [a[0]]
        r.raises(ValueError, lambda: og.generate_op_set("bad", nt, 0, ops), "incomplete-set", f"{[np.round(m, 3).tolist() for m in ops]}")
        r.event("sets_refused")
    flags = ["-O0" if i % 6 else "-O2", "-fsanitize=undefined", "-fno-sanitize-recover=all"]
    mod, err = compile_module(items, sets, f"kernels_{os.getpid()}_{i}", flags)
    if err:  # which one?
        for it in [(x, None) for x in items] + [(None, x) for x in sets]:
            m2, e2 = compile_module([it[0]] if it[0] else [], [it[1]] if it[1] else [], f"single_{os.getpid()}_{i}_{id(it)}", ["-O0"])
            if e2:
                s = (it[0] or it[1])[0]
                r.seen(["compile", s["desc"]])
                r.check(False, "generated-code-does-not-compile", f"{s['desc']}: {e2}")
        raise RuntimeError(err)
    r.event("kernels_compiled", len(items))
    r.event("sets_compiled", len(sets))
    for s, _ in items:
        run_kernel(r, rng, nprng, mod, s, 12)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s, _ in sets:
            run_set(r, rng, nprng, mod, s, 5)


def sparse_state(n):
    """All-zero state of n qubits in memory that is only backed where touched."""
    buf = mmap.mmap(-1, 16 << n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | getattr(mmap, "MAP_NORESERVE", 0x4000))
    return buf, np.frombuffer(buf, dtype=complex)


def sec_wide(r, rng, i):
    """States of 30 and more qubits, most of them controls."""
    nprng = np.random.default_rng(rng.getrandbits(63))
    nt = rng.choice([1, 2])
    n = [31, 32, 33, 34][i % 4]
    nc = n - nt - rng.randint(0, 3)
    s = dict(name=f"wide{i}", nt=nt, nc=nc)
    d = 2 ** nt
    pre = rng.random() < 0.3
    m = ref.random_unitary(nprng, d)
    kw = dict(precompile_gate=m) if pre else {}
    mod, err = compile_module([(s, og.generate_op(s["name"], nt, nc, **kw))], [], f"wide_{os.getpid()}_{i}",
                              ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"])
    if err:
        r.check(False, "generated-code-does-not-compile", err)
    try:
        buf, v = sparse_state(n)
    except (OSError, ValueError, MemoryError):
        r.event("wide_not_possible")
        return
    fn = getattr(mod, "py_" + s["name"])
    for _ in range(3):
        qs = rng.sample(range(n), nt + nc)
        little = rng.random() < 0.5
        pos = positions(n, qs, little)
        free = [p for p in range(n) if p not in pos]
        cmask = sum(1 << p for p in pos[nt:])
        subs = []   # groups of d indices
        for bits in itertools.product((0, 1), repeat=len(free)):
            base = cmask | sum(b << p for b, p in zip(bits, free))
            subs.append([base + sum(((x >> k) & 1) << p for k, p in enumerate(pos[:nt])) for x in range(d)])
        other = {rng.randrange(2 ** n) for _ in range(20)} | {cmask & ~(1 << p) for p in pos[nt:]}
        other |= {0, 2 ** n - 1, 2 ** 31 % 2 ** n, 2 ** 30}
        other -= {x for g in subs for x in g}
        val = {x: complex(rng.gauss(0, 1), rng.gauss(0, 1)) for g in subs for x in g}
        val.update({x: complex(rng.gauss(0, 1), rng.gauss(0, 1)) for x in other})
        for x, a in val.items():
            v[x] = a
        fn(n, v, m, *qs, little)
        what = f"{nt} targets, {nc} controls of {n}, {qs}, {'little' if little else 'big'}"
        for g in subs:
            e = m @ np.array([val[x] for x in g])
            got = np.array([v[x] for x in g])
            r.check(bool(np.all(np.abs(e - got) < 1e-9)), "wide-kernel-state", f"{what}: {got} instead of {e}")
        for x in other:
            r.check(v[x] == val[x], "wide-kernel-touches-other", f"{what}: {x}")
        for x in val:
            v[x] = 0
        r.event("wide_runs")
        r.event("kernel_runs")
        r.seen(["wide", n, nt, nc, qs, little, pre])
    del v


SECTIONS = [
    ("batch", sec_batch, 12, 150),
    ("wide", sec_wide, 6, 60),
]
