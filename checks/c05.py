"""C05: memory safety of the compiled code under AddressSanitizer and UBSan."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C05"
RULE = ("the extensions built with -fsanitize=address,undefined (any report aborts), driven with valid, boundary "
        "and hostile arguments: states of every length, type, layout and alignment, qubit indices of every kind, "
        "operations with hostile matrices and qubits, registers used re-entrantly, half-initialized or unpickled; "
        "guard zones around caller arrays and reference counts of register items are compared; distinct by call, "
        "non-trivial when compiled code was entered with an argument outside ordinary use")
ASSUMPTIONS = ["redzones: an access that lands in another live object is only seen through its effect",
               "arrays are not reallocated behind numpy's back while a call uses them (resize with refcheck=False)",
               "the internal state handed to __setstate_cython__ has a non-negative length",
               "a report in code of numpy or CPython would also be raised, none occurs on the present tree"]
REQUIRED = ["sampled", "refused_with_exception", "guard_zones_checked", "kernel_simulations", "hostile_calls",
            "refcounts_checked", "register_hostile_calls"]
SCALE = 3
BUDGET = {"quick": 240, "thorough": 540}
TRACE = True
BUILD = dict(flags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined",
             ldflags="-fsanitize=address,undefined")


def _lib(name):
    return subprocess.run(["gcc", f"-print-file-name={name}"], capture_output=True, text=True).stdout.strip()


CHILD_ENV = {"LD_PRELOAD": f"{_lib('libasan.so')} {_lib('libubsan.so')}", "PYTHONMALLOC": "malloc",
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1500:"
                             "detect_stack_use_after_return=1:strict_string_checks=1",
             "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1"}

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import gc
import weakref

import numpy as np

import gen
import ref
from harness import Inconclusive
import dwave.gate.operations as ops
from dwave.gate import Circuit, ParametricCircuit
from dwave.gate.mixedproperty import mixedproperty
from dwave.gate.operations.base import ControlledOperation, Operation
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers.cyregister import cyRegister
from dwave.gate.registers.registers import ClassicalRegister, QuantumRegister, Register, SelfIncrementingRegister
from dwave.gate.simulator import simulate
from dwave.gate.simulator.simulator import sample_qubit

SENTINEL = 1234.5 - 987.25j


def loaded():
    maps = open("/proc/self/maps").read()
    return "libasan" in maps


class Guarded:
    """A complex array inside a larger buffer with sentinels on both sides."""

    def __init__(self, values, pad=64):
        values = np.asarray(values, dtype=np.complex128)
        self.n, self.pad = len(values), pad
        self.buf = np.full(self.n + 2 * pad, SENTINEL, dtype=np.complex128)
        self.buf[pad:pad + self.n] = values
        self.view = self.buf[pad:pad + self.n]

    def intact(self):
        return bool((self.buf[:self.pad] == SENTINEL).all() and (self.buf[self.pad + self.n:] == SENTINEL).all())


def state_of(rng, length):
    z = np.random.default_rng(rng.getrandbits(60)).normal(size=(length, 2)).view(np.complex128).reshape(-1)
    nrm = np.linalg.norm(z)
    return z / nrm if nrm else z


class EvilIndex:
    def __init__(self, seq):
        self.seq = list(seq)

    def __index__(self):
        return self.seq.pop(0) if len(self.seq) > 1 else self.seq[0]

    def _cmp(self, o):
        return True
    __le__ = __ge__ = __lt__ = __gt__ = _cmp


class EvilInt(int):
    def __le__(self, o): return True
    def __lt__(self, o): return True
    def __ge__(self, o): return True
    def __gt__(self, o): return True


class LyingArray(np.ndarray):
    def __len__(self):
        return 1 << 20

    @property
    def shape(self):
        return (1 << 20,)


class EvilRng:
    def __init__(self, u):
        self.u = u

    def uniform(self, *a, **k):
        return self.u() if callable(self.u) else self.u

    random = random_sample = uniform


LENGTHS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 96, 100, 127, 128, 129, 255, 256,
           1000, 1023, 1024]


def sec_sample_grid(r, rng, i):
    """Every length with every index around its range, in a guarded and in an exact allocation."""
    if i == 0 and not loaded():
        raise Inconclusive("the sanitizer runtime is not loaded")
    length = LENGTHS[i % len(LENGTHS)]
    valid = length >= 2 and length & (length - 1) == 0
    n = length.bit_length() - 1
    gnrg = np.random.default_rng(rng.getrandbits(60))
    idxs = list(range(-3, n + 4)) + [31, 32, 63, 64, 65, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64,
                                     2 ** 70, -2 ** 31, -2 ** 63, -2 ** 64]
    for q in idxs:
        for little in (False, True):
            for collapse in (False, True):
                vals = state_of(rng, length)
                if rng.random() < 0.5:
                    g = Guarded(vals)
                    arr = g.view
                else:
                    g, arr = None, vals.copy()
                r.seen(["sample", length, q, little, collapse], not (valid and 0 <= q < n))
                call = lambda: sample_qubit(q, arr, gnrg, collapse_state=collapse, little_endian=little)
                if valid and 0 <= q < n:
                    res = call()
                    r.check(res in (0, 1), "sample-value", f"{res!r}")
                    r.event("sampled")
                    if not collapse:
                        r.check((arr == vals).all(), "written-without-collapse")
                    else:
                        k = n - 1 - q if not little else q
                        keep = ((np.arange(length) >> k) & 1) == res
                        r.check((arr[~keep] == 0).all(), "collapse-footprint")
                else:
                    r.raises((ValueError, OverflowError, IndexError), call, "sample-refused",
                             f"length {length}, qubit {q}")
                    r.check((arr == vals).all(), "written-although-refused")
                if g is not None:
                    r.check(g.intact(), "guard-zone", f"length {length}, qubit {q}")
                    r.event("guard_zones_checked")


def odd_arrays(rng, n):
    """Arrays that are not plain complex vectors: (description, object)."""
    length = 1 << n
    base = state_of(rng, length)
    buf = np.zeros(16 * length + 16, dtype=np.uint8)
    mis = buf[rng.choice([1, 2, 3, 4, 5, 7]):][:16 * length].view(np.complex128)
    mis[...] = base
    ro = base.copy()
    ro.flags.writeable = False
    lying = base.copy().view(LyingArray)
    out = [("misaligned", mis), ("readonly", ro), ("lying", lying), ("reversed", base[::-1]),
           ("strided", np.repeat(base, 2)[::2]), ("matrix", np.outer(base, base)), ("column", base.reshape(-1, 1)),
           ("fortran", np.asfortranarray(np.outer(base, base))), ("c64", base.astype(np.complex64)),
           ("float", base.real.copy()), ("int", np.arange(length)), ("bool", np.ones(length, bool)),
           ("object", base.astype(object)), ("str", base.astype(str)), ("bigendian", base.astype(">c16")),
           ("longdouble", base.astype(np.clongdouble)), ("list", list(base)), ("tuple", tuple(base)),
           ("bytes", bytes(16 * length)), ("bytearray", bytearray(16 * length)), ("memoryview", memoryview(base.copy())),
           ("none", None), ("scalar", np.complex128(1)), ("zerodim", np.array(1j)), ("number", 3), ("text", "state"),
           ("nan", np.full(length, np.nan * 1j)), ("inf", np.full(length, np.inf + 0j)),
           ("zero", np.zeros(length, complex)), ("huge", np.full(length, 1e300 + 1e300j)),
           ("denormal", np.full(length, 5e-324 + 0j)), ("empty", np.zeros(0, complex)), ("dict", {}),
           ("struct", np.zeros(length, dtype=[("re", "f8"), ("im", "f8")])),
           ("broadcast", np.broadcast_to(np.complex128(1), (length,))),
           ("subarray", np.zeros((length, 3), complex)[:, 1]),
           ("masked", np.ma.array(base, mask=np.zeros(length, bool)))]
    return out


def sec_odd_states(r, rng, i):
    n = rng.randint(1, 7)
    pool = odd_arrays(rng, n)
    name, arr = pool[i % len(pool)]
    g = np.random.default_rng(rng.getrandbits(60))
    for q in (0, n - 1, n, -1, rng.randint(0, 40)):
        r.seen(["odd", name, n, q])
        try:
            before = np.array(arr, copy=True, subok=False) if isinstance(arr, np.ndarray) else None
            res = sample_qubit(q, arr, g, rng.random() < 0.5, rng.random() < 0.5)
            r.check(0 <= q < n and res in (0, 1), "odd-state-accepted", f"{name}: qubit {q} of {n} gave {res}")
            r.event("sampled")
        except (TypeError, ValueError, IndexError, BufferError, AttributeError, RuntimeError, OverflowError) as e:
            r.event("refused_with_exception")
            if before is not None and before.dtype.kind in "cfi":
                r.check(np.array_equal(np.asarray(arr), before, equal_nan=True), "written-although-refused", name)
        r.check(True, "odd-state")
        r.event("hostile_calls")


INDICES = [0.0, 0.5, 1.0, "0", b"0", None, (), [0], {}, 1j, True, False, np.int8(0), np.uint64(2 ** 63), np.float64(0),
           np.array(0), np.array([0]), np.array([0, 1]), object, Qubit("q"), Variable("v"), Bit("b"), float("nan"),
           float("inf"), 10 ** 30, -10 ** 30, lambda: 0]


def sec_odd_indices(r, rng, i):
    n = rng.randint(1, 6)
    g = Guarded(state_of(rng, 1 << n))
    evil = [EvilIndex([0, 50]), EvilIndex([50, 0]), EvilIndex([-1]), EvilInt(60), EvilInt(-5), EvilIndex([n])]
    q = rng.choice(INDICES + evil + evil)
    gr = np.random.default_rng(rng.getrandbits(60))
    r.seen(["index", repr(type(q)), str(q)[:20], n])
    try:
        res = sample_qubit(q, g.view, gr, little_endian=rng.random() < 0.5)
        r.check(res in (0, 1), "sample-value")
        r.event("sampled")
    except (TypeError, ValueError, IndexError, OverflowError):
        r.event("refused_with_exception")
    r.check(g.intact(), "guard-zone", f"{q!r}")
    r.event("guard_zones_checked")
    # the generator is an argument too
    u = rng.choice([None, "x", float("nan"), -1, 2, 1.0, 0.0, 1j, [], np.array([0.1, 0.9]), float("inf"), 10 ** 400,
                    lambda: 1 / 0, np.array(0.3)])
    try:
        sample_qubit(rng.randrange(n), g.view, rng.choice([EvilRng(u), u, None]))
    except (TypeError, ValueError, AttributeError, RuntimeError, ZeroDivisionError, OverflowError):
        r.event("refused_with_exception")
    r.check(g.intact(), "guard-zone", "generator")
    r.event("hostile_calls", 2)


def hostile_matrix(rng):
    u = ref.random_unitary(np.random.default_rng(rng.getrandbits(60)), 2)
    buf = np.zeros(80, dtype=np.uint8)
    mis = buf[1:65].view(np.complex128).reshape(2, 2)
    mis[...] = u
    ro = u.copy()
    ro.flags.writeable = False
    return rng.choice([
        ("transposed", u.T), ("misaligned", mis), ("readonly", ro), ("list", u.tolist()), ("real", u.real), ("int", [[0, 1], [1, 0]]),
        ("c64", u.astype(np.complex64)), ("bigendian", u.astype(">c16")), ("view", np.kron(u, np.ones((2, 2)))[::2, ::2]),
        ("none", None), ("scalar", 1.0), ("empty", np.zeros((0, 0))), ("row", np.zeros((1, 2))), ("two0", np.zeros((2, 0))),
        ("vec4", np.zeros(4, complex)), ("vec2", [1, 2]), ("1x1", [[1]]), ("3x3", np.eye(3)), ("4x4", np.eye(4)),
        ("2x2x2", np.zeros((2, 2, 2))), ("text", "matrix"), ("ragged", [[1], [1, 2]]), ("object", u.astype(object)),
        ("nan", np.full((2, 2), np.nan)), ("huge", np.full((2, 2), 1e308 + 1e308j)), ("stride0", np.broadcast_to(1.0 + 0j, (2, 2)))])


def hostile_op(r, rng, c):
    """An operation class whose matrix, controls or qubits are not what they should be."""
    name, m = hostile_matrix(rng)
    nq, nc = rng.randint(1, 4), rng.randint(0, 4)
    kind = rng.randrange(5)
    effect = rng.choice([None, None, None, "grow", "shrink", "recurse", "raise", "reset", "gc"])

    def act():
        if effect == "grow":
            c.add_qubit()
        elif effect == "shrink" and c.circuit:
            c.circuit.pop()
        elif effect == "recurse":
            simulate(Circuit(3))
        elif effect == "raise":
            raise KeyError("hostile")
        elif effect == "reset":
            c.reset(keep_registers=False)
        elif effect == "gc":
            gc.collect()

    if kind == 0:
        class H(Operation):
            _num_qubits = nq

            @mixedproperty
            def matrix(cls):
                act()
                return m
    elif kind == 1:
        class T(Operation):
            _num_qubits = 1

            @mixedproperty
            def matrix(cls):
                act()
                return m

        class H(ControlledOperation):
            _num_control = nc
            _num_target = max(1, nq - 1)
            _target_operation = T
    else:
        class H([ops.SWAP, ops.CSWAP, ops.CCX][kind - 2]):
            _num_qubits = nq

            @mixedproperty
            def matrix(cls):
                act()
                return m
    return (name, kind, nq, nc, effect), H


def sec_simulate_hostile(r, rng, i):
    n = rng.randint(1, 5)
    c = Circuit(n, n)
    prog = gen.program(rng, n, rng.randint(0, 4))
    desc = []
    for o in prog:
        c.append(gen.instantiate(o, c.qubits, rng))
    for _ in range(rng.randint(1, 3)):
        d, cls = hostile_op(r, rng, c)
        desc.append(d)
        need = d[2] if d[1] != 1 else d[3] + max(1, d[2] - 1)
        qs = [rng.choice(list(c.qubits)) for _ in range(need)]
        try:
            op = cls(qubits=qs) if d[1] != 1 else cls(qs[:d[3]], qs[d[3]:])
            if rng.random() < 0.2:
                op.qubits = qs[::-1]
            if rng.random() < 0.2:
                op.conditional(rng.choice([c.bits[0], list(c.bits)[:2], [], [0, 1], "ab"]))
            if rng.random() < 0.5:
                c.circuit.append(op)
            else:
                c.append(op)
        except (TypeError, ValueError, AttributeError, IndexError):
            r.event("refused_with_exception")
    if rng.random() < 0.3:
        m = ops.Measurement([rng.choice(list(c.qubits)) for _ in range(rng.randint(1, n + 1))])
        if rng.random() < 0.6:
            try:
                m | list(c.bits)
            except ValueError:
                pass
        c.append(m)
    for kw in (dict(), dict(little_endian=True), dict(mixed_state=True), dict(mixed_state=True, little_endian=True)):
        r.seen(["simulate", n, desc, sorted(kw), gen.describe(prog)])
        r.event("hostile_calls")
        try:
            simulate(c, **kw)
            r.event("kernel_simulations")
        except MemoryError:
            pass
        except Exception:
            r.event("refused_with_exception")
        r.check(True, "survived")


def sec_simulate_valid(r, rng, i):
    """Ordinary programs: kernel index arithmetic under the sanitizers, over all widths and placements."""
    n = rng.randint(1, 9)
    prog = gen.program(rng, n, rng.randint(1, 15))
    c = gen.build(rng, prog, n)
    simulate(c, little_endian=rng.random() < 0.5)
    r.check(abs(np.linalg.norm(c.state) - 1) < 1e-6, "norm")
    r.event("kernel_simulations")
    if n <= 4:
        simulate(c, mixed_state=True, little_endian=rng.random() < 0.5)
        r.event("kernel_simulations")
    if rng.random() < 0.5:
        c.unlock()
        c.bits  # cached before the register is added
        c.add_cregister(n)
        m = ops.Measurement(rng.sample(list(c.qubits), rng.randint(1, n)))
        if rng.random() < 0.8:
            m | list(c.bits)
        c.append(m)
        simulate(c)
        st = m.state
        k = len(m.qubits)
        for _ in range(3):
            qs = rng.choice([None, [rng.randrange(n)], [rng.randint(-2, n + 3) for _ in range(2)], [], [0.5], ["a"], 3,
                             np.array([0]), [10 ** 20], [EvilInt(77)], (x for x in [0])])
            try:
                m.sample(qs, num_samples=rng.choice([0, 1, 3]), as_bitstring=rng.random() < 0.5)
            except (TypeError, ValueError, IndexError, OverflowError):
                r.event("refused_with_exception")
            r.event("hostile_calls")
        r.check(m.state is st and len(st) == 2 ** n, "recorded-state")
        if rng.random() < 0.3:
            # the recorded state reshaped or shortened by its owner
            act = rng.choice(["resize", "shape", "grow"])
            try:
                if act == "resize":
                    st.resize((2 ** n - 1,), refcheck=False)
                elif act == "grow":
                    st.resize((2 ** n + 1,), refcheck=False)
                else:
                    st.shape = (2, 2 ** (n - 1))
                m.sample()
                m.expval(num_samples=2)
            except (TypeError, ValueError, IndexError):
                r.event("refused_with_exception")
            r.event("hostile_calls")
    r.seen(["valid", n, gen.describe(prog)], n > 1)


def sec_resized(r, rng, i):
    """One circuit simulated again and again while its number of qubits changes in between."""
    c = gen.make_circuit(rng, rng.randint(1, 4))
    sizes = []
    for _ in range(rng.randint(2, 6)):
        n = c.num_qubits
        kw = dict(little_endian=rng.random() < 0.5, mixed_state=n <= 5 and rng.random() < 0.3)
        simulate(c, **kw)
        r.event("kernel_simulations")
        st = c.density_matrix if kw["mixed_state"] else c.state
        r.check(st.size == 2 ** (n * st.ndim), "resized-state-size", f"{n} {st.shape}")
        sizes.append([n, sorted(kw.items())])
        x = rng.random()
        if x < 0.5:
            for _ in range(rng.randint(1, 3)):
                c.add_qubit()
        elif x < 0.7:
            c.add_qregister(rng.randint(0, 3))
        elif x < 0.8:
            c.reset(keep_registers=False)
            c.add_qregister(rng.randint(1, 4))
        else:
            c.reset()
        c.unlock()
        for o in gen.program(rng, c.num_qubits, rng.randint(0, 4)):
            c.append(gen.instantiate(o, c.qubits, rng))
        if c.num_qubits > 9:
            break
    r.event("resized_circuits")
    r.seen(["resized", sizes])


def sec_lifetimes(r, rng, i):
    """Results outlive circuits; circuits are dropped, reused and collected in between."""
    keep = []
    for _ in range(rng.randint(3, 8)):
        n = rng.randint(1, 8)
        c = gen.build(rng, gen.program(rng, n, 5), n)
        simulate(c)
        keep.append((c.state, c.state.copy(), weakref.ref(c)))
        if rng.random() < 0.5:
            keep.append((c.density_matrix, c.density_matrix.copy(), weakref.ref(c))) if n < 6 else None
        if rng.random() < 0.5:
            simulate(c)
        if rng.random() < 0.3:
            c.reset(keep_registers=rng.random() < 0.5)
        if rng.random() < 0.3:
            gc.collect()
        del c
    gc.collect()
    for st, cp, w in keep:
        r.check((st == cp).all(), "returned-array-changed")
    r.event("kernel_simulations", len(keep))
    r.seen(["lifetimes", len(keep), [len(x[0]) for x in keep]])


class Evil:
    """A register item whose hash and equality interfere with the register they are looked up in."""

    def __init__(self, key, act=None):
        self.key, self.act, self.depth, self.left = key, act, 0, 6

    def _do(self):
        # a lookup is restarted when it changes the dictionary, so interfere only a few times
        if self.act and self.depth < 1 and self.left > 0:
            self.depth += 1
            self.left -= 1
            try:
                self.act()
            finally:
                self.depth -= 1

    def __hash__(self):
        self._do()
        return hash(self.key) if self.key is not None else 7

    def __eq__(self, o):
        self._do()
        return isinstance(o, Evil) and o.key == self.key

    def __repr__(self):
        return f"Evil({self.key})"


def register_calls(reg, rng, items):
    v = rng.choice(items)
    k = rng.choice([0, 1, -1, 5, 2 ** 62, -2 ** 63, 2 ** 63, slice(None), slice(1, None, -1), slice(2 ** 62, None, 3), "a", None, 0.5])
    if isinstance(reg, SelfIncrementingRegister) and isinstance(k, int) and k > 50:
        k = 9  # it would grow to that size
    yield from [lambda: reg[k], lambda: reg.index(v), lambda: reg.count(v), lambda: v in reg, lambda: list(reg),
                lambda: len(reg), lambda: reg._append(v), lambda: reg._append(), lambda: reg._extend(items[:2]),
                lambda: reg._pop(), lambda: reg._remove(v), lambda: reg._relabel({v: rng.choice(items)}),
                lambda: reg._relabel_as_integers(), lambda: reg.copy(), lambda: reg.index(v, permissive=True),
                lambda: reg._is_range(), lambda: reg._clear(), lambda: reg.__init__(items[:3]), lambda: reg.__init__(reg),
                lambda: reg.__init__(range(-5)), lambda: reg.__init__(rng.choice([None, 3, "ab", [[]], range(2, 5), [None]])),
                lambda: reg.__reduce__(), lambda: iter(reg), lambda: next(iter(reg))]


def sec_register_hostile(r, rng, i):
    """Re-entrant, half-initialized and unpickled registers."""
    mode = i % 5
    items = ["a", "b", 0, 1, 2, (1,), 5, -1, 2 ** 70]
    cls = rng.choice([cyRegister, Register, QuantumRegister, SelfIncrementingRegister])
    if mode == 0:
        reg = cls.__new__(cls)  # never initialized
        if rng.random() < 0.5:
            reg = cyRegister.__new__(cls)
    else:
        reg = cls([x for x in rng.sample(items, rng.randint(0, 5))])
    if mode == 1:
        acts = [lambda: reg._clear(), lambda: reg._pop(), lambda: reg._append(rng.random()), lambda: reg.__init__([1, 2]),
                lambda: gc.collect(), lambda: list(reg), lambda: 1 / 0]
        for k in range(4):
            items.append(Evil(k, rng.choice(acts)))
        items.append(Evil(None, rng.choice(acts)))
        for e in items[-5:]:
            try:
                reg._append(e)
            except Exception:
                pass
    if mode == 2 and hasattr(reg, "__setstate_cython__"):
        st = rng.choice([({}, {}, 10), ({0: "x"}, {}, 3), ({}, {"x": 99}, 3), (None, None, 2), ([], [], 1),
                         ({5: "z"}, {"z": 5}, 1), ({}, {"a": "b"}, 2), ({}, {}, 100)])
        try:
            reg.__setstate_cython__(st)
        except Exception:
            pass
    calls = []
    for _ in range(12):
        gens = list(register_calls(reg, rng, items))
        fn = rng.choice(gens)
        calls.append(gens.index(fn))
        try:
            if mode == 3 and rng.random() < 0.5:  # mutated while iterated
                it = iter(reg)
                next(it, None)
                fn()
                for _ in range(20):
                    next(it, None)
            else:
                fn()
        except MemoryError:
            pass
        except Exception:
            r.event("refused_with_exception")
        r.event("register_hostile_calls")
        r.check(True, "survived")
    r.seen(["register", mode, cls.__name__, calls])


def sec_register_owned(r, rng, i):
    """Items that nothing but the register holds, looked up again after every change of the register."""
    cls = rng.choice([Register, cyRegister, QuantumRegister])
    serial = 0

    def new(k=None):
        nonlocal serial
        serial += 1
        kind = rng.random()
        if kind < 0.5:
            return f"item {serial} " + "x" * rng.randint(20, 60)
        if kind < 0.7:
            return (serial, float(serial), "t" * 30)
        if kind < 0.85 and k is not None:
            return k
        return 10 ** 6 + serial

    def text(z):
        return ("" if z is None else repr(z))
    content = []  # the texts of the items only, so that the register alone owns them
    reg = cls()

    def insert(k):
        for _ in range(3):
            y = new(k)
            if text(y) not in content:
                content.append(text(y))
                reg._append(y)
                return
    for k in range(rng.randint(1, 6)):
        insert(k)
    log = []
    others = []
    for _ in range(rng.randint(6, 16)):
        x = rng.randrange(9)
        log.append(x)
        n = len(content)
        if x == 0 and n:
            reg._pop()
            content.pop()
        elif x == 1 and n:
            k = rng.randrange(n)
            reg._remove(reg[k])
            del content[k]
        elif x == 2 and n:
            k = rng.randrange(n)
            y = f"label {serial} " + "y" * 40
            serial += 1
            reg._relabel({reg[k]: y})
            content[k] = text(y)
        elif x == 3 and n and rng.random() < 0.4:
            reg._relabel_as_integers()
            content = [text(k) for k in range(n)]
        elif x == 4 and rng.random() < 0.3:
            reg._clear()
            content = []
        elif x == 5 and rng.random() < 0.3:
            reg.__init__(f"init {serial} {k} " + "z" * 30 for k in range(rng.randint(0, 4)))
            content = [text(y) for y in reg]
        elif x == 6:
            others.append((reg.copy(), list(content)))
        elif x == 7 and n > 1:  # a permutation of the labels
            perm = rng.sample(range(n), n)
            reg._relabel({reg[k]: reg[perm[k]] for k in range(n)})
            content = [content[perm[k]] for k in range(n)]
        else:
            insert(len(content))
        for reg_, content_ in [(reg, content), *others[-2:]]:
            r.check(len(reg_) == len(content_), "owned:length", f"{len(reg_)} {content_}")
            for k in rng.sample(range(len(content_)), len(content_)) * 2:
                got = text(reg_[k if rng.random() < 0.7 else k - len(content_)])
                r.check(got == content_[k], "owned:item", f"[{k}] is {got}, not {content_[k]}")
            r.check([text(y) for y in reg_] == content_, "owned:iteration")
            r.event("owned_lookups", 3 * len(content_))
    r.seen(["owned", cls.__name__, log])


class Item:
    def __init__(self, k):
        self.k = k


def sec_refcounts(r, rng, i):
    """Register operations neither leak nor drop references to their items."""
    n = rng.randint(1, 12)
    items = [Item(k) for k in range(n)]
    refs = [weakref.ref(y) for y in items]
    cls = rng.choice([Register, cyRegister, QuantumRegister])
    reg = cls(items)
    probe = None
    gc.collect()
    base = [sys.getrefcount(x) for x in items]
    for _ in range(rng.randint(5, 60)):
        k = rng.randrange(-n, n)
        rng.choice([lambda: reg[k], lambda: reg.index(items[k]), lambda: items[k] in reg, lambda: list(reg), lambda: reg[::-1],
                    lambda: reg.copy(), lambda: reg.count(items[k]), lambda: [x for x in reg], lambda: reg[k:],
                    lambda: cls(reg)])()
        try:
            reg[rng.choice([n, -n - 1, "x", 2 ** 64])]
        except (IndexError, TypeError):
            pass
        try:
            reg._append(items[k])
        except ValueError:
            pass
    gc.collect()
    now = [sys.getrefcount(x) for x in items]
    r.check(now == base, "reference-counts", f"{base} became {now}")
    r.event("refcounts_checked", n)
    extra = Item(-1)
    w = weakref.ref(extra)
    reg._append(extra)
    c0 = sys.getrefcount(extra)
    reg._remove(extra) if rng.random() < 0.5 else reg._pop()
    r.check(sys.getrefcount(extra) < c0, "reference-kept-after-removal")
    del extra
    r.check(w() is None, "item-leaked")
    del reg, items, probe
    gc.collect()
    r.check(all(x() is None for x in refs), "items-leaked")
    r.seen(["refs", n, cls.__name__, base])


def sec_any_arguments(r, rng, i):
    """Every public entry point of the compiled modules with arguments of any type."""
    c = Circuit(2)
    junk = [None, 0, -1, 3.5, "s", b"b", [], {}, (), object(), c, Circuit(), ParametricCircuit(2), np.zeros(4), np.zeros((2, 2), complex),
            Qubit("q"), Bit("b"), ops.X, ops.X(c.qubits[0]), lambda *a, **k: 0, type, NotImplemented, np.random.default_rng(0)]
    class FakeCircuit:
        num_qubits = rng.choice([0, 1, 2, -1, 40, 2.5, None, "x"])
        circuit = rng.choice([[], [ops.X(c.qubits[0])], None, [None], [3]])
        qubits = rng.choice([c.qubits, [], None, [1, 2], Register(range(50))])

        def set_state(self, *a, **k):
            pass
    junk.append(FakeCircuit())
    fake2 = FakeCircuit()
    fake2.qubits = Register([Qubit("z")] * 0)
    fake2.circuit = [ops.X(Qubit("other"))]
    junk.append(fake2)
    # a circuit whose register is longer than it says
    fake3 = FakeCircuit()
    many = Circuit(30)
    fake3.num_qubits, fake3.qubits, fake3.circuit = 2, many.qubits, [ops.X(many.qubits[rng.randrange(2, 30)])]
    r.raises(Exception, lambda: simulate(fake3), "kernel-called-outside-state")
    for _ in range(10):
        a = [rng.choice(junk) for _ in range(4)]
        fn = rng.choice([lambda: simulate(a[0]), lambda: simulate(a[0], a[1], a[2]), lambda: simulate(a[0], rng_seed=a[1]),
                         lambda: sample_qubit(a[0], a[1], a[2]), lambda: sample_qubit(0, np.array([1, 0, 0, 0], complex), a[0], a[1], a[2]),
                         lambda: cyRegister(a[0]), lambda: Register(a[0]), lambda: cyRegister(range(3))[a[0]],
                         lambda: cyRegister([a[0], a[1]]).index(a[2]), lambda: cyRegister(["a"])._relabel(a[0])])
        try:
            fn()
        except MemoryError:
            pass
        except Exception:
            r.event("refused_with_exception")
        r.event("hostile_calls")
        r.check(True, "survived")
        r.seen(["any", [type(y).__name__ for y in a], i])


SECTIONS = [
    ("sample_grid", sec_sample_grid, 62, 620),
    ("odd_states", sec_odd_states, 222, 4000),
    ("odd_indices", sec_odd_indices, 300, 10000),
    ("simulate_hostile", sec_simulate_hostile, 700, 40000),
    ("simulate_valid", sec_simulate_valid, 300, 15000),
    ("resized", sec_resized, 150, 8000),
    ("lifetimes", sec_lifetimes, 40, 2000),
    ("register_hostile", sec_register_hostile, 500, 30000),
    ("register_owned", sec_register_owned, 300, 15000),
    ("refcounts", sec_refcounts, 120, 6000),
    ("any_arguments", sec_any_arguments, 150, 8000),
]
