"""C14: identities of qubits and bits, equality and hashing of primitives."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C14"
RULE = ("identifiers: recorded over bulk creation through every route (objects, registers, circuits, parametric "
        "circuits, threads), across the points where the counter refills and lengthens, and down to exhaustion for random batch sizes; "
        "primitives: random histories of labelling, setting, resetting and copying with every pairwise comparison "
        "and hash checked against a model after each step; distinct by case description, all are non-trivial")
ASSUMPTIONS = ["uniqueness is promised for one process and not across an explicit reset of the identifier counter",
               "threads are exercised within one identifier length (the library makes no promise of thread safety)"]
REQUIRED = ["identifiers", "refills", "length_changes", "exhausted", "pairs_compared", "forced_sets", "refused_sets",
            "threads", "copies", "circuit_identifiers", "refreshed_by_hand"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 500}
NEEDS_SIMULATOR = False

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import copy
import math
import pickle
import sys as _sys
import threading
import warnings

import numpy as np

from subprims import MyBit, MyQubit, MyVariable

from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers.registers import ClassicalRegister, QuantumRegister
from dwave.gate.tools.counters import IDCounter

ALPHA = 36


class Watch:
    """Counts refills and changes of length by watching the counter's public state."""

    def __init__(self):
        self.length = IDCounter.length
        self.refills = self.changes = 0
        self.size = len(IDCounter.id_set)

    def step(self):
        s = len(IDCounter.id_set)
        if s > self.size:
            self.refills += 1
        self.size = s
        if IDCounter.length != self.length:
            self.changes += 1
            self.length = IDCounter.length


def sec_bulk(r, rng, i):
    """Many objects created through every route, over the default counter or a shortened one."""
    if i % 3 == 0:
        IDCounter.reset()
        n = rng.choice([70000, 120000])
    else:
        IDCounter.reset(length=rng.choice([1, 2, 3, 4]), batch=rng.choice([1, 2, 3, 7, 36, 50, 100, 999, 1000, 5000]))
        n = rng.choice([3000, 10000, 20000])
    w = Watch()
    ids = []
    start = IDCounter.length, IDCounter.batch
    while len(ids) < n:
        x = rng.random()
        if x < 0.35:
            ids += [Qubit(rng.choice(["a", 0, None])).id for _ in range(rng.choice([1, 10, 200]))]
        elif x < 0.7:
            ids += [Bit(rng.choice(["a", 0, None])).id for _ in range(rng.choice([1, 10, 200]))]
        elif x < 0.9:
            c = (ParametricCircuit if rng.random() < 0.3 else Circuit)(rng.choice([0, 1, 30]), rng.choice([0, 1, 30]))
            c.add_qregister(rng.choice([0, 3, 100]))
            c.add_cregister(rng.choice([0, 3, 100]), "c")
            c.add_qubit()
            c.add_bit()
            new = [q.id for q in c.qubits] + [b.id for b in c.bits]
            ids += new
            r.event("circuit_identifiers", len(new))
        elif x < 0.95:
            # the counter may be refreshed at any time, in particular when few identifiers are left
            for _ in range(min(rng.choice([0, 1, 5, 50]), max(0, len(IDCounter.id_set) - rng.randint(0, 12)), 6000)):
                ids.append(Qubit("x").id)
            left = len(IDCounter.id_set)
            if rng.random() < 0.5 and left < 6000:
                while len(IDCounter.id_set) > rng.randint(0, 12):
                    ids.append(Bit("x").id)
            IDCounter.refresh()
            r.event("refreshed_by_hand")
        else:
            reg = QuantumRegister([Qubit(str(k)) for k in range(5)])
            creg = ClassicalRegister([Bit(str(k)) for k in range(5)])
            ids += [q.id for q in reg] + [b.id for b in creg]
        w.step()
    r.check(all(isinstance(x, str) and x for x in ids), "identifier-type")
    r.check(len(set(ids)) == len(ids), "identifiers-repeat", f"{len(ids) - len(set(ids))} of {len(ids)} from {start}")
    r.event("identifiers", len(ids))
    r.event("refills", w.refills)
    r.event("length_changes", w.changes)
    r.seen(["bulk", i, len(ids), list(start)])


def sec_exhaust(r, rng, i):
    """All identifiers of the last lengths: each comes once, then creation is refused."""
    length = rng.choice([33, 34, 34, 35, 36])
    batch = rng.choice([1, 2, 3, 5, 10, 36, 37, 100, 629, 630, 631, 666, 667, 668, 1000, 10000])
    IDCounter.reset(length=length, batch=batch)
    total = sum(math.comb(ALPHA, k) for k in range(length, ALPHA + 1))
    w = Watch()
    ids = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(total):
            ids.append((Qubit if rng.random() < 0.5 else Bit)("x").id)
            w.step()
        r.check(len(set(ids)) == total, "identifiers-repeat", f"{total - len(set(ids))} repeated of {total}, length "
                f"{length}, batch {batch}")
        for _ in range(3):
            r.raises(ValueError, lambda: Qubit("x"), "exhausted-not-refused", f"length {length}, batch {batch}")
    IDCounter.reset()
    r.event("exhausted")
    r.event("identifiers", total)
    r.event("refills", w.refills)
    r.event("length_changes", w.changes)
    r.seen(["exhaust", length, batch, i])


def sec_threads(r, rng, i):
    """Concurrent creation."""
    IDCounter.reset(length=6, batch=rng.choice([500, 1000, 5000]))
    old = _sys.getswitchinterval()
    _sys.setswitchinterval(1e-5)
    nt = rng.choice([2, 4, 8])
    out = [[] for _ in range(nt)]
    go = threading.Barrier(nt)

    def work(k):
        go.wait()
        for j in range(4000):
            try:
                out[k].append((Qubit if (j + k) % 2 else Bit)(j).id)
            except Exception:  # another thread took the last identifier of the batch; nothing was created
                r.event("not_created")
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        _sys.setswitchinterval(old)
        IDCounter.reset()
    ids = [x for o in out for x in o]
    r.check(len(set(ids)) == len(ids), "identifiers-repeat-across-threads", f"{len(ids) - len(set(ids))}")
    r.event("threads", nt)
    r.event("identifiers", len(ids))
    r.seen(["threads", nt, i])


LABELS = ["a", "a", "b", "", 0, 1, False, None, ("a", 1), frozenset(), 1.5, "0"]
VALUES = [0, 1, True, False, 2, -1, 0.0, 0.5, None, "", "x", [], [0], (), 1j, 0j]
NAMES = ["a", "a", "b", "", "0", 0, 1, "1", None, "p0", 1.5, "a ", " a", "A", "a\n", "\u00e9", "e\u0301", "\u212b", "\u00c5", "01",
         "1.0", "p00", "P0", "None", "a" * 40, "a" * 40 + "b", "a" * 400, "ab", "ba", "x\0", "x"]


def sec_primitives(r, rng, i):
    """Random histories; every pair compared after each step."""
    objs = []   # (object, kind, identity key, model value)
    hashes = {}
    log = []
    keyed = {}

    def add(o, kind, key, value=None):
        objs.append([o, kind, key, value])
        hashes[id(o)] = hash(o)
        keyed.setdefault(o, (kind, key))

    for step in range(rng.randint(4, 14)):
        x = rng.random()
        if x < 0.25 or len(objs) < 3:
            kind = rng.choice("qbv")
            if kind == "v":
                name = rng.choice(NAMES)
                o = rng.choice([Variable, Variable, Variable, MyVariable])(name)
                r.check(o.name == str(name) and o.value is None, "variable-new")
                add(o, "v", str(name))
            else:
                label = rng.choice(LABELS)
                o = rng.choice([Qubit, Qubit, Qubit, MyQubit] if kind == "q" else [Bit, Bit, Bit, MyBit])(label)
                r.check(o.label is label or o.label == label, "label-new")
                if kind == "b":
                    r.check(o.value is None and bool(o), "bit-new")
                add(o, kind, o.id)
            log.append(["new", kind])
        elif x < 0.4:
            e = rng.choice(objs)
            if e[1] != "v":
                idn = e[0].id
                label = rng.choice(LABELS)
                e[0].label = label
                r.check(e[0].label == label and e[0].id == idn, "relabel")
                log.append(["relabel", e[1]])
        elif x < 0.7:
            e = rng.choice(objs)
            if e[1] == "b":
                v = rng.choice(VALUES)
                force = rng.random() < 0.4
                if e[3] is not None and not force:
                    r.raises(ValueError, lambda: e[0].set(v), "set-twice", f"{v!r} over {e[3]}")
                    r.event("refused_sets")
                else:
                    e[0].set(v, force=True) if force else e[0].set(v)
                    e[3] = 1 if v else 0
                    r.event("forced_sets", int(force))
                r.check(e[0].value == e[3] and type(e[0].value) is int and e[0].value in (0, 1), "bit-value",
                        f"{e[0].value!r} after {v!r}, expected {e[3]}")
                r.check(bool(e[0]) is bool(e[3]), "bit-truth")
                log.append(["set", repr(v), force])
            elif e[1] == "v":
                v = rng.choice([0, 0.0, 1.5, -2, 1j, math.pi, np.float64(1.5), 1])
                e[0].set(v)
                e[3] = v
                r.check(e[0].value == v, "variable-value")
                r.check(str(e[0]) == str(v), "variable-shown", f"{e[0]} for {v!r}")
                log.append(["setv", repr(v)])
        elif x < 0.82:
            e = rng.choice(objs)
            if e[1] != "q":
                e[0].reset()
                e[3] = None
                r.check(e[0].value is None, "reset-value")
                log.append(["reset", e[1]])
        else:
            e = rng.choice(objs)
            o = rng.choice([copy.copy, copy.deepcopy, lambda z: pickle.loads(pickle.dumps(z))])(e[0])
            add(o, e[1], e[2], e[3])
            r.event("copies")
            log.append(["copy", e[1]])
        for a in objs:
            o, kind, key, value = a
            r.check(hash(o) == hashes[id(o)], "hash-changed", f"{o!r}")
            r.check(o in keyed, "not-found-in-dict", f"{o!r}")
            if kind != "q":
                r.check(o.value == value and (value is None) == (o.value is None), "value-changed", f"{o!r} {value}")
            if kind == "b":
                r.check(bool(o) is (value is None or bool(value)), "bit-truth")
            if kind != "q":
                for v in (0, 1, 1.5, 1j, None, True, 1.0, float("1.5"), np.int64(1), np.float64(0), 2.0 ** 0.5):
                    r.check((o == v) is (value is not None and bool(value == v)), "equal-to-value", f"{o!r} with value {value!r} == {v!r}")
            repr(o)
            if kind != "v":
                r.check(not (o == key) and not (o == o.label and value is None and kind == "b") and o != key,
                        "equal-to-its-identifier")
            for b in objs:
                same = kind == b[1] and key == b[2]
                if kind == b[1]:
                    r.check((o == b[0]) is same, "equality", f"{o!r} == {b[0]!r} is {o == b[0]}")
                    r.check((o != b[0]) is (not same), "inequality", f"{o!r} != {b[0]!r}")
                    if same:
                        r.check(hash(o) == hash(b[0]), "hash-differs", f"{o!r} {b[0]!r}")
                elif {kind, b[1]} == {"q", "b"} or "q" in (kind, b[1]):
                    r.check(not (o == b[0]) and o != b[0], "equal-across-kinds", f"{o!r} == {b[0]!r}")
                r.event("pairs_compared")
        r.event("steps")
    distinct = {(e[1], e[2]) for e in objs}
    for kind in "qbv":
        sel = [e[0] for e in objs if e[1] == kind]
        r.check(len(set(sel)) == len({k for t, k in distinct if t == kind}), "set-size", f"{sel}")
    r.seen(["primitives"] + log)


SECTIONS = [
    ("bulk", sec_bulk, 24, 400),
    ("exhaust", sec_exhaust, 60, 1500),
    ("threads", sec_threads, 12, 300),
    ("primitives", sec_primitives, 2000, 60000),
]
