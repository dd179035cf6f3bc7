"""C12: registers against a list model."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C12"
RULE = ("random operation sequences on registers of every kind holding items of many types (numbers of all "
        "kinds, strings, tuples, qubits, bits and variables with values, colliding hashes), every observer "
        "compared with a list model after every step; exhaustive slice and index grids; distinct by operation "
        "sequence, non-trivial when the register was changed at least once")
ASSUMPTIONS = ["items have consistent == and hash; items that are equal numbers are the same item",
               "None is not an item (it asks for a generated label)"]
REQUIRED = ["observations", "mutations", "slices", "refused_with_exception", "grown", "private_mutations",
            "large_registers"]
SCALE = 6
BUDGET = {"quick": 240, "thorough": 500}
NEEDS_SIMULATOR = False

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import copy
import pickle
from decimal import Decimal
from fractions import Fraction

import numpy as np

from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers.cyregister import cyRegister
from dwave.gate.registers.registers import (ClassicalRegister, QuantumRegister, Register, RegisterError,
                                            SelfIncrementingRegister)


class Collide:
    """Items that all have the same hash."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 1

    def __eq__(self, o):
        return isinstance(o, Collide) and o.n == self.n

    def __repr__(self):
        return f"Collide({self.n})"


NAN = float("nan")
PLAIN = ["a", "b", "c", "", "0", "1", 0, 1, 2, 3, 4, 5, 7, -1, -2, (0, 1), (1,), frozenset([1]), b"x", np.str_("abc")]
NUMS = [0, 1, 2, 3, True, False, 0.0, 1.0, 2.0, 2.5, -1.0, float("inf"), float("-inf"), NAN, 1 + 0j, 2j, 0j,
        Fraction(1), Fraction(1, 3), Decimal("0.125"), np.int64(3), np.float64(1.0), np.float32(0.5),
        np.uint8(2), np.complex128(4), 2 ** 63, 2 ** 63 - 1, -2 ** 63, 2 ** 70, -2 ** 70, 1e300]
# equality between decimals and numpy numbers is not transitive, so they are never mixed
DECIMALS = [Decimal(k) for k in range(5)] + [Decimal("0.5"), Decimal("1.0"), Decimal("Infinity"), Decimal("NaN"),
                                            0, 1, 2, 3.0, 0.5, "1"]


def pool(rng, kind):
    if kind == "plain":
        return list(PLAIN)
    if kind == "decimals":
        return list(DECIMALS)
    if kind == "nums":
        return list(NUMS)
    if kind == "qubits":
        return [Qubit(str(i // 2)) for i in range(9)]
    if kind == "bits":
        out = [Bit(str(i // 2)) for i in range(9)]
        for b in out:
            if rng.random() < 0.7:
                b.set(rng.randrange(2))
        return out
    if kind == "vars":
        out = [Variable(str(i)) for i in range(9)]
        for v in out:
            if rng.random() < 0.7:
                v.set(rng.choice([0, 1, 2, 3, 4, 0.5]))
        return out
    if kind == "collide":
        return [Collide(i) for i in range(9)] + [1, "a"]
    mixed = PLAIN + NUMS + [Collide(0), Collide(1), Qubit("q"), Qubit("q"), Bit("b"), Variable("v"), Variable("w")]
    return rng.sample(mixed, 18)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Qubit, Bit)) or isinstance(b, (Qubit, Bit)):
        return False  # the object itself must be stored
    return type(a == b) in (bool, np.bool_) and bool(a == b)


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def find(model, v):
    """Position like a list of items with consistent hash and equality."""
    for k, x in enumerate(model):
        if x is v:
            return k
        try:
            if hash(x) == hash(v) and x == v:
                return k
        except TypeError:
            return None
    return None


UNHASHABLE = [[], {}, [1], {1: 2}, np.zeros(2)]


def observe(r, rng, reg, model, pl, full=True):
    """Every observer of the register against the model."""
    r.event("observations")
    n = len(model)
    r.check(len(reg) == n, "length", f"{len(reg)} != {n}")
    got = list(reg)
    r.check(same_list(got, model), "iteration", f"{got} != {model}")
    if isinstance(reg, Register):
        r.check(same_list(reg.data, model), "data", f"{reg.data} != {model}")
    for k in ([*range(-n, n)] if n <= 6 else rng.sample(range(-n, n), 8)):
        r.check(same(reg[k], model[k]), "getitem", f"[{k}] gave {reg[k]!r}, expected {model[k]!r} of {model}")
    for k in (-n - 1, -n - 7, -2 ** 63, 2 ** 63 - 1, 2 ** 63, -2 ** 70, 2 ** 31, 2 ** 32, 2 ** 32 + n // 2, -2 ** 32, 2 ** 8, 2 ** 16,
              2 ** 64):
        if isinstance(reg, SelfIncrementingRegister) and k >= n and not reg.frozen:
            continue
        r.raises(IndexError, lambda k=k: reg[k], "out-of-range", f"[{k}] of {n}")
    if not isinstance(reg, SelfIncrementingRegister) or reg.frozen:
        for k in (n, n + 1, n + 50):
            r.raises(IndexError, lambda k=k: reg[k], "out-of-range", f"[{k}] of {n}")
    for v in rng.sample(pl, min(len(pl), 8)) + [rng.choice(PLAIN)]:
        k = find(model, v)
        r.check((v in reg) == (k is not None), "membership", f"{v!r} in {model}: {v in reg}")
        r.check(reg.count(v) == (k is not None), "count", f"{v!r} in {model}: {reg.count(v)}")
        if k is None:
            r.raises(ValueError, lambda v=v: reg.index(v), "index-of-missing", f"{v!r} in {model}")
        else:
            r.check(reg.index(v) == k, "index", f"{v!r} in {model}: {reg.index(v)}")
    u = rng.choice(UNHASHABLE)
    r.check(u not in reg and reg.count(u) == 0, "unhashable-membership")
    for _ in range(4 if full else 1):
        sl = slice(*(rng.choice([None, rng.randint(-n - 3, n + 3)]) for _ in range(2)),
                   rng.choice([None, 1, 2, 3, -1, -2, -3, 7, -7]))
        if rng.random() < 0.1:
            sl = slice(-2 ** 70, 2 ** 70, rng.choice([1, -1, 2 ** 65]))
        part = reg[sl]
        r.event("slices")
        r.check(type(part) is type(reg), "slice-type", f"{type(part)}")
        r.check(same_list(list(part), model[sl]), "slice", f"{sl} of {model} gave {list(part)}")
    if not isinstance(reg, Register):
        return
    for bad in ("0", 1.5, None, (0,)):
        if isinstance(reg, SelfIncrementingRegister):
            break
        r.raises(TypeError, lambda: reg[bad], "index-type", f"{bad!r}")
    r.check(same_list(list(reversed(reg)), model[::-1]), "reversed")
    r.check(str(reg) == f"{type(reg).__name__}({list(reg)})", "str")
    r.check(repr(reg) == f"<{type(reg).__name__}, data={list(reg)}>", "repr")
    # comparison as a set
    other = type(reg)(rng.sample(model, rng.randint(0, n)) if rng.random() < 0.6 else rng.sample(pl, rng.randint(0, 4)))
    a, b = set(model), set(list(other))
    r.check((reg == other) == (a == b) and (reg != other) == (a != b), "set-equality", f"{a} {b}")
    r.check((reg <= other) == (a <= b) and (reg >= other) == (a >= b) and (reg < other) == (a < b)
            and (reg > other) == (a > b), "set-order", f"{a} {b}")
    r.check(reg.isdisjoint(other) == a.isdisjoint(b), "set-disjoint")
    r.check(set(reg & other) == a & b and set(reg | other) == a | b and set(reg - other) == a - b
            and set(reg ^ other) == a ^ b, "set-algebra", f"{a} {b}")


def new_register(r, rng, cls, pl):
    items = rng.sample(pl, rng.randint(0, min(5, len(pl))))
    uniq = []
    for x in items:
        if find(uniq, x) is None:
            uniq.append(x)
    form = rng.randrange(6)
    if form == 0:
        src = list(items)
    elif form == 1:
        src = tuple(items)
    elif form == 2:
        src = (x for x in items)
    elif form == 3:
        src = cls(items)
    elif form == 4:
        n = rng.randint(-1, 6)
        src, uniq = range(n), list(range(n))
    else:
        src, uniq = None, []
    reg = cls(src) if src is not None else cls()
    return reg, uniq


class Tracked:
    def __init__(self, reg, model, frozen=False):
        self.reg, self.model, self.frozen = reg, model, frozen


def sec_sequences(r, rng, i):
    kind = ["plain", "nums", "qubits", "bits", "vars", "collide", "mixed", "decimals"][i % 8]
    pl = pool(rng, kind)
    cls = {"qubits": QuantumRegister, "bits": ClassicalRegister}.get(kind) or rng.choice([Register, QuantumRegister,
                                                                                           ClassicalRegister])
    regs = [Tracked(*new_register(r, rng, cls, pl))]
    log = [kind, cls.__name__, [repr(x) for x in regs[0].model]]
    changed = 0
    for _ in range(rng.randint(4, 14)):
        t = rng.choice(regs)
        op = rng.choice(["add", "add", "add", "extend", "addreg", "freeze", "copy", "plus", "iadd", "slice",
                         "permissive", "pop", "remove", "relabel", "relabel_ints", "clear", "fromreg", "pickle"])
        before = [list(x.model) for x in regs]
        v = rng.choice(pl)
        log.append([op, regs.index(t), repr(v)])
        if op == "add" and (isinstance(v, (tuple, bytes)) or not t.frozen and False):
            op = "extend1"
        if op in ("add", "extend1"):
            arg = v if op == "add" else [v]
            if t.frozen:
                r.raises(RegisterError, lambda: t.reg.add(arg), "add-to-frozen")
            elif find(t.model, v) is not None:
                r.raises(ValueError, lambda: t.reg.add(arg), "duplicate", f"{v!r} in {t.model}")
            else:
                t.reg.add(arg)
                t.model.append(v)
                changed += 1
        elif op in ("extend", "addreg"):
            vs = rng.sample(pl, rng.randint(0, 3))
            arg = vs
            if op == "addreg":
                try:
                    arg = cls(vs)
                except ValueError:
                    arg = vs
                vs = list(arg)
            elif rng.random() < 0.5:
                arg = tuple(vs)
            if t.frozen:
                r.raises(RegisterError, lambda: t.reg.add(arg), "add-to-frozen")
            else:
                new, dup = list(t.model), False
                for x in vs:
                    if find(new, x) is not None:
                        dup = True
                        break
                    new.append(x)
                if dup:
                    r.raises(ValueError, lambda: t.reg.add(arg), "duplicate", f"{vs} to {t.model}")
                    got = list(t.reg)
                    r.check(same_list(got, t.model) or same_list(got, new[:len(got)]) and len(got) <= len(new),
                            "refused-add", f"{got} after adding {vs} to {t.model}")
                    t.model = new[:len(got)]
                else:
                    t.reg.add(arg)
                    t.model = new
                    changed += 1
        elif op == "freeze":
            if rng.random() < 0.3:
                t.reg.freeze()
                t.frozen = True
        elif op in ("copy", "slice", "fromreg", "pickle"):
            if op == "copy":
                x = rng.choice([lambda: t.reg.copy(), lambda: copy.copy(t.reg)])()
                m = list(t.model)
            elif op == "slice":
                sl = slice(None, None, rng.choice([None, -1, 2]))
                x, m = t.reg[sl], t.model[sl]
            elif op == "pickle":
                if kind in ("qubits", "bits", "mixed", "collide"):
                    continue
                x, m = pickle.loads(pickle.dumps(t.reg)), list(t.model)
                if any(not z == z for z in m):
                    continue
            else:
                x, m = cls(t.reg), list(t.model)
            r.check(type(x) is cls, "copy-type", f"{type(x)}")
            r.check(x is not t.reg, "copy-is-source")
            fz = t.frozen if op == "pickle" else x.frozen
            r.check(x.frozen in (True, False), "copy-frozen")
            regs.append(Tracked(x, m, fz))
        elif op in ("plus", "iadd"):
            o = rng.choice(regs)
            clash = any(find(t.model, z) is not None for z in o.model)
            oreg, arg = o.reg, o.reg
            if clash:
                r.raises(ValueError, lambda: t.reg + arg, "sum-duplicate", f"{t.model} + {o.model}")
            else:
                x = t.reg
                if op == "iadd":
                    x += arg
                else:
                    x = x + arg
                r.check(x is not t.reg and x is not oreg, "sum-is-source")
                r.check(type(x) is cls, "sum-type")
                regs.append(Tracked(x, t.model + o.model, x.frozen))
                changed += 1
        elif op == "permissive":
            k = find(t.model, v)
            if k is None and t.frozen:
                r.raises(RegisterError, lambda: t.reg.index(v, permissive=True), "add-to-frozen", "permissive")
            else:
                if k is None:
                    t.model.append(v)
                    changed += 1
                    k = len(t.model) - 1
                got = t.reg.index(v, permissive=True) if rng.random() < 0.5 else t.reg.index(v, True)
                r.check(got == k, "permissive-index", f"{v!r}: {got} != {k} in {t.model}")
        elif kind in ("plain", "qubits", "collide"):
            r.event("private_mutations")
            if op == "pop":
                if t.model:
                    r.check(same(t.reg._pop(), t.model.pop()), "pop")
                else:
                    r.raises(IndexError, t.reg._pop, "pop-empty")
            elif op == "remove":
                k = find(t.model, v)
                if k is None:
                    r.raises(ValueError, lambda: t.reg._remove(v), "remove-missing")
                else:
                    t.reg._remove(v)
                    del t.model[k]
            elif op == "clear":
                t.reg._clear()
                t.model = []
            elif op == "relabel":
                olds = rng.sample(t.model, rng.randint(0, len(t.model)))
                rest = [x for x in t.model if find(olds, x) is None]
                cand = [x for x in pl if find(rest, x) is None]
                news = []
                for x in rng.sample(cand, len(cand)):
                    if find(news, x) is None:
                        news.append(x)
                mp = dict(zip(olds, news))
                t.reg._relabel(mp)
                t.model = [mp[x] if x in mp else x for x in t.model]
            elif op == "relabel_ints":
                if any(isinstance(x, int) for x in t.model):
                    continue
                mp = t.reg._relabel_as_integers()
                r.check(same_list(list(t.reg), list(range(len(t.model)))), "relabel-as-integers", f"{list(t.reg)}")
                t.reg._relabel(mp)
            changed += 1
        else:
            continue
        r.event("mutations")
        r.check(all(x.reg.frozen == x.frozen for x in regs), "frozen-flag")
        for x, b in zip(regs, before):  # nothing else changed
            if x is not t:
                r.check(same_list(list(x.reg), b), "independence", f"{list(x.reg)} was {b} after {log[-1]}")
        observe(r, rng, t.reg, t.model, pl)
        regs = regs[-4:]
    for t in regs:
        observe(r, rng, t.reg, t.model, pl)
    r.seen(log, changed > 0)


def sec_cyregister(r, rng, i):
    """The compiled base class used directly."""
    pl = pool(rng, ["plain", "nums", "collide", "mixed", "vars", "bits"][i % 6])
    items, model = rng.sample(pl, rng.randint(0, 5)), []
    for x in items:
        if find(model, x) is None:
            model.append(x)
    src = rng.choice([lambda: items, lambda: iter(items), lambda: cyRegister(items)])()
    reg = cyRegister(src)
    for _ in range(4):
        v = rng.choice(pl)
        if find(model, v) is None:
            reg._append(v)
            model.append(v)
        else:
            r.raises(ValueError, lambda: reg._append(v), "duplicate")
            reg._append(v, permissive=True)
        observe(r, rng, reg, model, pl)
    # generated labels never collide with present items
    for _ in range(rng.randint(0, 4)):
        got = reg._append()
        r.check(find(model, got) is None, "generated-label", f"{got!r} in {model}")
        model.append(got)
        observe(r, rng, reg, model, pl, full=False)
    r.seen(["cy", [repr(x) for x in model]], bool(model))


def sec_slices(r, rng, i):
    """All slices of a register of up to five items."""
    n = i % 6
    kind = ["plain", "qubits", "bits", "nums", "vars"][(i // 6) % 5]
    pl = pool(rng, kind)
    model = []
    for x in rng.sample(pl, len(pl)):
        if len(model) < n and find(model, x) is None:
            model.append(x)
    if rng.random() < 0.3:
        model = list(range(n))
    cls = rng.choice([Register, ClassicalRegister, SelfIncrementingRegister])
    reg = cls(model)
    bounds = [None] + list(range(-n - 2, n + 3))
    for a in bounds:
        for b in bounds:
            for s in (None, 1, 2, 3, -1, -2, -3):
                got = list(reg[a:b:s])
                r.check(same_list(got, model[a:b:s]), "slice", f"[{a}:{b}:{s}] of {model} gave {got}")
                r.event("slices")
    r.raises(ValueError, lambda: reg[::0], "zero-step")
    r.check(same_list(list(reg), model), "slice-changed-source")
    part = reg[:]
    part.add(["fresh-item"])
    r.check(same_list(list(reg), model), "slice-aliases-source")
    r.seen(["slices", n, kind, cls.__name__], n > 0)


def sec_growing(r, rng, i):
    """Parameter registers grow by variables named after their positions."""
    start = rng.randint(0, 3)
    reg = SelfIncrementingRegister([Variable(str(k)) for k in range(start)]) if rng.random() < 0.6 else \
        SelfIncrementingRegister()
    model = list(reg)
    frozen = False
    log = [len(model)]
    for _ in range(rng.randint(2, 10)):
        k = rng.choice([rng.randint(0, 8), len(model), len(model) + 1, -1, -len(model), -len(model) - 1,
                        np.int64(len(model))])
        log.append(int(k))
        if rng.random() < 0.1:
            reg.freeze()
            frozen = True
            log.append("freeze")
        if rng.random() < 0.1:
            c = reg.copy()
            c[len(c) + 2]
            r.check(len(c) == len(model) + 3 and len(reg) == len(model), "copy-grows-source")
        if k >= len(model) and not frozen:
            ids = [id(v) for v in reg]
            got = reg[k]
            while len(model) <= k:
                model.append(Variable(str(len(model))))
            r.check(len(reg) == len(model), "growth", f"length {len(reg)} after [{k}], expected {len(model)}")
            r.check([v.name for v in reg] == [str(j) for j in range(len(model))], "growth-names",
                    f"{[v.name for v in reg]}")
            r.check([id(v) for v in reg][:len(ids)] == ids, "growth-replaced-variables")
            r.check(got.name == str(int(k)), "growth-returned", f"[{k}] gave {got}")
            r.event("grown")
            model = list(reg)
        elif -len(model) <= k < len(model):
            r.check(reg[k] is model[k], "growing-getitem")
        else:
            r.raises(IndexError, lambda: reg[k], "growing-out-of-range")
        r.check(all(a is b for a, b in zip(reg, model)) and len(reg) == len(model), "growing-stable")
        r.check(reg.frozen == frozen, "frozen-flag")
        for j, v in enumerate(model):
            r.check(reg.index(v) == j and reg.index(Variable(v.name)) == j and v in reg, "growing-index")
            if rng.random() < 0.3:  # values do not matter for identity
                v.set(rng.choice([0, 1, 2, j, 0.5]))
        observe(r, rng, reg, model, [Variable(str(j)) for j in range(9)], full=False)
    r.seen(["grow", log], len(model) > 0)


def sec_large(r, rng, i):
    """Longer registers."""
    n = rng.choice([100, 1000, 2500])
    items = [rng.choice([lambda k: k, lambda k: f"s{k}", lambda k: (k,), lambda k: n - k + 0.5])(k) for k in range(n)]
    rng.shuffle(items)
    reg = Register(items)
    r.check(same_list(list(reg), items), "iteration")
    for k in rng.sample(range(n), 60):
        r.check(reg.index(items[k]) == k and reg[k] == items[k] and reg[k - n] == items[k] and items[k] in reg, "index")
    more = Register(range(n, n + 100))
    clash = [x for x in items if isinstance(x, int) and n <= x]
    if not clash:
        s = reg + more
        r.check(same_list(list(s), items + list(range(n, n + 100))), "sum")
    sl = slice(rng.randint(-n, n), rng.randint(-n, n), rng.choice([1, -1, 3, -7]))
    r.check(same_list(list(reg[sl]), items[sl]), "slice")
    r.event("observations")
    r.seen(["large", n, [repr(x) for x in items[:20]]])


def sec_large_ops(r, rng, i):
    """Adding to and taking from larger registers."""
    cls = rng.choice([Register, QuantumRegister])
    n = rng.choice([17, 64, 130, 257, 300, 520, 1100])
    make = rng.choice([lambda k: k, lambda k: f"s{k}", lambda k: (k,), lambda k: n - k + 0.5, lambda k: Qubit(str(k)),
                       lambda k: k if k % 3 else f"s{k}"])
    model = [make(k) for k in range(n)]
    reg = cls(model)
    gone = []
    log = [n, repr(model[1])]

    def spot():
        r.check(len(reg) == len(model), "large:length", f"{len(reg)} instead of {len(model)}")
        for k in {0, len(model) - 1, len(model) // 2} | {rng.randrange(len(model)) for _ in range(12)} if model else ():
            r.check(same(reg[k], model[k]) and reg.index(model[k]) == k and model[k] in reg, "large:lookup", f"{k} {model[k]!r}")
        for v in rng.sample(gone, min(15, len(gone))):
            if find(model, v) is None:
                r.check(v not in reg and reg.count(v) == 0, "large:removed-still-there", f"{v!r}")
                r.raises(ValueError, lambda v=v: reg.index(v), "large:removed-still-there", f"{v!r}")
        r.event("observations")
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        k = rng.randint(1, max(1, len(model) // rng.choice([2, 5, 30])))
        if x < 0.3 and model:
            for _ in range(min(k, len(model))):
                got, want = reg._pop(), model.pop()
                r.check(same(got, want), "large:pop", f"{got!r} instead of {want!r}")
                gone.append(want)
            log.append(["pop", k])
        elif x < 0.45 and model:
            for _ in range(min(k, 25, len(model))):
                v = rng.choice(model)
                reg._remove(v)
                del model[find(model, v)]
                gone.append(v)
            log.append(["remove", k])
        elif x < 0.8:
            back = [v for v in rng.sample(gone, min(k, len(gone))) if find(model, v) is None]
            uniq = []
            for v in back:
                if find(uniq, v) is None:
                    uniq.append(v)
            new = uniq + [("new", len(model), j, len(log)) for j in range(rng.randint(0, k))]
            rng.shuffle(new)
            if rng.random() < 0.6:
                reg.add(new)
            else:
                for v in new:
                    reg.index(v, permissive=True)
            model += new
            log.append(["add", len(new)])
        elif x < 0.9:
            dup = rng.choice(model) if model else "z"
            if model:
                r.raises(ValueError, lambda: reg.add([dup]), "large:duplicate", repr(dup))
        else:
            reg, model = reg[::-1], model[::-1]
            log.append("reverse")
        r.event("mutations")
        spot()
    r.check(same_list(list(reg), model), "large:iteration")
    sl = slice(rng.randint(-n, n), rng.randint(-n, n), rng.choice([1, -1, 3, -7]))
    r.check(same_list(list(reg[sl]), model[sl]), "large:slice")
    r.event("large_registers")
    r.seen(["large_ops"] + log)


SECTIONS = [
    ("large_ops", sec_large_ops, 150, 4000),
    ("sequences", sec_sequences, 3000, 120000),
    ("cyregister", sec_cyregister, 300, 10000),
    ("slices", sec_slices, 60, 600),
    ("growing", sec_growing, 300, 12000),
    ("large", sec_large, 12, 200),
]
