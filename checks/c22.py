"""C22: mixed properties, and the class-level facts of operations that are built on them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C22"
SCALE = 10
BUDGET = {"quick": 240, "thorough": 600}
RULE = ("random class hierarchies with mixed properties (both signatures, decorated plainly, with and without options, overridden, "
        "reached through super, on instances of any truth value), every lookup compared with the call that the "
        "recorded function must have received; and the class-level facts of built-in, created and freshly derived "
        "operations, compared with independent values in random order around arbitrary use of instances; distinct by "
        "case description, non-trivial with an override or a use of instances")
ASSUMPTIONS = ["the name of an operation with parameters is followed by them on instances",
               "the number of qubits of an operation on any number of qubits is that of the instance"]
REQUIRED = ["lookups", "class_lookups", "instance_lookups", "self_required_on_class", "overridden", "through_super",
            "falsy_instances", "refused_settings", "metadata", "facts", "fresh_classes", "subclasses_with_other_numbers",
            "uses", "wrong_number_refused", "open_facts",
            "slotted_classes", "metaclasses"]

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import copy
import warnings
from abc import ABCMeta

import numpy as np

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.mixedproperty import mixedproperty
from dwave.gate.operations.base import (Barrier, ControlledOperation, Measurement, Operation, ParametricControlledOperation,
                                        ParametricOperation, create_operation)
from dwave.gate.primitives import Qubit
from dwave.gate.simulator.simulator import simulate
import gen
import ref

CALLS = []


def make_function(rng, tag, two, raises, doc):
    """A function recording how it is called."""
    def work(args):
        CALLS.append((tag, args))
        if raises:
            raise KeyError(tag)
        return tag, args
    name = f"prop_{tag.replace('.', '_')}"
    shape = rng.random()
    if two and shape < 0.15:
        def f(cls, self=None):
            return work((cls, self))
    elif two and shape < 0.3:
        def f(cls, self, extra=3, *, more=None):
            return work((cls, self))
    elif two:
        def f(cls, self):
            return work((cls, self))
    else:
        def f(cls):
            return work((cls,))
    f.__name__ = name
    f.__doc__ = doc
    if rng.random() < 0.3:
        f.marker = tag
    return f


def decorate(rng, f, required):
    x = rng.randrange(4)
    if required:
        return mixedproperty(self_required=True)(f) if x else mixedproperty(f, self_required=True)
    if x == 0:
        return mixedproperty(f)
    if x == 1:
        return mixedproperty()(f)
    if x == 2:
        return mixedproperty(self_required=False)(f)
    return mixedproperty(f)


class Falsy:
    def __bool__(self):
        return False


class Empty:
    def __len__(self):
        return 0


class Odd:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class OwnMeta(type):
    """Classes that are compared and hashed in their own way."""

    def __eq__(cls, other):
        return type.__eq__(cls, other) is True

    def __hash__(cls):
        return 5

    def __len__(cls):
        return 0


class NoneLike:
    def __eq__(self, other):
        return other is None

    def __hash__(self):
        return 0


def sec_descriptor(r, rng, i):
    del CALLS[:]
    props = ["a", "b", "c"][:rng.randint(1, 3)]
    bases = [rng.choice([object, Falsy, Empty, Odd, NoneLike])]
    table = []   # (class, {prop: (tag, two, required, raises)})
    log = [bases[0].__name__]
    current = {}
    for level in range(rng.randint(1, 4)):
        ns, spec = {}, dict(current)
        for p in props:
            if level == 0 or rng.random() < 0.4:
                tag = f"{p}.{level}"
                two, req = rng.random() < 0.6, rng.random() < 0.4
                raises = rng.random() < 0.08
                doc = rng.choice([None, f"documentation of {tag}", ""])
                f = make_function(rng, tag, two, raises, doc)
                ns[p] = decorate(rng, f, req)
                d = ns[p]
                r.check(isinstance(d, mixedproperty), "decorated-type")
                r.check(d.__doc__ == f.__doc__ and getattr(d, "__name__", None) == f.__name__
                        and d.__module__ == f.__module__ and d.__wrapped__ is f, "metadata",
                        f"{d.__doc__!r} {getattr(d, '__name__', None)!r} for {f.__doc__!r} {f.__name__!r}")
                if hasattr(f, "marker"):
                    r.check(d.marker == tag, "metadata-attributes")
                r.event("metadata")
                spec[p] = (tag, two, req, raises)
                log.append([tag, two, req, raises])
                if level:
                    r.event("overridden")
        if rng.random() < 0.2:  # attributes of instances kept elsewhere
            ns["__slots__"] = rng.choice([(), ("x",), ["y", "z"]])
            r.event("slotted_classes")
        meta = type
        if level == 0 and rng.random() < 0.3:
            meta = rng.choice([ABCMeta, OwnMeta])
            r.event("metaclasses")
        cls = (meta if level == 0 else type(bases[-1]))(f"L{level}", tuple(bases), ns)
        table.append((cls, spec, bases))
        bases = [cls]
        current = spec
        if rng.random() < 0.3 and level == 0:  # a mix-in before the class
            mixin = type("Mix", (), {"other": 1})
            bases = [mixin, cls]
    insts = []
    for cls, spec, _ in table:
        for _ in range(rng.randint(1, 2)):
            o = cls()
            if hasattr(o, "__dict__"):
                o.__dict__[rng.choice(props)] = "shadow"  # must not win over the property
                o.__dict__["extra"] = 1
            insts.append((o, cls, spec))

    def lookup(target, cls, inst, entry, p, how):
        tag, two, req, raises = entry
        del CALLS[:]
        skip = req and two and inst is None
        if raises and not skip:
            r.raises(KeyError, lambda: how(target, p), "exception-of-function")
        else:
            got = how(target, p)
            if skip:
                r.check(got is None, "self-required-on-class", f"{p} on {cls}: {got!r}")
                r.event("self_required_on_class")
            else:
                r.check(isinstance(got, tuple) and got[0] == tag, "wrong-function", f"{got!r} instead of {tag}")
                exp = (cls, inst) if two else (cls,)
                r.check(len(got[1]) == len(exp) and all(x is y for x, y in zip(got[1], exp)), "wrong-arguments",
                        f"{p}: {got[1]!r} instead of {exp!r}")
        r.check(len(CALLS) == (0 if skip else 1), "evaluated-not-once", f"{CALLS}")
        r.event("lookups")

    for _ in range(rng.randint(5, 25)):
        p = rng.choice(props)
        x = rng.random()
        if x < 0.35:
            cls, spec, _ = rng.choice(table)
            lookup(cls, cls, None, spec[p], p, getattr)
            r.event("class_lookups")
        elif x < 0.75:
            o, cls, spec = rng.choice(insts)
            lookup(o, cls, o, spec[p], p, getattr)
            r.event("instance_lookups")
            if isinstance(o, (Falsy, Empty)):
                r.event("falsy_instances")
        elif x < 0.87 and len(table) > 1:
            k = rng.randrange(1, len(table))
            cls, spec, bs = table[k]
            up = table[k - 1][1]
            if rng.random() < 0.5:
                o = next(o for o, c, _ in insts if c is cls)
                lookup(super(cls, o), cls, o, up[p], p, getattr)
            else:
                # super in a class-level call binds the class itself
                lookup(super(cls, cls), cls, None, up[p], p, getattr)
            r.event("through_super")
        else:
            o, cls, spec = rng.choice(insts)
            value = rng.choice([1, None, 0, "", p, cls, getattr(o, '__dict__', {}).get(p)])
            r.raises(AttributeError, lambda: setattr(o, p, value), "set-on-instance", repr(value))
            r.event("refused_settings")
            lookup(o, cls, o, spec[p], p, getattr)
    r.seen(["descriptor", props, len(table)] + log, len(table) > 1)


# ------------------------------------------------------------------ operations

def facts_of(name):
    nq, npar, fn = ref.GATES[name]
    return nq, npar, fn


def check_builtin(r, rng, name, inst=None):
    cls = getattr(ops, name)
    canon = ref.ALIASES.get(name, name)
    nq, npar, fn = ref.GATES[canon]
    order = ["name", "num_qubits", "num_parameters", "num_control", "matrix", "decomposition"]
    rng.shuffle(order)
    for what in order:
        for target in ([cls] if inst is None else rng.sample([cls, inst], 2)):
            is_cls = target is cls
            if what == "name":
                exp = cls.__name__
                got = target.name
                r.check(got == exp if is_cls or not npar else got.startswith(exp), "name", f"{got} instead of {exp}")
                r.check(canon.lower() in (exp.lower(), ref.ALIASES.get(exp, exp).lower()), "class-name", f"{exp} for {name}")
            elif what == "num_qubits":
                r.check(target.num_qubits == nq, "num-qubits", f"{name}: {target.num_qubits} instead of {nq}")
            elif what == "num_parameters":
                if npar:
                    r.check(target.num_parameters == npar, "num-parameters", f"{name}")
                else:
                    r.check(not hasattr(target, "num_parameters"), "num-parameters", f"{name}")
            elif what == "num_control":
                if canon in ref.ONE_CONTROL:
                    r.check(target.num_control == 1 and target.num_target == 1, "num-control", f"{name}")
                    r.check(target.target_operation is getattr(ops, canon[1:]), "target-operation")
            elif what == "matrix":
                if npar and is_cls:
                    r.check(target.matrix is None, "matrix-on-class", f"{name}: {target.matrix!r}")
                else:
                    m = target.matrix
                    e = fn(*inst.parameters) if npar else fn()
                    r.check(ref.close(m, e), "matrix", f"{name}: {np.round(m, 3)}")
                    m[...] = 7
                    r.check(ref.close(target.matrix, e), "matrix-changed", f"{name}")
            else:
                try:
                    a = cls.decomposition
                except NotImplementedError:
                    a = None
                try:
                    b = target.decomposition
                except NotImplementedError:
                    b = None
                r.check(a == b, "decomposition", f"{name}")
            r.event("facts")


def use(r, rng, cls, npar, nq, nc):
    """Uses instances of the class in some way, returns one."""
    q = [gen.derived(Qubit, 0.1)(str(k)) for k in range(nq + 1)]
    par = [[gen.param(rng) for _ in range(npar)]] if npar else []
    inst = cls(*par, qubits=tuple(q[:nq])) if nc or rng.random() < 0.5 else cls(*par, q[:nq])
    for _ in range(rng.randint(1, 4)):
        x = rng.randrange(9)
        if x == 0:
            copy.deepcopy(inst)
        elif x == 1:
            c = gen.derived(Circuit, 0.1)(nq + 1)
            with c.context as reg:
                inst2 = cls(*par, qubits=tuple(reg.q[k] for k in range(nq)))
                if not nc or not npar:
                    inst2.matrix
            try:
                simulate(c)
            except (ValueError, TypeError, NotImplementedError):
                pass
        elif x == 2:
            inst()
            if not nc:
                inst(tuple(q[1:]) if nq > 1 else q[1])
        elif x == 3:
            inst.qubits = tuple(q[1:])
            o2 = rng.choice([inst, cls(*par)])
            before = o2.qubits
            bad = rng.choice([q[:nq - 1], q + q, q + [Qubit("z"), Qubit("y")]])
            if bad and len(bad) != nq:
                bad = bad[0] if len(bad) == 1 and rng.random() < 0.5 else tuple(bad)
                with gen.ambient(rng, r):
                    r.raises(ValueError, lambda: setattr(o2, "qubits", bad), "set-wrong-number-of-qubits", f"{cls.__name__}: {bad}")
                r.check(o2.qubits == before, "set-wrong-number-kept")
                r.event("wrong_number_set_refused")
        elif x == 4:
            bare = cls(*par)
            bare.qubits, bare.name
            bare.num_qubits
        elif x == 5:
            for bad in ([], q[:nq - 1], q + q):
                if len(bad) in (0, nq):
                    continue
                with gen.ambient(rng, r):
                    r.raises(ValueError, lambda: cls(*par, qubits=tuple(bad)), "wrong-number-of-qubits",
                             f"{cls.__name__} on {len(bad)} qubits")
                r.event("wrong_number_refused")
        elif x == 6:
            try:
                inst.to_qasm()
            except NotImplementedError:
                pass
            repr(inst), str(inst), inst == cls(*par, qubits=inst.qubits)
        elif x == 7 and npar:
            inst.eval()
        else:
            inst.matrix
        r.event("uses")
    return inst


def sec_builtin(r, rng, i):
    names = [g for g in list(ref.GATES) + list(ref.ALIASES) if hasattr(ops, g)]
    log = []
    for _ in range(rng.randint(1, 3)):
        name = rng.choice(names)
        canon = ref.ALIASES.get(name, name)
        nq, npar, _ = ref.GATES[canon]
        cls = getattr(ops, name)
        if rng.random() < 0.4:
            check_builtin(r, rng, name)
        inst = use(r, rng, cls, npar, nq, 1 if canon in ref.ONE_CONTROL else 0)
        check_builtin(r, rng, name, inst)
        fact, value = rng.choice(["matrix", "num_qubits", "name", "decomposition"]), rng.choice([3, None, 0, np.eye(2), "X"])
        r.raises((ValueError, AttributeError), lambda: setattr(inst, fact, value), "set-fact-on-instance", fact)
        check_builtin(r, rng, name, inst)
        derived = type(cls)("Derived", (cls,), {})
        r.raises(ValueError, lambda: setattr(derived, "matrix", np.eye(2 ** nq) * 3), "set-matrix-on-class", name)
        if not npar:
            r.check(ref.close(derived.matrix, cls.matrix) and ref.close(derived().matrix, cls.matrix), "set-matrix-on-class", name)
        log.append(name)
    # operations on any number of qubits
    for cls in (Measurement, Barrier):
        k = rng.randint(1, 4)
        o = cls([Qubit("m") for _ in range(k)])
        r.check(o.num_qubits == k and o.name == cls.__name__ == cls.name, "any-number")
        r.raises(AttributeError, lambda: cls.num_qubits, "any-number-on-class")
    r.seen(["builtin", log, i])


def sec_open(r, rng, i):
    """Controlled operations whose class leaves the numbers of control and target qubits open."""
    t = rng.choice(["X", "Y", "Hadamard", "RX"])
    npar = ref.GATES[t][1]
    base = ParametricControlledOperation if npar else ControlledOperation
    ns = {"_target_operation": getattr(ops, t)}
    if npar:
        ns["_num_params"] = npar
    nc = rng.choice([None, None, 1, 2])
    nt = rng.choice([None, 1]) if nc is None else None
    if nc:
        ns["_num_control"] = nc
    if nt:
        ns["_num_target"] = nt
    cls = base if not npar and nc is None and nt is None and rng.random() < 0.3 else type("Open", (base,), ns)
    sub = type("SubOpen", (cls,), {})
    log = []
    for _ in range(rng.randint(1, 5)):
        c = rng.choice([cls, cls, sub])
        k, m = rng.randint(1, 3), rng.randint(1, 2)
        q = [gen.derived(Qubit, 0.1)(str(j)) for j in range(k + m)]
        par = [[gen.param(rng) for _ in range(npar)]] if npar else []
        x = rng.random()
        if x < 0.2:
            o = c(*par)
            r.check(not o.qubits, "open:qubits")
        else:
            o = c(*par, tuple(q[:k]), q[k:]) if x < 0.9 else c(*par, q[0], q[1:])
            kk = k if x < 0.9 else 1
            r.check(o.num_qubits == len(q) and list(o.control) == q[:kk] and list(o.target) == q[kk:], "open:qubits",
                    f"{o.control} {o.target}")
        log.append([c is cls, k, m, x < 0.2])
        for z in (cls, sub):
            r.check(z.num_control == nc and z.num_target == nt, "open:class-facts-changed",
                    f"{z.num_control} {z.num_target} instead of {nc} {nt}")
            if cls is not ControlledOperation:
                r.check(not hasattr(z, "num_qubits"), "open:class-facts-changed", "num_qubits")
        r.event("open_facts")
    r.check(ControlledOperation.num_control is None and ControlledOperation.num_target is None
            and ParametricControlledOperation.num_control is None, "open:base-changed")
    r.seen(["open", t, nc, nt, log])


def fresh(rng, base=None, depth=0):
    """A fresh user-defined operation class and its facts: (class, nq, npar, nc, matrix function)."""
    if base is None:
        x = rng.random()
        if x < 0.3:
            k = rng.choice([1, 1, 2])
            nprng = np.random.default_rng(rng.getrandbits(63))
            m = ref.random_unitary(nprng, 2 ** k)
            return type("Plain", (Operation,), {"_num_qubits": k, "matrix": mixedproperty(lambda cls: m.copy())}), k, 0, 0, lambda: m
        if x < 0.65:
            nc = rng.choice([1, 2, 3])
            t = rng.choice(["X", "Y", "Hadamard", "T"])
            cls = type("Ctl", (ControlledOperation,), {"_num_control": nc, "_num_target": 1, "_target_operation": getattr(ops, t)})
            return cls, nc + 1, 0, nc, lambda: ref.controlled(ref.gate_matrix(t), nc)
        if x < 0.85:
            nc = rng.choice([1, 2])
            t = rng.choice(["RX", "RY", "RZ", "Rotation"])
            npar = ref.GATES[t][1]
            cls = type("PCtl", (ParametricControlledOperation,), {
                "_num_control": nc, "_num_target": 1, "_num_params": npar, "_target_operation": getattr(ops, t)})
            return cls, nc + 1, npar, nc, lambda *p: ref.controlled(ref.gate_matrix(t, p), nc)
        n = rng.randint(1, 3)
        prog = gen.program(rng, n, rng.randint(1, 4), names=["X", "RY", "CX", "Hadamard", "T"], custom=0)
        return create_operation(gen.build(rng, prog, n), "Made"), n, 0, 0, lambda: ref.unitary(n, gen.oplist(prog))
    cls, nq, npar, nc, fn = base
    if nc and rng.random() < 0.7:  # another number of controls
        k = rng.choice([c for c in (1, 2, 3) if c != nc])
        sub = type("Sub" + cls.__name__, (cls,), {"_num_control": k})
        t = cls._target_operation
        name = t.__name__
        if npar:
            return sub, k + 1, npar, k, lambda *p: ref.controlled(ref.gate_matrix(name, p), k)
        return sub, k + 1, 0, k, lambda: ref.controlled(ref.gate_matrix(name), k)
    return type("Sub" + cls.__name__, (cls,), {}), nq, npar, nc, fn


def check_fresh(r, rng, f, inst):
    cls, nq, npar, nc, fn = f
    targets = [cls] if inst is None else [cls, inst]
    rng.shuffle(targets)
    for t in targets:
        for what in rng.sample(["q", "c", "m", "n", "p"], 5):
            if what == "q":
                r.check(t.num_qubits == nq, "num-qubits", f"{cls.__mro__}: {t.num_qubits} instead of {nq}")
            elif what == "c" and nc:
                r.check(t.num_control == nc and t.num_target == 1, "num-control", f"{t.num_control} instead of {nc}")
            elif what == "m":
                if npar and t is cls:
                    r.check(t.matrix is None, "matrix-on-class")
                else:
                    m = t.matrix
                    r.check(ref.close(m, fn(*inst.parameters) if npar else fn()), "matrix", f"{cls.__mro__}: {np.round(m, 3)}")
            elif what == "n":
                r.check(t.name == cls.__name__ or npar and t.name.startswith(cls.__name__), "name")
            elif what == "p" and npar:
                r.check(t.num_parameters == npar, "num-parameters")
            r.event("facts")


def sec_fresh(r, rng, i):
    """Classes that nothing was ever asked of before, in a random order of first use."""
    builtin = {"CX": "X", "CY": "Y", "CHadamard": "Hadamard", "CRX": "RX", "CRotation": "Rotation"}
    fam = []
    if rng.random() < 0.35:
        g = rng.choice(list(builtin))
        nq, npar, fn = ref.GATES[g]
        fam.append((getattr(ops, g), nq, npar, 1, fn))
    else:
        fam.append(fresh(rng))
    for _ in range(rng.randint(0, 3)):
        b = rng.choice(fam)
        f = fresh(rng, b)
        fam.append(f)
        if f[1] != b[1]:
            r.event("subclasses_with_other_numbers")
    log = [[f[0].__name__, f[1], f[2], f[3]] for f in fam]
    insts = {}
    for _ in range(rng.randint(len(fam), 10)):
        f = rng.choice(fam)
        k = fam.index(f)
        x = rng.random()
        if x < 0.5:
            insts[k] = use(r, rng, f[0], f[2], f[1], f[3])
            log.append(["use", k])
        else:
            check_fresh(r, rng, f, insts.get(k) if rng.random() < 0.7 else None) if not f[2] or k in insts else None
            log.append(["facts", k])
    for k, f in enumerate(fam):
        check_fresh(r, rng, f, insts.get(k) or use(r, rng, f[0], f[2], f[1], f[3]))
        r.event("fresh_classes")
    r.seen(["fresh"] + log)


warnings.simplefilter("ignore")
SECTIONS = [
    ("descriptor", sec_descriptor, 1500, 40000),
    ("builtin", sec_builtin, 300, 8000),
    ("fresh", sec_fresh, 500, 15000),
    ("open", sec_open, 300, 8000),
]
