"""C17: a QIR module compiles to exactly the instructions it holds."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C17"
RULE = ("random histories of adding instructions and external functions, setting return values, compiling, forced "
        "recompiling, failing compilations and resetting, on one or several modules sharing a context; after every "
        "step the visible text and bitcode are compared with a model; distinct by history, non-trivial when at "
        "least one instruction was compiled")
ASSUMPTIONS = ["bitcode is turned into text by LLVM (through pyqir) before it is read; LLVM is trusted",
               "an external function name is added once between resets which remove instructions",
               "text and bitcode of modules that LLVM rejects (non-strict compilation) are compared as text only",
               "qir and bitcode read after further additions show the program as it was last compiled"]
REQUIRED = ["steps", "programs_compared", "instructions_compared", "recompiled", "refused_recompile", "resets_kept",
            "resets_removed", "external_calls", "external_kept_over_reset", "failed_compilations",
            "compiled_after_failure", "returns_set", "refused_returns", "reset_before_compile", "non_strict",
            "bitcode_compared", "equal_to_new", "return_types", "shared_context", "double_resets", "instructions_equal", "instructions_differ"]
SCALE = 8
BUDGET = {"quick": 240, "thorough": 500}
NEEDS_SIMULATOR = False
TRACE = True

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import pyqir
from pyqir import Linkage

from dwave.gate.qir.compiler import BaseModule, CompileError
from dwave.gate.qir.instructions import InstrType, Instruction

import qirtext

# name -> (called function, parameters, qubits)
GATES = {"x": ("x", 0, 1), "y": ("y", 0, 1), "z": ("z", 0, 1), "h": ("h", 0, 1), "s": ("s", 0, 1), "t": ("t", 0, 1),
         "rx": ("rx", 1, 1), "ry": ("ry", 1, 1), "rz": ("rz", 1, 1), "cx": ("cnot", 0, 2), "cz": ("cz", 0, 2)}
BLOCKS = ("body", "measurements", "output")


class Model:
    """A module under test together with what it must contain."""

    def __init__(self, rng, context=None):
        self.n, self.nb = rng.choice([1, 2, 3, 20]), rng.choice([0, 1, 2, 20])
        self.name = rng.choice(["QIR_module", "m", "Circuit"])
        self.kw = {}
        if rng.random() < 0.2:
            self.kw["qir_minor_version"] = rng.choice([0, 1, 3])
        if rng.random() < 0.15:
            self.kw["qir_major_version"] = rng.choice([1, 2])
        if rng.random() < 0.15:
            self.kw["dynamic_qubit_management"] = True
        self.context = context
        self.m = self.fresh()
        self.held = {b: [] for b in BLOCKS}
        self.ext = {}
        self.ret = None
        self.snap = None        # program text at the last compilation
        self.bad = False        # an instruction that cannot be compiled is held
        self.failed = False
        self.counter = 0
        self.ever = False
        self.rets = {}          # return types of external functions

    def fresh(self):
        return BaseModule(self.name, self.n, self.nb, **({"context": self.context} if self.context else {}), **self.kw)

    def program(self):
        out = []
        for b in BLOCKS:
            out += [(b,) + c for c in self.held[b]]
        return out


def read(r, text, model, want, ret, key):
    try:
        m = qirtext.Module(text)
        f = m.entry()
        calls, visited, got_ret = m.trace(f)
        m.check_calls(calls)
    except qirtext.QirError as e:
        r.check(False, f"{key}:malformed", f"{e}\n{text}")
    r.check(len(m.functions) == 1 and len(visited) == len(f.order), f"{key}:functions", text)
    r.check(calls and calls[0][1] == "__quantum__rt__initialize", f"{key}:initialize", text)
    got = [(b, name, tuple(args)) for b, name, args in calls[1:]]
    r.check(got == want, f"{key}:instructions", f"{got} for {want}", text=text)
    r.check(visited == ["entry"] + list(BLOCKS), f"{key}:blocks", visited)
    for b, name, args in want:
        if name in model.rets:
            r.check(m.declared[name][0] == model.rets[name], f"{key}:return-type", f"{name}: {m.declared[name]}")
            r.event("return_types")
    r.check(got_ret == ret, f"{key}:return", f"{got_ret} for {ret}", text=text)
    attr = m.attr[f.attrs]
    r.check(attr.get("num_required_qubits", attr.get("required_num_qubits")) == str(model.n)
            and attr.get("num_required_results", attr.get("required_num_results")) == str(model.nb),
            f"{key}:attributes", attr)
    r.check(m.source == model.name, f"{key}:name", m.source)
    r.check(m.flags.get("qir_major_version") == str(model.kw.get("qir_major_version", 1))
            and m.flags.get("qir_minor_version") == str(model.kw.get("qir_minor_version", 0))
            and m.flags.get("dynamic_qubit_management") == str(model.kw.get("dynamic_qubit_management", False)).lower()
            and m.flags.get("dynamic_result_management") == "false", f"{key}:flags", m.flags)
    r.event("programs_compared")
    r.event("instructions_compared", len(want))


def ret_text(model):
    return "void" if model.ret is None else model.ret[0]


def compiled(r, model):
    """The module has just been compiled: text and bitcode must show the present program."""
    text = model.m.qir
    prog, ret = model.program(), ret_text(model)
    r.check(isinstance(text, str), "qir:type", type(text))
    read(r, text, model, prog, ret, "qir")
    model.snap = (text, prog, ret)
    if ret == "void":
        bitcode(r, model)
    if model.failed:
        r.event("compiled_after_failure")
        model.failed = False
    if model.ever:
        r.event("recompiled")
    model.ever = True


def bitcode(r, model):
    code = model.m.bitcode
    r.check(isinstance(code, bytes), "bitcode:type", type(code))
    mod = pyqir.Module.from_bitcode(pyqir.Context(), code)
    r.check(mod.verify() is None, "bitcode:invalid", mod.verify())
    read(r, str(mod), model, model.snap[1], model.snap[2], "bitcode")
    r.event("bitcode_compared")


def gate_call(rng, model):
    g = rng.choice([k for k, v in GATES.items() if v[2] <= model.n])
    fn, npar, nq = GATES[g]
    ps = [rng.choice([0, 1.5, -2, rng.uniform(-9, 9), 1e-300, 0.1]) for _ in range(npar)]
    qs = rng.sample(range(model.n), nq)
    args = ps + [model.m.qubits[q] for q in qs]
    ins = Instruction(InstrType.BASE, g, tuple(args) if rng.random() < 0.5 else args)
    return ins, (qirtext.qis(fn), tuple(("double", float(p)) for p in ps) + tuple(("Qubit", q) for q in qs))


def external_call(rng, model, name):
    types = model.ext[name]
    args, want = [], []
    for t in types:
        if t == "double":
            v = rng.choice([0.5, rng.uniform(-3, 3), -0.0, 7.0])
            args.append(v)
            want.append(("double", v))
        elif t == "Qubit":
            q = rng.randrange(model.n)
            args.append(model.m.qubits[q])
            want.append(("Qubit", q))
        elif t == "Result":
            b = rng.randrange(model.nb)
            args.append(model.m.results[b])
            want.append(("Result", b))
        else:
            v = rng.randint(0, 50)
            args.append(v)
            want.append(("i64", str(v)))
    return args, (qirtext.qis(name), tuple(want))


def py_type(model, t):
    T = model.m.Types
    return {"double": T.DOUBLE, "Qubit": T.QUBIT, "Result": T.RESULT, "i64": T.INT64}[t]


def step(r, rng, model, hist):
    m = model.m
    x = rng.random()
    if x < 0.30:
        ins, call = gate_call(rng, model)
        m.add_instruction("body", ins)
        model.held["body"].append(call)
        hist.append(["gate", call[0]] + [list(a) for a in call[1]])
    elif x < 0.38 and model.nb:
        q, b = rng.randrange(model.n), rng.randrange(model.nb)
        m.add_instruction("measurements", Instruction(InstrType.MEASUREMENT, "mz", (m.qubits[q], m.results[b])))
        model.held["measurements"].append((qirtext.qis("mz"), (("Qubit", q), ("Result", b))))
        hist.append(["mz", q, b])
    elif x < 0.44 and model.nb:
        b = rng.randrange(model.nb)
        m.add_instruction("output", Instruction(InstrType.OUTPUT, "out", [m.results[b]]))
        model.held["output"].append(("__quantum__rt__result_record_output", (("Result", b), ("i8*", None))))
        hist.append(["out", b])
    elif x < 0.50:
        model.counter += 1
        name = f"ext{model.counter}" if rng.random() < 0.8 else f"swap{model.counter}"
        types = [rng.choice(["double", "Qubit", "Qubit", "i64"] + (["Result"] if model.nb else []))
                 for _ in range(rng.randint(0, 4))]
        rt = rng.choice([None, None, None, "double", "i64"])
        m.add_external_function(name, [py_type(model, t) for t in types],
                                *([py_type(model, rt)] if rt else []))
        model.ext[name] = types
        model.rets[qirtext.qis(name)] = {"double": "double", "i64": "i64"}.get(rt, "void")
        hist.append(["function", name, types, rt])
    elif x < 0.60 and model.ext:
        name = rng.choice(list(model.ext))
        args, call = external_call(rng, model, name)
        block = "body" if rng.random() < 0.9 else "measurements"
        m.add_instruction(block, m.get_external_instruction(name, args))
        model.held[block].append(call)
        r.event("external_calls")
        hist.append(["external", name, block])
    elif x < 0.62:
        # the function is passed to the instruction directly
        model.counter += 1
        name = f"direct{model.counter}"
        f = pyqir.Function(m.Types.function(m.Types.VOID, [m.Types.QUBIT]), Linkage.EXTERNAL, qirtext.qis(name), m._module)
        q = rng.randrange(model.n)
        m.add_instruction("body", Instruction(InstrType.EXTERNAL, name, [m.qubits[q]], external=f))
        model.held["body"].append((qirtext.qis(name), (("Qubit", q),)))
        r.event("external_calls")
        hist.append(["direct", name])
    elif x < 0.64:
        name = f"missing{rng.randrange(5)}"
        r.raises((Exception,), lambda: m.get_external_instruction(name, [m.qubits[0]]), "external:unknown", name)
        hist.append(["missing"])
    elif x < 0.67:
        # an instruction that cannot be executed
        ins = rng.choice([lambda: Instruction(InstrType.BASE, "x", [m.qubits[0], m.qubits[0]]),
                          lambda: Instruction(InstrType.DECOMPOSE, "x", [m.qubits[0]]),
                          lambda: Instruction(InstrType.BASE, "no_such_gate", [m.qubits[0]]),
                          lambda: Instruction(InstrType.BASE, "rx", [m.qubits[0], 0.5])])()
        if rng.random() < 0.3:
            m.add_instruction("body", ins)
            model.bad = True
            hist.append(["bad"])
    elif x < 0.73:
        set_return(r, rng, model, hist)
    elif x < 0.80:
        compile_(r, rng, model, hist, force=False)
    elif x < 0.87:
        compile_(r, rng, model, hist, force=True)
    elif x < 0.93:
        reset(r, rng, model, hist, rm=False)
    elif x < 0.96:
        reset(r, rng, model, hist, rm=True)
    else:
        look(r, rng, model, hist)


def set_return(r, rng, model, hist):
    m = model.m
    force = rng.random() < 0.4
    if rng.random() < 0.5 or not model.nb:
        cmd, text = None, None
    else:
        b = rng.randrange(model.nb)
        cmd = m.results[b]
        text = "%Result* null" if b == 0 else f"%Result* inttoptr (i64 {b} to %Result*)"
    hist.append(["return", text, force])
    if model.ret is not None and not force:
        r.raises((ValueError,), lambda: m.set_return(cmd), "return:set-twice")
        r.event("refused_returns")
        return
    m.set_return(cmd, force=force) if rng.random() < 0.5 else m.set_return(ret_cmd=cmd, force=force)
    model.ret = None if cmd is None else (text, cmd)
    r.event("returns_set")


def compile_(r, rng, model, hist, force):
    m = model.m
    strict = rng.random() < 0.8
    hist.append(["compile", force, strict])
    kw = {}
    if force or rng.random() < 0.3:
        kw["force"] = force
    if not strict or rng.random() < 0.3:
        kw["strict"] = strict
    if model.snap is not None and not force:
        text = model.snap[0]
        r.raises((CompileError,), lambda: m.compile(**kw), "compile:twice")
        r.check(m.qir == text, "compile:refused-but-changed", text)
        if model.snap[2] == "void":
            bitcode(r, model)
        r.event("refused_recompile")
        return
    if model.bad or (strict and model.ret is not None):
        r.raises((Exception,), lambda: m.compile(**kw), "compile:invalid", f"{model.bad} {model.ret}")
        model.snap = None
        model.failed = True
        r.event("failed_compilations")
        return
    old = model.snap
    m.compile(**kw)
    if not strict:
        r.event("non_strict")
    compiled(r, model)
    if old is not None and (old[1], old[2]) == (model.snap[1], model.snap[2]):
        same = normal(old[0]) == normal(model.snap[0])
        r.check(same, "recompile:different-text", f"{old[0]}\n----\n{model.snap[0]}")
        r.event("recompiled_unchanged")


def normal(text):
    """Text of the function; declarations may appear in another order or unused."""
    lines = [ln for ln in text.splitlines() if ln.strip()]
    start = next(k for k, ln in enumerate(lines) if ln.startswith("define"))
    return lines[start:lines.index("}")]


def reset(r, rng, model, hist, rm):
    m = model.m
    hist.append(["reset", rm])
    if model.snap is None:
        r.event("reset_before_compile")
    m.reset(rm_instructions=rm) if rng.random() < 0.7 or not rm else m.reset()
    model.snap = None
    if rng.random() < 0.2:
        m.reset(rm_instructions=False)
        r.event("double_resets")
    if rm:
        for name in list(model.ext)[:2]:
            r.raises((Exception,), lambda: m.get_external_instruction(name, [m.qubits[0]]), "reset:function-kept", name)
        model.held = {b: [] for b in BLOCKS}
        model.ext, model.ret, model.bad = {}, None, False
        r.event("resets_removed")
        if rng.random() < 0.5:
            new = model.fresh()
            want = new.qir
            m.compile()
            r.check(m.qir == want, "reset:not-like-new", f"{m.qir}\n----\n{want}")
            compiled(r, model)
            r.event("equal_to_new")
    else:
        r.event("resets_kept")
        if any("ext" in c[0] or "swap" in c[0] or "direct" in c[0] for c in model.held["body"]):
            r.event("external_kept_over_reset")
    r.check(len(m.qubits) == model.n and len(m.results) == model.nb and m.name == model.name, "reset:sizes")


def look(r, rng, model, hist):
    m = model.m
    hist.append(["look"])
    which = rng.random() < 0.5
    if model.snap is None:
        if model.bad or model.ret is not None:
            r.raises((Exception,), (lambda: m.qir) if which else (lambda: m.bitcode), "look:invalid")
            model.failed = True
            r.event("failed_compilations")
            return
        (m.qir if which else m.bitcode)
        compiled(r, model)
    else:
        r.check(m.qir == model.snap[0], "look:changed", m.qir)
        if model.snap[2] == "void":
            bitcode(r, model)


def sec_history(r, rng, i):
    context = pyqir.Context() if rng.random() < 0.4 else None
    models = [Model(rng, context) for _ in range(1 if context is None else rng.choice([1, 2, 3]))]
    if context is not None:
        r.event("shared_context", len(models))
    hist = []
    for _ in range(rng.choice([5, 15, 40])):
        k = rng.randrange(len(models))
        hist.append(k)
        r.case = hist
        step(r, rng, models[k], hist)
        r.event("steps")
    for k, model in enumerate(models):
        if model.bad or model.ret is not None:
            reset(r, rng, model, hist, rm=True)
            continue
        if model.snap is None:
            model.m.compile()
        else:
            model.m.compile(force=True)
        compiled(r, model)
    r.seen(hist, any(m.ever for m in models))


def sec_repeat(r, rng, i):
    """A module recompiled and reset many times in a row, with external functions held throughout."""
    model = Model(rng)
    hist = []
    for _ in range(rng.randint(3, 12)):
        step_build(r, rng, model, hist)
    compile_only(r, model)
    for _ in range(rng.choice([3, 10])):
        x = rng.random()
        if x < 0.5:
            old = model.m.qir
            model.m.compile(force=True)
            r.check(normal(model.m.qir) == normal(old), "recompile:different-text", f"{old}\n----\n{model.m.qir}")
            compiled(r, model)
            r.event("recompiled_unchanged")
        elif x < 0.8:
            reset(r, rng, model, hist, rm=False)
            model.m.compile()
            compiled(r, model)
        else:
            step_build(r, rng, model, hist)
            model.m.compile(force=True)
            compiled(r, model)
    r.seen(["repeat", hist])


def step_build(r, rng, model, hist):
    while True:
        before = len(hist)
        x = rng.random()
        if x < 0.5:
            ins, call = gate_call(rng, model)
            model.m.add_instruction("body", ins)
            model.held["body"].append(call)
            hist.append(call[0])
        elif x < 0.7 or not model.ext:
            model.counter += 1
            name = f"ext{model.counter}"
            types = [rng.choice(["double", "Qubit", "i64"]) for _ in range(rng.randint(1, 3))]
            model.m.add_external_function(name, [py_type(model, t) for t in types])
            model.ext[name] = types
            hist.append([name] + types)
        else:
            name = rng.choice(list(model.ext))
            args, call = external_call(rng, model, name)
            model.m.add_instruction("body", model.m.get_external_instruction(name, args))
            model.held["body"].append(call)
            r.event("external_calls")
            hist.append(call[0])
        if len(hist) > before:
            return


def compile_only(r, model):
    model.m.compile()
    compiled(r, model)


def sec_compare(r, rng, i):
    """Instructions compare by kind, name, parameters and numbers of qubits and results."""
    model = Model(rng)
    m = model.m
    f = pyqir.Function(m.Types.function(m.Types.VOID, [m.Types.QUBIT]), Linkage.EXTERNAL, qirtext.qis("f"), m._module)
    made = []
    for _ in range(rng.randint(4, 12)):
        if made and rng.random() < 0.7:  # differs from an earlier one in little or nothing
            t, name, ps, nq, nr = rng.choice(made)[1]
            x = rng.randrange(6)
            if x == 0:
                t = rng.choice(list(InstrType))
            elif x == 1:
                name = rng.choice(["x", "rx", "rot", "mz", name.upper()])
            elif x == 2:
                ps = tuple(rng.sample(ps, len(ps)))
            elif x == 3:
                ps = ps[:-1] + ((ps[-1] + rng.choice([1e-9, 1, -2]),) if ps else (0.5,))
            elif x == 4:
                nq, nr = rng.choice([(nq + 1, nr), (nr, nq), (nq, nr + 1), (nq + 1, max(0, nr - 1))])
        else:
            t, name = rng.choice(list(InstrType)), rng.choice(["x", "rx", "rot", "mz"])
            ps = tuple(rng.choice([0, 1, 2.5, -1, 0.1]) for _ in range(rng.randint(0, 3)))
            nq, nr = rng.randint(0, 3), rng.randint(0, 2)
        args = list(ps) + [pyqir.qubit(m._module.context, rng.randrange(3)) for _ in range(nq)] \
            + [pyqir.result(m._module.context, rng.randrange(3)) for _ in range(nr)]
        if rng.random() < 0.3:  # parameters keep their order wherever the qubits are
            rest = args[len(ps):]
            rng.shuffle(rest)
            args = list(ps)
            for a in rest:
                args.insert(rng.randint(0, len(args)), a)
        ins = Instruction(t, name, tuple(args) if rng.random() < 0.5 else args, *([f] if t is InstrType.EXTERNAL or rng.random() < 0.2 else []))
        r.check(ins.type is t and ins.name == name and list(ins.args) == list(args), "compare:fields")
        made.append((ins, (t, name, ps, nq, nr)))
        bad = list(args)
        bad.insert(rng.randint(0, len(bad)), rng.choice(["0", None, 1j, [0], object(), pyqir.Context()]))
        r.raises(TypeError, lambda: Instruction(t, name, bad, f), "compare:bad-argument", repr(bad))
        r.raises(ValueError, lambda: Instruction(InstrType.EXTERNAL, name, args), "compare:no-function")
    for a, da in made:
        for b, db in made:
            same = da[0] is db[0] and da[1:] == db[1:]
            r.check((a == b) is same and (a != b) is (not same), "compare:equality", f"{da} {db}: {a == b}")
            r.event("instructions_equal" if same else "instructions_differ")
    r.seen(["compare", i])


SECTIONS = [
    ("compare", sec_compare, 150, 4000),
    ("history", sec_history, 1200, 25000),
    ("repeat", sec_repeat, 300, 6000),
]
