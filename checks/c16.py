"""C16: QIR export and import preserve the circuit."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C16"
RULE = ("random circuits over the gates QIR knows, on random register layouts with trailing measurements, compiled "
        "to text and bitcode and read by an independent reader of the LLVM text; random modules written by the "
        "harness and loaded; distinct by program, layout and options, non-trivial when at least one quantum "
        "instruction is involved")
ASSUMPTIONS = ["bitcode is turned into text by LLVM (through pyqir) before it is read; LLVM is trusted",
               "external functions have the names of the package's table (rot, cy, swap, ch, crx, cry, crz, crot, "
               "cswap, ccnot); CX is compiled to cnot as PyQIR does",
               "modules for loading have one function, whose blocks follow each other in the text without "
               "conditional branches, and static qubit and result numbers",
               "user-defined operations do not have the class name of a built-in operation",
               "adjacent measurements may be merged into one when loading"]
REQUIRED = ["modules_read", "instructions_compared", "parameters_compared", "measurements_compared", "outputs_compared",
            "multi_register", "bitcode_modules", "external_modules", "round_trips", "loaded_modules",
            "loaded_into_circuit", "early_return", "refused_with_exception", "unused_qubits", "identities", "compiled_again", "grown",
            "mid_module_measurements", "unknown_instruction"] + [
            f"refused:{x}" for x in ("external", "mid-circuit", "condition", "barrier", "custom", "variable", "no-bits")]
SCALE = 6
BUDGET = {"quick": 240, "thorough": 500}
NEEDS_SIMULATOR = False

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import math
import struct
import numpy as np
import pyqir

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.primitives import Qubit
from dwave.gate.qir.compiler import qir_module
from dwave.gate.qir.loader import load_qir_bitcode, load_qir_string

import gen
import qirtext
import ref

Op = gen.Op

BASE = {"X": "x", "Y": "y", "Z": "z", "Hadamard": "h", "S": "s", "T": "t", "RX": "rx", "RY": "ry", "RZ": "rz",
        "CX": "cnot", "CZ": "cz"}
EXTERNAL = {"Rotation": "rot", "CY": "cy", "SWAP": "swap", "CHadamard": "ch", "CRX": "crx", "CRY": "cry", "CRZ": "crz",
            "CRotation": "crot", "CSWAP": "cswap", "CCX": "ccnot"}
ALL = {**BASE, **EXTERNAL}
BITS = lambda x: struct.pack(">d", float(x))


def param(rng):
    x = rng.random()
    if x < 0.5:
        return gen.param(rng)
    if x < 0.6:
        return np.float64(rng.uniform(-4, 4))
    if x < 0.7:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)
    if x < 0.8:
        return math.nextafter(rng.choice([math.pi, 1.0, 0.1]), rng.choice([10, -10]))
    if x < 0.88:
        return rng.choice([np.int64(rng.randint(-5, 5)), rng.randint(-9, 9), 10 ** 6])
    return rng.choice([0.1 + 0.2, 1 / 3, 5e-324, 1e22, -1e-7, -0.0, 2 ** 53 + 2.0, 1.7976931348623157e308])


def program(rng, n, length, names):
    return [o._replace(params=tuple(param(rng) for _ in o.params))
            for o in (gen.gate(rng, n, names) for _ in range(length))]


def measurements(rng, n, nb, count):
    out = []
    for _ in range(count):
        k = rng.randint(1, min(n, nb))
        out.append(Op("Measurement", (), tuple(rng.sample(range(n), k)), bits=tuple(rng.sample(range(nb), k))))
    return out


def expected(prog):
    """(gates, measurements): the calls the module must make."""
    gates, meas = [], []
    for o in prog:
        canon = ref.ALIASES.get(o.name, o.name)
        if o.name == "Measurement":
            meas += list(zip(o.qubits, o.bits))
        elif canon != "Identity":
            gates.append((qirtext.qis(ALL[canon]), o.params, o.qubits))
    return gates, meas


def as_text(r, out, bitcode):
    r.check(isinstance(out, bytes if bitcode else str), "encoding", type(out))
    m = pyqir.Module.from_bitcode(pyqir.Context(), out) if bitcode else pyqir.Module.from_ir(pyqir.Context(), out)
    r.check(m.verify() is None, "module:invalid", f"{m.verify()}\n{m}")
    if bitcode:
        r.event("bitcode_modules")
    return str(m)


def check_module(r, text, prog, n, nb):
    try:
        m = qirtext.Module(text)
        f = m.entry()
        calls, visited, ret = m.trace(f)
        m.check_calls(calls)
    except qirtext.QirError as e:
        r.check(False, "module:malformed", f"{e}\n{text}")
    r.check(len(m.functions) == 1, "module:functions", text)
    r.check(ret == "void", "module:return", ret)
    attr = m.attr[f.attrs]
    r.check(attr.get("num_required_qubits", attr.get("required_num_qubits")) == str(n), "module:qubits", f"{attr} for {n}")
    r.check(attr.get("num_required_results", attr.get("required_num_results")) == str(nb), "module:results", f"{attr} for {nb}")
    r.check(m.flags.get("qir_major_version") == "1" and m.flags.get("qir_minor_version") == "0"
            and m.flags.get("dynamic_qubit_management") == "false"
            and m.flags.get("dynamic_result_management") == "false", "module:flags", m.flags)
    gates, meas = expected(prog)
    qcalls = [(name, args) for _, name, args in calls if "__qis__" in name]
    rt = [(name, args) for _, name, args in calls if "__qis__" not in name]
    got = []
    k = 0
    while k < len(qcalls) and qcalls[k][0] != qirtext.qis("mz"):
        name, args = qcalls[k]
        got.append((name, tuple(v for t, v in args if t == "double"), tuple(v for t, v in args if t == "Qubit")))
        r.check(all(t in ("double", "Qubit") for t, _ in args), "gates:arguments", args)
        k += 1
    r.check(len(got) == len(gates), "gates:number", f"{got} for {gates}", text=text)
    for (a, ap, aq), (b, bp, bq) in zip(got, gates):
        r.check(a == b, "gates:name", f"{a} for {b}", text=text)
        r.check(aq == tuple(bq), "gates:qubits", f"{a} {aq} for {bq}", text=text)
        r.check([BITS(x) for x in ap] == [BITS(x) for x in bp], "gates:parameters", f"{a} {ap} for {bp}", text=text)
        r.event("instructions_compared")
        r.event("parameters_compared", len(bp))
    mz = [(args[0][1], args[1][1]) if [t for t, _ in args] == ["Qubit", "Result"] else args
          for name, args in qcalls[k:] if name == qirtext.qis("mz")]
    r.check(all(name == qirtext.qis("mz") for name, _ in qcalls[k:]), "measurements:order", text)
    r.check(mz == meas, "measurements", f"{mz} for {meas}", text=text)
    r.event("measurements_compared", len(meas))
    r.check([name for name, _ in rt[:1]] == ["__quantum__rt__initialize"], "module:initialize", text)
    out = [args[0] for name, args in rt[1:] if name == "__quantum__rt__result_record_output"]
    r.check(len(out) == len(rt) - 1, "module:runtime-calls", text)
    r.check(out == [("Result", b) for _, b in meas], "outputs", f"{out} for {meas}", text=text)
    r.event("outputs_compared", len(out))
    names = [name for _, name, _ in calls]
    r.check(all(names.index("__quantum__rt__result_record_output") > j for j, x in enumerate(names) if "__qis__" in x)
            if out else True, "outputs:order", text)
    r.event("modules_read")
    return m


def oplist(c):
    """Observable content of a circuit: name, parameter bits, qubit and bit numbers; measurements are
    given one pair at a time."""
    out = []
    for o in c.circuit:
        q = [c.qubits.index(x) for x in o.qubits]
        if type(o).__name__ == "Measurement":
            out += [("Measurement", (), (a,), (c.bits.index(b),)) for a, b in zip(q, o.bits)]
        else:
            out.append((type(o).__name__, tuple(BITS(p) for p in getattr(o, "parameters", ())), tuple(q), ()))
    return out


def model_ops(prog):
    out = []
    for o in prog:
        canon = ref.ALIASES.get(o.name, o.name)
        if o.name == "Measurement":
            out += [("Measurement", (), (q,), (b,)) for q, b in zip(o.qubits, o.bits)]
        elif canon != "Identity":
            out.append((canon, tuple(BITS(p) for p in o.params), tuple(o.qubits), ()))
    return out


def sec_compile(r, rng, i):
    n = rng.choice([1, 2, 3, 4, 6, 12, 40])
    nb = rng.choice([0, 1, 3, 6, 20])
    ext = rng.random() < 0.5
    names = list(ALL if ext else BASE) + (["Identity"] if rng.random() < 0.4 else [])
    prog = program(rng, n, rng.choice([0, 1, 3, 10, 30]), names)
    if nb and rng.random() < 0.7:
        prog += measurements(rng, n, nb, rng.choice([1, 1, 2, 3]))
    bitcode = rng.random() < 0.4
    c = gen.make_circuit(rng, n, nb)
    gen.build(rng, prog, n, nb, circuit=c)
    r.seen([gen.describe(prog)[:30], [len(x) for x in c.qregisters.values()], [len(x) for x in c.cregisters.values()],
            ext, bitcode], bool(prog))
    before = oplist(c)
    if rng.random() < 0.8:
        out = gen.anywhere(c.to_qir)(add_external=ext, bitcode=bitcode)
    else:
        m = qir_module(c, add_external=ext)
        if rng.random() < 0.5:
            gen.anywhere(m.compile)()
        out = m.bitcode if bitcode else m.qir
    check_module(r, as_text(r, out, bitcode), prog, n, nb)
    r.check(oplist(c) == before and not any(len(x) for x in ()) , "compile:changed-circuit")
    if ext:
        r.event("external_modules")
    if len(c.qregisters) > 1:
        r.event("multi_register")
    if any(o.name == "Identity" for o in prog):
        r.event("identities")
    # and back
    back = Circuit.from_qir(out, bitcode=bitcode)
    check_loaded(r, back, prog, n, nb)
    r.event("round_trips")
    if len({q for o in prog for q in o.qubits}) < n:
        r.event("unused_qubits")
    if rng.random() < 0.3:
        # a second trip gives the same module
        again = back.to_qir(add_external=ext)
        check_module(r, again, prog, n, nb)


def sec_again(r, rng, i):
    """Circuits compiled again and again between changes."""
    n, nb = rng.choice([1, 2, 3, 5]), rng.choice([1, 3])
    names = list(ALL)
    prog = program(rng, n, rng.choice([1, 2, 5]), names)
    if rng.random() < 0.5:
        prog += measurements(rng, n, nb, 1)
    c = gen.make_circuit(rng, n, nb)
    gen.build(rng, prog, n, nb, circuit=c)
    log = [gen.describe(prog)]
    bitcode = rng.random() < 0.5
    for _ in range(rng.randint(2, 5)):
        out = gen.anywhere(c.to_qir)(add_external=True, bitcode=bitcode)
        check_module(r, as_text(r, out, bitcode), prog, n, nb)
        if rng.random() < 0.5:
            check_loaded(r, Circuit.from_qir(out, bitcode=bitcode), prog, n, nb)
        prog, what = gen.change(rng, c, prog, n, names, param)
        n, nb, grown = gen.grow(rng, c, n, nb, 9)
        r.event("grown", grown is not None)
        log.append([what, grown, gen.describe(prog)])
        if rng.random() < 0.3:
            bitcode = not bitcode
        r.event("compiled_again")
    r.seen(log, True)


def check_loaded(r, c, prog, n, nb, prefix=()):
    r.check(c.num_qubits == n, "load:qubits", f"{c.num_qubits} for {n}")
    r.check(c.num_bits == nb, "load:bits", f"{c.num_bits} for {nb}")
    got, want = oplist(c), list(prefix) + model_ops(prog)
    r.check(got == want, "load:operations", f"{got} for {want}")
    r.check(all(len(o.qubits) == o.num_qubits for o in c.circuit), "load:num_qubits")


def sec_refused(r, rng, i):
    what = ["external", "mid-circuit", "condition", "barrier", "custom", "variable", "no-bits"][i % 7]
    n = rng.choice([3, 4, 5])
    nb = 3
    prog = program(rng, n, rng.randint(0, 5), list(BASE))
    after = program(rng, n, rng.randint(0, 3), list(BASE))
    ext = rng.random() < 0.5
    bitcode = rng.random() < 0.5
    c = gen.make_circuit(rng, n, nb)
    gen.build(rng, prog, n, nb, circuit=c)
    c.unlock()
    detail = None
    if what == "variable":
        c = gen.derived(ParametricCircuit, 0.1)(n)
        gen.build(rng, prog, n, circuit=c)
        c.unlock()
    with c.context as reg:
        q = rng.sample(list(reg.q), n)
        if what == "external":
            ext = False
            detail = rng.choice(list(EXTERNAL))
            gen.instantiate(gen.gate(rng, n, [detail]), reg.q, rng)
        elif what == "mid-circuit":
            ops.Measurement(q[:rng.randint(1, 3)]) | list(reg.c)
            while not after:
                after = program(rng, n, rng.randint(1, 3), list(BASE))
            detail = gen.describe(after)
        elif what == "condition":
            detail = rng.choice(["X", "CZ", "RX", "Measurement"])
            o = {"X": lambda: ops.X(q[0]), "CZ": lambda: ops.CZ(q[0], q[1]), "RX": lambda: ops.RX(0.3, q[1]),
                 "Measurement": lambda: ops.Measurement(q[0]) | reg.c[0]}[detail]()
            o.conditional(reg.c[rng.randrange(3)] if rng.random() < 0.5 else tuple(reg.c))
            if detail == "Measurement":
                after = []
        elif what == "barrier":
            ops.Barrier(tuple(q[:rng.randint(1, n)]))
        elif what == "custom":
            gen.instantiate(gen.custom_ops(rng, n), reg.q, rng)
        elif what == "variable":
            rng.choice([lambda: ops.RX(reg.p[1], q[0]), lambda: ops.RZ(reg.p[0], q[0]), lambda: ops.RY(reg.p[2], q[0])])()
        elif what == "no-bits":
            ops.Measurement(q[:rng.randint(1, n)])
            after = []
        for o in after:
            gen.instantiate(o, reg.q, rng)
    r.seen([what, detail, gen.describe(prog), gen.describe(after), ext, bitcode])
    r.raises((Exception,), lambda: gen.anywhere(c.to_qir)(add_external=ext, bitcode=bitcode), f"refused:{what}", detail)
    r.event(f"refused:{what}")


# ---------------------------------------------------------------- modules written by the harness

LOADNAMES = {**{v: k for k, v in ALL.items()}, "cx": "CX", "id": "Identity"}
UNKNOWN = ["s__adj", "t__adj", "reset__body", "foo__body", "rzz__body", "x__ctl", "m__body", "xx__body",
           "CNOT__body", "X__body", "rx__adj", "mz__adj", "ccx__body"]


def arg_text(kind, v, rng):
    if kind == "double":
        if rng.random() < 0.5:
            return f"double 0x{BITS(v).hex().upper()}"
        t = repr(float(v))
        if "inf" in t or "nan" in t:
            return f"double 0x{BITS(v).hex().upper()}"
        # LLVM wants decimal literals which are exact
        return f"double 0x{BITS(v).hex().upper()}" if float(v) != int(v) or abs(v) > 1e15 else f"double {float(v):.6e}" \
            if float(f"{float(v):.6e}") == float(v) else f"double 0x{BITS(v).hex().upper()}"
    if v == 0 and rng.random() < 0.8:
        return f"%{kind}* null"
    return f"%{kind}* inttoptr (i64 {v} to %{kind}*)" if v else f"%{kind}* null"


def write_module(rng, seq, n, nb, attrs=True, ret_at=None, unreachable=()):
    """seq: (qis name incl. suffix, params, qubits, results); returns LLVM text."""
    decl = {}
    lines = []

    def call(name, params, qubits, results):
        full = f"__quantum__qis__{name}"
        args = [arg_text("double", p, rng) for p in params] + [arg_text("Qubit", q, rng) for q in qubits] \
            + [arg_text("Result", b, rng) for b in results]
        decl[full] = ["double"] * len(params) + ["%Qubit*"] * len(qubits) + ["%Result*"] * len(results)
        return f"  call void @{full}({', '.join(args)})"
    blocks = [[]]
    names = ["entry"]
    for s in seq:
        if rng.random() < 0.15:
            blocks.append([])
            names.append(f"b{len(names)}")
        blocks[-1].append(call(*s))
        if rng.random() < 0.1 and s[0] == "mz__body":
            decl["__quantum__rt__result_record_output"] = ["%Result*", "i8*"]
            blocks[-1].append(f"  call void @__quantum__rt__result_record_output({arg_text('Result', s[3][0], rng)}, i8* null)")
    dead = [call(*s) for s in unreachable]
    out = ["; ModuleID = 'm'", 'source_filename = "m"', "", "%Qubit = type opaque", "%Result = type opaque", "",
           f"define void @{rng.choice(['main', 'entry_fn', 'program'])}(){' #0' if attrs else ''} {{"]
    for k, (nm, b) in enumerate(zip(names, blocks)):
        out.append(f"{nm}:")
        if k == 0 and rng.random() < 0.7:
            decl["__quantum__rt__initialize"] = ["i8*"]
            out.append("  call void @__quantum__rt__initialize(i8* null)")
        out += b
        out.append(f"  br label %{names[k + 1]}" if k + 1 < len(names) else "  ret void")
    if dead:
        out += ["dead:"] + dead + ["  ret void"]
    out.append("}")
    items = list(decl.items())
    rng.shuffle(items)
    for name, types in items:
        out += ["", f"declare void @{name}({', '.join(types)})"]
    if attrs:
        out += ["", f'attributes #0 = {{ "entry_point" "num_required_qubits"="{n}" "num_required_results"="{nb}" '
                '"output_labeling_schema" "qir_profiles"="custom" }']
    out += ["", "!llvm.module.flags = !{!0, !1, !2, !3}", '!0 = !{i32 1, !"qir_major_version", i32 1}',
            '!1 = !{i32 7, !"qir_minor_version", i32 0}', '!2 = !{i32 1, !"dynamic_qubit_management", i1 false}',
            '!3 = !{i32 1, !"dynamic_result_management", i1 false}']
    return "\n".join(out)


def sequence(rng, n, nb, length, mid):
    """A sequence of quantum instructions and the abstract program it denotes."""
    seq, prog = [], []
    names = list(LOADNAMES)
    for _ in range(length):
        if nb and rng.random() < 0.2 and mid:
            q, b = rng.randrange(n), rng.randrange(nb)
            seq.append(("mz__body", (), (q,), (b,)))
            prog.append(Op("Measurement", (), (q,), bits=(b,)))
            continue
        k = rng.choice([x for x in names if ref.GATES[LOADNAMES[x]][0] <= n])
        o = gen.gate(rng, n, [LOADNAMES[k]], alias=False)
        o = o._replace(params=tuple(float(param(rng)) for _ in o.params))
        seq.append((f"{k}__body", o.params, o.qubits, ()))
        prog.append(o)
    return seq, prog


def used(prog):
    q = max([x for o in prog for x in o.qubits], default=-1) + 1
    b = max([x for o in prog for x in o.bits], default=-1) + 1
    return q, b


def model_loaded(prog):
    out = []
    for o in prog:
        if o.name == "Measurement":
            out += [("Measurement", (), (q,), (b,)) for q, b in zip(o.qubits, o.bits)]
        else:
            out.append((o.name, tuple(BITS(p) for p in o.params), tuple(o.qubits), ()))
    return out


def sec_load(r, rng, i):
    n = rng.choice([1, 2, 3, 5, 9, 30, 200])
    nb = rng.choice([0, 1, 2, 5, 120])
    mid = rng.random() < 0.4
    seq, prog = sequence(rng, n, nb, rng.choice([0, 1, 4, 12, 30]), mid)
    if nb and rng.random() < 0.6:
        for m in measurements(rng, n, nb, 1):
            for q, b in zip(m.qubits, m.bits):
                seq.append(("mz__body", (), (q,), (b,)))
                prog.append(Op("Measurement", (), (q,), bits=(b,)))
    attrs = rng.random() < 0.7
    dead = sequence(rng, n, nb, rng.randint(1, 3), True)[0] if rng.random() < 0.3 else ()
    if dead and rng.random() < 0.3:
        dead = list(dead) + [("unknown__body", (), (0,), ())]
    text = write_module(rng, seq, n, nb, attrs, unreachable=dead)
    m = pyqir.Module.from_ir(pyqir.Context(), text)
    if m.verify() is not None:
        raise AssertionError(f"harness wrote an invalid module: {m.verify()}\n{text}")
    bitcode = rng.random() < 0.4
    src = m.bitcode if bitcode else text
    style = rng.randrange(3)
    nq, nbits = used(prog)
    if attrs:
        nq, nbits = max(nq, n), max(nbits, nb)
    r.seen([[list(s[:1]) + [list(x) for x in s[1:]] for s in seq[:30]], attrs, len(dead), bitcode, style], bool(seq))
    ctx = rng.choice([None, pyqir.Context()])
    if style == 0:
        c = Circuit.from_qir(src, bitcode=bitcode)
        prefix = []
    else:
        prefix = []
        c = None
        if style == 2:
            en, eb = rng.choice([0, 1, 2, 4, 8]), rng.choice([0, 1, 3])
            c = gen.make_circuit(rng, en, eb, sizes=gen.layout(rng, en) if en else None)
            if en:
                pre = program(rng, en, rng.randint(0, 4), list(ALL))
                if eb and rng.random() < 0.5:
                    pre += measurements(rng, en, eb, 1)
                gen.build(rng, pre, en, eb, circuit=c)
                prefix = model_loaded([p._replace(name=ref.ALIASES.get(p.name, p.name)) for p in pre])
            nq, nbits = max(nq, en), max(nbits, eb)
            r.event("loaded_into_circuit")
            if rng.random() < 0.5:
                c.lock()
        load = load_qir_bitcode if bitcode else load_qir_string
        kw = {"circuit": c} if c is not None or rng.random() < 0.3 else {}
        if ctx is not None:
            kw["context"] = ctx
        res = load(src, **kw)
        r.check(c is None or res is c, "load:into-circuit")
        c = res
    r.check(c.num_qubits == nq, "load:qubits", f"{c.num_qubits} for {nq}", text=text)
    r.check(c.num_bits == nbits, "load:bits", f"{c.num_bits} for {nbits}", text=text)
    got, want = oplist(c), list(prefix) + model_loaded(prog)
    r.check(got == want, "load:operations", f"{got} for {want}", text=text)
    r.event("loaded_modules")
    if dead:
        r.event("early_return")
    kinds = [o.name == "Measurement" for o in prog]
    if any(a and not b for a, b in zip(kinds, kinds[1:])):
        r.event("mid_module_measurements")


def sec_unknown(r, rng, i):
    n, nb = rng.choice([1, 3, 5]), rng.choice([0, 2])
    seq, _ = sequence(rng, n, nb, rng.randint(0, 6), True)
    bad = UNKNOWN[i % len(UNKNOWN)]
    seq.insert(rng.randint(0, len(seq)), (bad, (), (rng.randrange(n),), ()))
    text = write_module(rng, seq, n, nb, rng.random() < 0.5)
    bitcode = rng.random() < 0.5
    src = pyqir.Module.from_ir(pyqir.Context(), text).bitcode if bitcode else text
    r.seen([bad, [list(s[:1]) + [list(x) for x in s[1:]] for s in seq]])
    r.raises((Exception,), lambda: Circuit.from_qir(src, bitcode=bitcode), "unknown-instruction", bad)
    r.event("unknown_instruction")


SECTIONS = [
    ("again", sec_again, 150, 5000),
    ("compile", sec_compile, 900, 20000),
    ("refused", sec_refused, 350, 5000),
    ("load", sec_load, 900, 20000),
    ("unknown", sec_unknown, 130, 1500),
]
