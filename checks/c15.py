"""C15: OpenQASM export denotes the same circuit."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))

PID = "C15"
RULE = ("random programs over all exportable gates and created operations, on random register layouts with and "
        "without labels and definitions; the text is read by an independent OpenQASM 2.0 interpreter; distinct "
        "by program, layout and options, non-trivial when at least one gate is exported")
ASSUMPTIONS = ["a register of size zero is accepted in the text although the OpenQASM grammar wants a positive size",
               "crx and cry are taken to be part of qelib1.inc, and real literals such as 1e-09 to be legal",
               "created operations are named so that their lower-case names are new identifiers, and their definition "
               "is supplied by the reader, as the documentation says",
               "labels are not names of gates",
               "parameters are Python numbers or numpy double precision numbers"]
REQUIRED = ["programs_read", "gates_compared", "parameters_compared", "unitaries_compared", "registers_compared",
            "multi_register", "labelled", "definitions_checked", "created_operations", "refused_with_exception",
            "refused:condition", "refused:measurement", "refused:barrier", "refused:label", "refused:variable",
            "refused:no_qasm", "re-exports", "exported_again", "grown", "single_operations"]
SCALE = 6
BUDGET = {"quick": 240, "thorough": 500}
NEEDS_SIMULATOR = False

if __name__ == "__main__":
    import harness
    harness.run(__file__, globals())

import math
import numpy as np

import dwave.gate.operations as ops
from dwave.gate.circuit import Circuit, ParametricCircuit
from dwave.gate.operations.base import create_operation
from dwave.gate.primitives import Bit, Qubit, Variable
from dwave.gate.registers.registers import ClassicalRegister, QuantumRegister

import gen
import qasm
import ref

Op = gen.Op

# name in the text -> canonical gate
QNAMES = {"id": "Identity", "x": "X", "y": "Y", "z": "Z", "h": "Hadamard", "s": "S", "t": "T", "rx": "RX", "ry": "RY",
          "rz": "RZ", "rot": "Rotation", "cx": "CX", "cy": "CY", "cz": "CZ", "ch": "CHadamard", "crx": "CRX",
          "cry": "CRY", "crz": "CRZ", "crot": "CRotation", "swap": "SWAP", "cswap": "CSWAP", "ccx": "CCX"}
# pinned by the test suite and malformed: reported once, by the section "rotation-definition"
BAD_ROT = "gate rot(beta, gamma, delta) { rz(beta) q[0]; ry(gamma) q[0]; rz(delta) q[0]; }"
GOOD_ROT = "gate rot(beta, gamma, delta) a { rz(beta) a; ry(gamma) a; rz(delta) a; }"
USER = {line.split()[1].split("(")[0]: line + "\n" for line in qasm.USER_GATES.strip().splitlines()}


def user_gates(without=()):
    return "".join(v for k, v in USER.items() if k not in without)


def parse(r, text, extra, key="text:malformed"):
    try:
        return qasm.read(text, extra)
    except qasm.QasmError as e:
        r.check(False, key, f"{e}\n{text}")


def defined_in(text):
    return [ln.split()[1].split("(")[0] for ln in text.splitlines() if ln.startswith("gate ")]


def param(rng):
    x = rng.random()
    if x < 0.5:
        return gen.param(rng)
    if x < 0.6:
        return np.float64(rng.uniform(-4, 4))
    if x < 0.65:
        return rng.choice([np.int64(rng.randint(-5, 5)), 10 ** 17 + 1, -7, 0])
    if x < 0.8:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-20, 6)
    if x < 0.9:
        return math.nextafter(rng.choice([math.pi, 1.0, 0.1, -0.3]), rng.choice([10, -10]))
    return rng.choice([0.1 + 0.2, 1 / 3, 5e-324, 1e22, -1e-7, 123456789.123456789, 2 ** 53 + 2.0, -0.0])


def exact_program(rng, n, length, names=None):
    out = []
    for _ in range(length):
        o = gen.gate(rng, n, names)
        out.append(o._replace(params=tuple(param(rng) for _ in o.params)))
    return out


LABELS = ["apple", "banana", "c", "q", "q0", "q1", "q2", "c0", "qreg0", "creg0", "aB_9", "myReg", "r", "zz", "target",
          "u", "pix", "iffy", "gates", "measure_", "regs"]


def labelled_circuit(rng, n, nb, ok=True):
    """A circuit whose register labels are OpenQASM identifiers."""
    c = gen.derived(Circuit, 0.1)()
    labels = rng.sample(LABELS, len(LABELS))
    jobs = [("q", s) for s in gen.layout(rng, n, rng.choice([1, 2, 4, 6]))]
    jobs += [("c", s) for s in (gen.layout(rng, nb, 3) if nb else [])]
    rng.shuffle(jobs)
    auto = rng.random() < 0.3
    if auto:
        labels = [x for x in labels if not x.startswith(("qreg", "creg"))]
    for kind, s in jobs:
        label = labels.pop()
        if kind == "q":
            if auto and rng.random() < 0.4:
                c.add_qregister(s)
            else:
                c.add_qregister(s, label)
        elif auto and rng.random() < 0.4:
            c.add_cregister(s)
        else:
            c.add_cregister(s, label)
    return c


def check_text(r, text, circuit, expected, labels, defs, n, extra="", customs=None, unitary=True):
    """The text against the abstract program and the circuit's registers."""
    customs = customs or {}
    in_text = defined_in(text) if defs else []
    if defs and BAD_ROT in text:
        r.check(text.count(BAD_ROT) == 1, "definitions:repeated", text)
        text = text.replace(BAD_ROT, GOOD_ROT)
        r.event("known_rotation_definition")
    if defs:
        # what the text does not define must be in the library
        p = parse(r, text, extra)
        r.check(len(p.order) == len(set(p.order)), "definitions:repeated", text)
        for name in p.order:
            r.check(name in QNAMES, "definitions:unknown", name)
            nq, npar, f = ref.GATES[QNAMES[name]]
            ps = [0.7 + 1.3 * k for k in range(npar)]
            r.check(len(p.defs[name][0]) == npar and len(p.defs[name][1]) == nq, "definitions:arguments", name)
            r.check(ref.close_phase(qasm.gate_unitary(p, name, ps, nq), f(*ps)), "definitions:wrong-gate", text)
            r.event("definitions_checked")
    else:
        r.check("gate " not in text, "definitions:not-asked-for", text)
        p = parse(r, text, user_gates() + extra)
    # registers
    want_q = [len(x) for x in circuit.qregisters.values()]
    want_c = [len(x) for x in circuit.cregisters.values()]
    r.check([s for _, s in p.qregs] == want_q, "registers:quantum", f"{p.qregs} for {want_q}", text=text)
    r.check([s for _, s in p.cregs] == want_c, "registers:classical", f"{p.cregs} for {want_c}", text=text)
    if labels:
        r.check([a for a, _ in p.qregs] == list(circuit.qregisters), "registers:labels", text)
        r.check([a for a, _ in p.cregs] == list(circuit.cregisters), "registers:labels", text)
        r.event("labelled")
    r.event("registers_compared", len(p.qregs) + len(p.cregs))
    if len(p.qregs) > 1:
        r.event("multi_register")
    idx, total = qasm.qubit_index(p)
    r.check(total == n, "registers:total", f"{total} != {n}")
    # gates, in order
    r.check(len(p.statements) == len(expected), "gates:number", f"{len(p.statements)} for {len(expected)}", text=text)
    for (g, ps, qs), o in zip(p.statements, expected):
        canon = ref.ALIASES.get(o.name, o.name)
        if o.name in customs:
            r.check(g == customs[o.name], "gates:created", f"{g} for {o.name}", text=text)
            r.event("created_operations")
        else:
            r.check(QNAMES.get(g) == canon, "gates:kind", f"{g} for {canon}", text=text)
        r.check([idx[x] for x in qs] == list(o.qubits), "gates:qubits", f"{g} {qs} for {o.qubits}", text=text)
        r.check(len(ps) == len(o.params) and all(float(a) == float(b) for a, b in zip(ps, o.params)),
                "gates:parameters", f"{g} {ps} for {o.params}", text=text)
        r.event("parameters_compared", len(ps))
        r.event("gates_compared")
    r.event("programs_read")
    if unitary and n <= 6 and all(abs(x) < 1e4 for o in expected for x in o.params):
        v = [(m, [idx[q] for q in q2]) for g, ps, qs in p.statements for m, q2 in qasm.expand(p, g, ps, qs)]
        r.check(ref.close_phase(ref.unitary(n, v), ref.unitary(n, [(custom_matrix(o), o.qubits) for o in expected]), 1e-8),
                "unitary", text)
        r.event("unitaries_compared")


def custom_matrix(o):
    return o.extra if o.extra is not None else gen.op_matrix(o)


def sec_random(r, rng, i):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6])
    nb = rng.choice([0, 0, 1, 3, 5])
    labels, defs = rng.random() < 0.4, rng.random() < 0.4
    prog = exact_program(rng, n, rng.choice([0, 1, 2, 5, 12, 25]))
    c = labelled_circuit(rng, n, nb) if labels or rng.random() < 0.3 else gen.make_circuit(rng, n, nb)
    gen.build(rng, prog, n, nb, circuit=c)
    r.seen([gen.describe(prog), [len(x) for x in c.qregisters.values()], [len(x) for x in c.cregisters.values()],
            list(c.qregisters) if labels else None, defs], bool(prog))
    kw = {}
    if labels or rng.random() < 0.2:
        kw["reg_labels"] = labels
    if defs or rng.random() < 0.2:
        kw["gate_definitions"] = defs
    if rng.random() < 0.3:
        kw["version"] = "2.0"
    text = gen.anywhere(c.to_qasm)(**kw)
    check_text(r, text, c, prog, labels, defs, n)
    # exporting is repeatable and leaves the circuit alone; growing the circuit grows the text
    r.check(gen.anywhere(c.to_qasm)(**kw) == text, "repeatable", text)
    r.check(len(c.circuit) == len(prog), "export:changed-circuit")
    if rng.random() < 0.4 and n:
        more = exact_program(rng, n, 3)
        c.unlock()
        with c.context as reg:
            for o in more:
                gen.instantiate(o, reg.q, rng)
        check_text(r, gen.anywhere(c.to_qasm)(**kw), c, prog + more, labels, defs, n)
        r.event("re-exports")
    elif rng.random() < 0.5:
        # the other options on the same circuit
        for lab in (False, True):
            if lab and not labels:
                continue
            for d in (False, True):
                check_text(r, gen.anywhere(c.to_qasm)(reg_labels=lab, gate_definitions=d), c, prog, lab, d, n, unitary=False)
        r.event("re-exports")


def sec_again(r, rng, i):
    """Circuits exported again and again between changes."""
    n = rng.choice([1, 2, 3, 5])
    names = list(QNAMES.values())
    prog = exact_program(rng, n, rng.choice([1, 2, 5]), names)
    c = labelled_circuit(rng, n, rng.choice([0, 2]))
    gen.build(rng, prog, n, circuit=c)
    log = [gen.describe(prog)]
    labels, defs = rng.random() < 0.3, rng.random() < 0.3
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.3:
            labels = not labels
        if rng.random() < 0.2:
            defs = not defs
        check_text(r, gen.anywhere(c.to_qasm)(reg_labels=labels, gate_definitions=defs), c, prog, labels, defs, n)
        prog, what = gen.change(rng, c, prog, n, names, param)
        n, _, grown = gen.grow(rng, c, n, 1 if c.cregisters else None, 7)
        r.event("grown", grown is not None)
        log.append([what, grown, gen.describe(prog)])
        r.event("exported_again")
    r.seen(log, True)


def sec_layouts(r, rng, i):
    """Placement of indices over many registers and qubits, exact parameters; no unitaries."""
    n = rng.choice([7, 12, 30, 80])
    nb = rng.choice([0, 2, 40])
    labels = rng.random() < 0.5
    prog = exact_program(rng, n, rng.choice([10, 60]))
    if labels:
        c = labelled_circuit(rng, n, nb)
    else:
        sizes = gen.layout(rng, n, rng.choice([1, 3, 12, 30]))
        if rng.random() < 0.4:
            sizes = [1] * n if rng.random() < 0.5 else [rng.randint(0, 3) for _ in range(rng.randint(11, 40))]
            n = sum(sizes)
            if n < 4:
                sizes.append(4)
                n += 4
            prog = exact_program(rng, n, rng.choice([30, 60]))
            r.event("many_registers")
        c = gen.make_circuit(rng, n, nb, sizes=sizes)
    if rng.random() < 0.4:
        # a register that grows after others were added
        lab = rng.choice(list(c.qregisters))
        c.add_qubit(Qubit("late"), lab)
        n += 1
        order = c.qubits
        prog = exact_program(rng, n, 30)
        r.event("grown_register")
    gen.build(rng, prog, n, nb, circuit=c)
    r.seen([gen.describe(prog)[:10], [len(x) for x in c.qregisters.values()], labels])
    check_text(r, gen.anywhere(c.to_qasm)(reg_labels=labels, gate_definitions=rng.random() < 0.3) if labels else gen.anywhere(c.to_qasm)(), c, prog,
               labels, False, n, unitary=False) if not labels else \
        check_text(r, gen.anywhere(c.to_qasm)(reg_labels=True), c, prog, True, False, n, unitary=False)


def sec_created(r, rng, i):
    """Operations created out of circuits, plain and parametric, exported by their names."""
    n = rng.choice([2, 3, 4, 5])
    made, defs = [], ""
    for k in range(rng.choice([1, 2, 3])):
        m = rng.randint(1, min(n, 3))
        nvar = rng.choice([0, 0, 1, 2, 3])
        name = rng.choice(["myOp", "Entangle", "WOP", "zop", "layer_"]) + str(k)
        src = gen.derived(ParametricCircuit, 0.1)(m) if nvar else gen.derived(Circuit, 0.1)(m)
        body = []
        with src.context as reg:
            for v in range(nvar):
                g, q = rng.choice(["RX", "RY", "RZ"]), rng.randrange(m)
                getattr(ops, g)(reg.p[v], reg.q[q])
                body.append((g, v, q))
            for _ in range(rng.randint(0 if nvar else 1, 3)):
                g, q = rng.choice(["Hadamard", "S", "T", "X"]), rng.randrange(m)
                getattr(ops, g)(reg.q[q])
                body.append((g, None, q))
        cls = create_operation(src, name=name)
        args = ", ".join(f"a{q}" for q in range(m))
        text = "".join(f"{g.lower()}(p{v}) a{q}; " if v is not None else f"{dict(Hadamard='h', S='s', T='t', X='x')[g]} a{q}; "
                       for g, v, q in body)
        defs += f"gate {name.lower()}{'(' + ', '.join(f'p{v}' for v in range(nvar)) + ')' if nvar else ''} {args} {{ {text}}}\n"
        made.append((name, cls, m, nvar, body))

    def matrix(m, body, ps):
        return ref.unitary(m, [(ref.gate_matrix(g, [ps[v]] if v is not None else []), [q]) for g, v, q in body])
    prog = []
    c = labelled_circuit(rng, n, rng.choice([0, 2]))
    c.unlock()
    with c.context as reg:
        for _ in range(rng.randint(1, 8)):
            if rng.random() < 0.4:
                o = gen.gate(rng, n)
                gen.instantiate(o, reg.q, rng)
            else:
                name, cls, m, nvar, body = rng.choice(made)
                qs = rng.sample(range(n), m)
                ps = [rng.uniform(-6, 6) for _ in range(nvar)]
                o = Op(name, tuple(ps), tuple(qs), extra=matrix(m, body, ps))
                cls(ps, [reg.q[q] for q in qs]) if nvar else cls([reg.q[q] for q in qs])
            prog.append(o)
    r.seen([gen.describe(prog), defs])
    labels = rng.random() < 0.5
    check_text(r, gen.anywhere(c.to_qasm)(reg_labels=labels), c, prog, labels, False, n, extra=defs,
               customs={name: name.lower() for name, *_ in made})


def sec_definitions(r, rng, i):
    """Every gate alone, several times and mixed, with definitions; nothing but qelib1.inc is assumed."""
    n = 3
    names = [g for g in ref.GATES if g != "Rotation" or i % 4 == 3]
    if i < len(names):
        prog = [gen.gate(rng, n, [names[i]]) for _ in range(3)]
    else:
        prog = exact_program(rng, n, rng.randint(1, 12), rng.sample(names, rng.randint(1, 5)))
    c = gen.make_circuit(rng, n, 0)
    gen.build(rng, prog, n, circuit=c)
    r.seen([gen.describe(prog)])
    check_text(r, gen.anywhere(c.to_qasm)(gate_definitions=True), c, prog, False, True, n)


def sec_rotation(r, rng, i):
    """The definition of the rotation gate; its malformed text is a listed finding."""
    c = gen.derived(Circuit, 0.1)(2)
    with c.context as reg:
        ops.X(reg.q[0])
        ops.Rotation((0.1, 0.2, 0.3), reg.q[1])
    text = gen.anywhere(c.to_qasm)(gate_definitions=True)
    r.seen(["rotation", i])
    lines = [ln for ln in text.splitlines() if ln.startswith("gate rot")]
    r.check(len(lines) == 1, "definitions:rotation", text)
    try:
        p = qasm.read(text)
    except qasm.QasmError as e:
        r.check(False, f"definition-malformed:{lines[0]}", str(e))
    r.check(ref.close_phase(qasm.gate_unitary(p, "rot", [0.5, 1.5, 2.5], 1), ref.rot(0.5, 1.5, 2.5)),
            "definitions:wrong-gate", text)


BAD_LABELS = [0, 1, 7, "", "Apple", "my reg", "a-b", "1a", "_x", "qreg", "measure", "if", "a[0]", "naïve", (1, 2), 2.5,
              "pi", "a;b", "gate", "barrier", "x\n"]


def sec_refused(r, rng, i):
    n = rng.choice([2, 3, 4])
    prog = exact_program(rng, n, rng.randint(0, 6))
    what = ["condition", "measurement", "barrier", "label", "variable", "no_qasm", "version", "parametric"][i % 8]
    kw = {}
    if rng.random() < 0.5:
        kw["gate_definitions"] = rng.random() < 0.5
    if what == "label":
        bad = BAD_LABELS[(i // 8) % (len(BAD_LABELS) + 1)] if i // 8 % (len(BAD_LABELS) + 1) < len(BAD_LABELS) else "both"
        c = gen.derived(Circuit, 0.1)(n)
        if bad == "both":
            c.add_qregister(2, "same")
            c.add_cregister(2, "same")
        elif rng.random() < 0.5:
            c.add_qregister(rng.choice([1, 2]), bad)
        else:
            c.add_cregister(rng.choice([1, 2]), bad)
        gen.build(rng, prog, n, circuit=c)
        total = c.num_qubits
        r.seen(["label", repr(bad), gen.describe(prog)])
        r.raises((Exception,), lambda: gen.anywhere(c.to_qasm)(reg_labels=True), "refused:label", repr(bad))
        r.event("refused:label")
        # without labels it is exported
        check_text(r, gen.anywhere(c.to_qasm)(), c, prog, False, False, total)
        return
    c = labelled_circuit(rng, n, 3)
    gen.build(rng, prog, n, circuit=c)
    kw["reg_labels"] = rng.random() < 0.5
    pos = rng.randint(0, len(prog))
    after = exact_program(rng, n, rng.randint(0, 3))
    c.unlock()
    r.seen([what, gen.describe(prog), gen.describe(after), i // 8 % 3])
    if what == "parametric":
        pc = gen.derived(ParametricCircuit, 0.1)(n)
        with pc.context as reg:
            for o in prog:
                gen.instantiate(o, reg.q, rng)
        r.raises((Exception,), lambda: gen.anywhere(pc.to_qasm)(), "refused:parametric")
        return
    with c.context as reg:
        q = rng.sample(list(reg.q), n)
        if what == "condition":
            o = rng.choice([lambda: ops.X(q[0]), lambda: ops.CX(q[0], q[1]), lambda: ops.RX(0.3, q[1])])()
            o.conditional(reg.c[rng.randrange(3)] if rng.random() < 0.5 else tuple(reg.c))
        elif what == "measurement":
            m = ops.Measurement(q[:rng.randint(1, n)])
            if rng.random() < 0.7:
                m | list(reg.c)[:len(m.qubits)] if len(m.qubits) <= 3 else None
        elif what == "barrier":
            ops.Barrier(tuple(q[:rng.randint(1, n)]))
        elif what == "variable":
            def variable():
                rng.choice([lambda: ops.RX(Variable("a"), q[0]), lambda: ops.CRY(Variable("t"), q[0], q[1]),
                            lambda: ops.Rotation((0.1, Variable("b"), 0.2), q[0]),
                            lambda: ops.CRotation([Variable("b"), Variable("c"), 0.2], q[0], q[1])])()
                return gen.anywhere(c.to_qasm)(**kw)
            r.raises((Exception,), variable, "refused:variable")
            r.event("refused:variable")
            return
        elif what == "no_qasm":
            o = gen.custom_ops(rng, n)
            gen.instantiate(o, reg.q, rng)
        for o in after:
            gen.instantiate(o, reg.q, rng)
    if what == "version":
        kw["version"] = rng.choice(["3.0", "2.1", "1.0", 2])
    r.raises((Exception,), lambda: gen.anywhere(c.to_qasm)(**kw), f"refused:{what}")
    r.event(f"refused:{what}")


def sec_single(r, rng, i):
    """Text of single operations and registers, with and without qubits and mapping."""
    g = rng.choice(list(ref.GATES))
    nq, npar, _ = ref.GATES[g]
    o = Op(g, tuple(param(rng) for _ in range(npar)), tuple(rng.sample(range(nq), nq)))
    qs = [gen.derived(Qubit, 0.1)(str(k)) for k in range(nq)]
    op = gen.instantiate(o, qs, rng)
    r.seen([g, list(o.params), list(o.qubits)])
    r.event("single_operations")
    mapping = None
    if rng.random() < 0.6:
        regs = rng.sample(["a", "b", "q", "q1", "zed"], 2)
        mapping = {q: (rng.choice(regs), 10 * k + rng.randrange(10)) for k, q in enumerate(qs)}
    text = op.to_qasm(mapping) if mapping else (op.to_qasm() if rng.random() < 0.5 else op.to_qasm(None))
    head = 'OPENQASM 2.0; include "qelib1.inc";'
    decl = "".join(f"qreg {x}[200];" for x in ("a", "b", "q", "q1", "zed"))
    p = parse(r, head + decl + text + ";", user_gates(), "single:malformed")
    (name, ps, where), = p.statements
    r.check(QNAMES[name] == g, "single:kind", text)
    want = [mapping[qs[k]] for k in o.qubits] if mapping else [("q", k) for k in range(nq)]
    r.check(where == want, "single:qubits", f"{text} for {want}")
    r.check([float(x) for x in ps] == [float(x) for x in o.params], "single:parameters", text)
    # registers
    for cls, word, item in ((QuantumRegister, "qreg", Qubit), (ClassicalRegister, "creg", Bit)):
        k = rng.choice([0, 1, 2, 9])
        reg = cls([item(str(j)) for j in range(k)])
        r.check(reg.to_qasm(label="lab") == f"{word} lab[{k}]", "register:label", reg.to_qasm(label="lab"))
        r.check(reg.to_qasm(idx=3) == f"{word} {word[0]}3[{k}]", "register:idx", reg.to_qasm(idx=3))
        r.check(reg.to_qasm(idx=0) == f"{word} {word[0]}0[{k}]", "register:idx", reg.to_qasm(idx=0))


SECTIONS = [
    ("random", sec_random, 1500, 30000),
    ("again", sec_again, 150, 3000),
    ("layouts", sec_layouts, 150, 2500),
    ("created", sec_created, 300, 5000),
    ("definitions", sec_definitions, 200, 3000),
    ("rotation-definition", sec_rotation, 1, 1),
    ("refused", sec_refused, 400, 6000),
    ("single", sec_single, 500, 8000),
]
