"""Independent OpenQASM 2.0 reader: parses the text, expands definitions down to U and CX, and
interprets.  Written from the OpenQASM 2.0 specification; imports nothing of the package."""
import cmath, math, re

import numpy as np

import ref

# the standard library of the specification (qelib1.inc), and the extra gates of its later editions
QELIB1 = """
gate u3(theta,phi,lambda) q { U(theta,phi,lambda) q; }
gate u2(phi,lambda) q { U(pi/2,phi,lambda) q; }
gate u1(lambda) q { U(0,0,lambda) q; }
gate cx c,t { CX c,t; }
gate id a { U(0,0,0) a; }
gate x a { u3(pi,0,pi) a; }
gate y a { u3(pi,pi/2,pi/2) a; }
gate z a { u1(pi) a; }
gate h a { u2(0,pi) a; }
gate s a { u1(pi/2) a; }
gate sdg a { u1(-pi/2) a; }
gate t a { u1(pi/4) a; }
gate tdg a { u1(-pi/4) a; }
gate rx(theta) a { u3(theta,-pi/2,pi/2) a; }
gate ry(theta) a { u3(theta,0,0) a; }
gate rz(phi) a { u1(phi) a; }
gate cz a,b { h b; cx a,b; h b; }
gate cy a,b { sdg b; cx a,b; s b; }
gate ch a,b { h b; sdg b; cx a,b; h b; t b; cx a,b; t b; h b; s b; x b; s a; }
gate ccx a,b,c { h c; cx b,c; tdg c; cx a,c; t c; cx b,c; tdg c; cx a,c; t b; t c; h c; cx a,b; t a; tdg b; cx a,b; }
gate crz(lambda) a,b { u1(lambda/2) b; cx a,b; u1(-lambda/2) b; cx a,b; }
gate crx(lambda) a,b { u1(pi/2) b; cx a,b; u3(-lambda/2,0,0) b; cx a,b; u3(lambda/2,-pi/2,0) b; }
gate cry(lambda) a,b { ry(lambda/2) b; cx a,b; ry(-lambda/2) b; cx a,b; }
"""

# gates which a reader knows without a definition when the exporter was told to leave them out
USER_GATES = """
gate swap a,b { cx a,b; cx b,a; cx a,b; }
gate cswap a,b,c { cx c,b; ccx a,b,c; cx c,b; }
gate rot(beta,gamma,delta) a { rz(beta) a; ry(gamma) a; rz(delta) a; }
gate crot(beta,gamma,delta) a,b { crz(beta) a,b; cry(gamma) a,b; crz(delta) a,b; }
"""


class QasmError(Exception):
    pass


TOKEN = re.compile(r"""\s+|//[^\n]*\n?|(?P<str>"[^"\n]*")|(?P<real>(\d+\.\d*|\d*\.\d+)([eE][-+]?\d+)?|\d+[eE][-+]?\d+)
|(?P<int>\d+)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>->|==|[-+*/^(){}\[\];,])""", re.X)


def tokenize(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise QasmError(f"illegal character at {text[pos:pos + 20]!r}")
        if m.lastgroup:
            # the inner groups of real are unnamed, so lastgroup is the alternative
            for k in ("str", "real", "int", "id", "op"):
                if m.group(k) is not None:
                    out.append((k, m.group(k)))
                    break
        elif m.group("real"):
            out.append(("real", m.group("real")))
        pos = m.end()
    return out


class Program:
    """Result of parsing: registers in order, gate definitions, statements."""

    def __init__(self):
        self.qregs, self.cregs = [], []
        self.defs = {}        # name -> (params, qargs, body, opaque)
        self.order = []       # names defined by the text itself, in order
        self.symbols = {}
        self.statements = []  # (name, [float], [(reg, idx)])


class Parser:
    def __init__(self, text, prog, library=False):
        self.t = tokenize(text)
        self.i = 0
        self.p = prog
        self.library = library

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, val):
        k, v = self.next()
        if v != val or k == "str":
            raise QasmError(f"expected {val!r}, found {v!r}")

    def ident(self):
        k, v = self.next()
        if k != "id" or not re.fullmatch("[a-z][A-Za-z0-9_]*", v) or v in (
                "barrier", "creg", "gate", "if", "include", "measure", "opaque", "qreg", "reset", "pi",
                "sin", "cos", "tan", "exp", "ln", "sqrt"):
            raise QasmError(f"expected an identifier, found {v!r}")
        return v

    def declare(self, name, kind):
        if name in self.p.symbols:
            raise QasmError(f"{name!r} is declared twice ({self.p.symbols[name]}, {kind})")
        self.p.symbols[name] = kind

    # expressions: return a function of the environment
    def expr(self):
        f = self.term()
        while self.peek()[1] in ("+", "-"):
            o = self.next()[1]
            f = (lambda a, b, o: lambda e: a(e) + b(e) if o == "+" else a(e) - b(e))(f, self.term(), o)
        return f

    def term(self):
        f = self.unary()
        while self.peek()[1] in ("*", "/"):
            o = self.next()[1]
            f = (lambda a, b, o: lambda e: a(e) * b(e) if o == "*" else a(e) / b(e))(f, self.unary(), o)
        return f

    def unary(self):
        if self.peek()[1] == "-":
            self.next()
            f = self.unary()
            return lambda e: -f(e)
        return self.power()

    def power(self):
        f = self.atom()
        if self.peek()[1] == "^":
            self.next()
            g = self.unary()
            return lambda e: f(e) ** g(e)
        return f

    def atom(self):
        k, v = self.next()
        if k in ("real", "int"):
            x = float(v) if k == "real" else int(v)
            return lambda e: x
        if v == "(":
            f = self.expr()
            self.expect(")")
            return f
        if k == "id":
            if v == "pi":
                return lambda e: math.pi
            if v in ("sin", "cos", "tan", "exp", "ln", "sqrt"):
                g = {"ln": math.log}.get(v) or getattr(math, v)
                self.expect("(")
                f = self.expr()
                self.expect(")")
                return lambda e: g(f(e))
            if v not in self.env:
                raise QasmError(f"unknown parameter {v!r}")
            return lambda e: e[v]
        raise QasmError(f"expected an expression, found {v!r}")

    env = ()

    def params(self):
        out = []
        if self.peek()[1] == "(":
            self.next()
            if self.peek()[1] != ")":
                out.append(self.expr())
                while self.peek()[1] == ",":
                    self.next()
                    out.append(self.expr())
            self.expect(")")
        return out

    def idlist(self):
        out = [self.ident()]
        while self.peek()[1] == ",":
            self.next()
            out.append(self.ident())
        return out

    def signature(self, name, npar, nq):
        if name == "U":
            want = (3, 1)
        elif name == "CX":
            want = (0, 2)
        elif name in self.p.defs:
            d = self.p.defs[name]
            want = (len(d[0]), len(d[1]))
        else:
            raise QasmError(f"gate {name!r} is not defined")
        if want != (npar, nq):
            raise QasmError(f"gate {name!r} takes {want} parameters and qubits, got {(npar, nq)}")

    def gatename(self):
        if self.peek() in (("id", "U"), ("id", "CX")):
            return self.next()[1]
        return self.ident()

    def definition(self):
        self.expect("gate")
        name = self.ident()
        params = []
        if self.peek()[1] == "(":
            self.next()
            if self.peek()[1] != ")":
                params = self.idlist()
            self.expect(")")
        qargs = self.idlist()
        if len(set(qargs + params)) != len(qargs) + len(params):
            raise QasmError(f"repeated argument names in the definition of {name!r}")
        self.expect("{")
        self.env = set(params)
        body = []
        while self.peek()[1] != "}":
            if self.peek()[1] == "barrier":
                self.next(); self.idlist(); self.expect(";")
                continue
            g = self.gatename()
            ps = self.params()
            qs = self.idlist()
            self.expect(";")
            self.signature(g, len(ps), len(qs))
            if not set(qs) <= set(qargs) or len(set(qs)) != len(qs):
                raise QasmError(f"bad qubit arguments {qs} in the definition of {name!r}")
            body.append((g, ps, qs))
        self.expect("}")
        self.env = ()
        self.declare(name, "gate")
        self.p.defs[name] = (params, qargs, body)
        if not self.library:
            self.p.order.append(name)

    def operand(self):
        reg = self.ident()
        if self.p.symbols.get(reg) != "qreg":
            raise QasmError(f"{reg!r} is not a quantum register")
        self.expect("[")
        k, v = self.next()
        if k != "int":
            raise QasmError(f"bad index {v!r}")
        self.expect("]")
        if int(v) >= dict(self.p.qregs)[reg]:
            raise QasmError(f"index {v} outside register {reg!r}")
        return reg, int(v)

    def parse(self):
        if not self.library:
            for k, v in (("id", "OPENQASM"), ("real", "2.0"), ("op", ";"), ("id", "include"),
                         ("str", '"qelib1.inc"'), ("op", ";")):
                if self.next() != (k, v):
                    raise QasmError("bad header")
        while self.peek()[0] != "eof":
            k, v = self.peek()
            if v == "gate":
                self.definition()
            elif v in ("qreg", "creg"):
                self.next()
                name = self.ident()
                self.expect("[")
                kk, size = self.next()
                if kk != "int":
                    raise QasmError(f"bad register size {size!r}")
                self.expect("]")
                self.expect(";")
                self.declare(name, v)
                (self.p.qregs if v == "qreg" else self.p.cregs).append((name, int(size)))
            elif v in ("measure", "reset", "barrier", "if", "opaque"):
                raise QasmError(f"statement {v!r} is not expected from the exporter")
            else:
                g = self.gatename()
                ps = [f({}) for f in self.params()]
                qs = [self.operand()]
                while self.peek()[1] == ",":
                    self.next()
                    qs.append(self.operand())
                self.expect(";")
                self.signature(g, len(ps), len(qs))
                if len(set(qs)) != len(qs):
                    raise QasmError(f"repeated qubits {qs}")
                self.p.statements.append((g, ps, qs))
        return self.p


def read(text, extra=""):
    """Parses a whole program; ``extra`` holds definitions a user supplies besides qelib1.inc."""
    prog = Program()
    Parser(QELIB1 + extra, prog, library=True).parse()
    return Parser(text, prog).parse()


def U(theta, phi, lam):
    return np.array([[math.cos(theta / 2), -cmath.exp(1j * lam) * math.sin(theta / 2)],
                     [cmath.exp(1j * phi) * math.sin(theta / 2),
                      cmath.exp(1j * (phi + lam)) * math.cos(theta / 2)]])


def expand(prog, name, params, qubits):
    """Elementary (matrix, qubits) sequence of a gate application."""
    if name == "U":
        return [(U(*params), list(qubits))]
    if name == "CX":
        return [(ref.controlled(ref.PX), list(qubits))]
    pn, qn, body = prog.defs[name]
    env, q = dict(zip(pn, params)), dict(zip(qn, qubits))
    out = []
    for g, ps, qs in body:
        out += expand(prog, g, [p(env) for p in ps], [q[x] for x in qs])
    return out


def gate_unitary(prog, name, params, n):
    return ref.unitary(n, expand(prog, name, params, range(n)))


def qubit_index(prog):
    idx, k = {}, 0
    for name, size in prog.qregs:
        for i in range(size):
            idx[name, i] = k
            k += 1
    return idx, k
