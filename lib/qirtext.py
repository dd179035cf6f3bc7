"""Independent reader of QIR text (LLVM assembly with typed pointers), written from the QIR base
profile and the LLVM language reference.  Imports nothing of the package."""
import re
import struct


class QirError(Exception):
    pass


def parse_double(t):
    if t.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
    return float(t)


ARG = re.compile(r"""\s*(?:
 (?P<double>double)\s+(?P<dv>0x[0-9A-Fa-f]+|[-+]?[0-9.]+(?:[eE][-+]?\d+)?)
 |%(?P<ptr>Qubit|Result)\*\s+(?:[a-z]+\s+)*(?:(?P<null>null)|inttoptr\s+\(i64\s+(?P<id>\d+)\s+to\s+%(?P=ptr)\*\))
 |(?P<i8>i8\*)\s+(?:null|(?P<gep>getelementptr[^()]*\([^()]*\)|@\S+))
 |(?P<int>i\d+)\s+(?P<iv>-?\d+|true|false)
 )\s*(?:,|$)""", re.X)


def parse_args(text):
    out, pos = [], 0
    while pos < len(text) and text[pos:].strip():
        m = ARG.match(text, pos)
        if not m:
            raise QirError(f"cannot read argument {text[pos:]!r}")
        if m.group("double"):
            out.append(("double", parse_double(m.group("dv"))))
        elif m.group("ptr"):
            out.append((m.group("ptr"), 0 if m.group("null") else int(m.group("id"))))
        elif m.group("i8"):
            out.append(("i8*", None))
        else:
            out.append((m.group("int"), m.group("iv")))
        pos = m.end()
    return out


NAME = r'@(?:"([^"]+)"|([-A-Za-z$._0-9]+))'


class Function:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs
        self.blocks = {}   # label -> list of instructions, in the order of the text
        self.order = []


class Module:
    def __init__(self, text):
        self.declared = {}   # name -> (return type, [types])
        self.repeated = []
        self.functions = []
        self.attr = {}
        self.flags = {}
        self.source = None
        self.read(text)

    def read(self, text):
        f = block = None
        for raw in text.splitlines():
            line = raw.split(" ; preds")[0].rstrip()
            if line.startswith(";"):
                continue
            line = re.sub(r"\s+;.*$", "", line).strip()
            if not line:
                continue
            m = re.match(rf"define\s+(\S+)\s+{NAME}\((.*)\)\s*(#\d+)?\s*{{$", line)
            if m:
                f = Function(m.group(2) or m.group(3), m.group(5))
                f.params, f.ret = m.group(4), m.group(1)
                self.functions.append(f)
                block = None
                continue
            if f is not None:
                if line == "}":
                    f = None
                    continue
                m = re.match(r'("?)([-A-Za-z$._0-9]+)\1:$', line)
                if m:
                    block = m.group(2)
                    f.blocks[block] = []
                    f.order.append(block)
                    continue
                if block is None:
                    block = "0"
                    f.blocks[block] = []
                    f.order.append(block)
                f.blocks[block].append(self.instruction(line))
                continue
            m = re.match(rf"declare\s+(\S+)\s+{NAME}\((.*)\)\s*(#\d+)?$", line)
            if m:
                name = m.group(2) or m.group(3)
                if name in self.declared:
                    self.repeated.append(name)
                types = [t.split()[0] for t in m.group(4).split(",") if t.strip()]
                self.declared[name] = (m.group(1), types)
                continue
            m = re.match(r"attributes\s+(#\d+)\s*=\s*{(.*)}$", line)
            if m:
                self.attr[m.group(1)] = {k: v for k, _, v in re.findall(r'"([^"]*)"(="([^"]*)")?', m.group(2))}
                continue
            m = re.match(r'!\d+ = !{i32 (\d+), !"([^"]+)", (\S+) (\S+)}$', line)
            if m:
                self.flags[m.group(2)] = m.group(4)
                continue
            m = re.match(r'source_filename = "(.*)"$', line)
            if m:
                self.source = m.group(1)
                continue
            if line.startswith(("%", "!", "target ", "@")):
                continue
            raise QirError(f"cannot read line {raw!r}")
        if f is not None:
            raise QirError("function not closed")

    @staticmethod
    def instruction(line):
        m = re.match(rf"(?:%\S+\s*=\s*)?(?:tail\s+)?call\s+(\S+)\s+{NAME}\((.*)\)\s*(?:#\d+)?$", line)
        if m:
            return ("call", m.group(2) or m.group(3), parse_args(m.group(4)), m.group(1))
        m = re.match(r"br label %\"?([-A-Za-z$._0-9]+)\"?$", line)
        if m:
            return ("br", m.group(1))
        m = re.match(r"ret\s+(.*)$", line)
        if m:
            return ("ret", m.group(1).strip())
        raise QirError(f"cannot read instruction {line!r}")

    def entry(self):
        es = [f for f in self.functions if "entry_point" in self.attr.get(f.attrs, {})]
        if len(es) != 1:
            raise QirError(f"{len(es)} entry points")
        return es[0]

    def trace(self, f):
        """Executes the straight-line function: returns [(block, name, args)], the visited blocks and
        what is returned."""
        calls, visited = [], []
        block = f.order[0]
        while True:
            if block in visited:
                raise QirError(f"block {block!r} is visited twice")
            if block not in f.blocks:
                raise QirError(f"branch to a missing block {block!r}")
            visited.append(block)
            for k, ins in enumerate(f.blocks[block]):
                if ins[0] == "call":
                    calls.append((block, ins[1], ins[2]))
                    continue
                if k != len(f.blocks[block]) - 1:
                    raise QirError("instructions after the end of a block")
                if ins[0] == "ret":
                    return calls, visited, ins[1]
                block = ins[1]
                break
            else:
                raise QirError(f"block {block!r} has no end")

    def check_calls(self, calls):
        """Every called function is declared once with the types it is called with."""
        if self.repeated:
            raise QirError(f"declared repeatedly: {self.repeated}")
        for _, name, args in calls:
            if name not in self.declared:
                raise QirError(f"{name} is not declared")
            have = [{"Qubit": "%Qubit*", "Result": "%Result*"}.get(t, t) for t, _ in args]
            if have != self.declared[name][1]:
                raise QirError(f"{name} is declared with {self.declared[name][1]} and called with {have}")


def qis(name):
    return f"__quantum__qis__{name}__body"
