"""Independent reference: textbook gates and a dense simulator, written from the definitions.

Nothing here imports the package under test.  Convention: qubit 0 is the most significant bit of a
basis index; matrices act on the listed qubits with the first listed qubit most significant.
"""
import cmath, itertools, math
import numpy as np

I2 = np.eye(2, dtype=complex)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PY = np.array([[0, -1j], [1j, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)


def _exp_pauli(p, theta):
    """exp(-i theta/2 P)"""
    return math.cos(theta / 2) * I2 - 1j * math.sin(theta / 2) * p


def rx(t): return _exp_pauli(PX, t)
def ry(t): return _exp_pauli(PY, t)
def rz(t): return _exp_pauli(PZ, t)
def rot(b, g, d): return rz(d) @ ry(g) @ rz(b)


H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.diag([1, 1j]).astype(complex)
T = np.diag([1, cmath.exp(1j * math.pi / 4)]).astype(complex)


def controlled(u, nc=1):
    m = np.eye((2 ** nc) * len(u), dtype=complex)
    m[-len(u):, -len(u):] = u
    return m


def perm_gate(f, n):
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for bits in itertools.product((0, 1), repeat=n):
        src = int("".join(map(str, bits)), 2)
        dst = int("".join(map(str, f(*bits))), 2)
        m[dst, src] = 1
    return m


SWAP = perm_gate(lambda a, b: (b, a), 2)
CSWAP = perm_gate(lambda c, a, b: (c, b, a) if c else (c, a, b), 3)
CCX = perm_gate(lambda a, b, t: (a, b, t ^ (a & b)), 3)

# canonical gate name -> (number of qubits, number of parameters, matrix function)
GATES = {
    "Identity": (1, 0, lambda: I2), "X": (1, 0, lambda: PX), "Y": (1, 0, lambda: PY),
    "Z": (1, 0, lambda: PZ), "Hadamard": (1, 0, lambda: H), "S": (1, 0, lambda: S),
    "T": (1, 0, lambda: T),
    "RX": (1, 1, rx), "RY": (1, 1, ry), "RZ": (1, 1, rz), "Rotation": (1, 3, rot),
    "CX": (2, 0, lambda: controlled(PX)), "CY": (2, 0, lambda: controlled(PY)),
    "CZ": (2, 0, lambda: controlled(PZ)), "CHadamard": (2, 0, lambda: controlled(H)),
    "CRX": (2, 1, lambda t: controlled(rx(t))), "CRY": (2, 1, lambda t: controlled(ry(t))),
    "CRZ": (2, 1, lambda t: controlled(rz(t))),
    "CRotation": (2, 3, lambda b, g, d: controlled(rot(b, g, d))),
    "SWAP": (2, 0, lambda: SWAP), "CSWAP": (3, 0, lambda: CSWAP), "CCX": (3, 0, lambda: CCX),
}
ALIASES = {"Phase": "S", "P": "S", "CNOT": "CX", "Fredkin": "CSWAP", "CCNOT": "CCX", "Toffoli": "CCX"}
ONE_CONTROL = ("CX", "CY", "CZ", "CHadamard", "CRX", "CRY", "CRZ", "CRotation")


def gate_matrix(name, params=()):
    return GATES[ALIASES.get(name, name)][2](*params)


def zero_state(n):
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = 1
    return v


def apply(v, n, qubits, m):
    """Applies matrix ``m`` to ``qubits`` of the vector (or of every column of a matrix) ``v``."""
    k = len(qubits)
    tail = v.shape[1:]
    t = v.reshape((2,) * n + tail)
    mt = np.asarray(m, dtype=complex).reshape((2,) * (2 * k))
    t = np.tensordot(mt, t, axes=(range(k, 2 * k), qubits))
    t = np.moveaxis(t, range(k), qubits)
    return np.ascontiguousarray(t).reshape(v.shape)


def reverse_bits(v, n):
    """Vector in the opposite index convention."""
    return v.reshape((2,) * n).transpose(range(n)[::-1]).reshape(-1)


def reverse_bits_mat(m, n):
    idx = [int(format(i, f"0{n}b")[::-1], 2) if n else 0 for i in range(2 ** n)]
    return m[np.ix_(idx, idx)]


def unitary(n, oplist):
    """oplist: (matrix, qubits) in program order."""
    u = np.eye(2 ** n, dtype=complex)
    for m, q in oplist:
        u = apply(u, n, list(q), m)
    return u


def prob_of(v, n, qubit):
    """Probability of reading 1 on the qubit."""
    t = np.abs(v.reshape((2,) * n)) ** 2
    return float(np.take(t, 1, axis=qubit).sum())


def project(v, n, qubit, bit):
    t = v.reshape((2,) * n).copy()
    idx = [slice(None)] * n
    idx[qubit] = 1 - bit
    t[tuple(idx)] = 0
    t = t.reshape(-1)
    nrm = np.linalg.norm(t)
    return t / nrm if nrm > 0 else t


def close(a, b, tol=1e-9):
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0)) <= tol


def close_phase(a, b, tol=1e-9):
    """Equal up to a global phase."""
    a = np.asarray(a, dtype=complex); b = np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return False
    ip = np.vdot(a, b)
    if abs(ip) < 1e-12:
        return False
    return close(a * (ip / abs(ip)), b, tol)


def random_unitary(nprng, d):
    z = nprng.normal(size=(d, d)) + 1j * nprng.normal(size=(d, d))
    q, r_ = np.linalg.qr(z)
    return q * (np.diag(r_) / np.abs(np.diag(r_)))


def random_state(nprng, n):
    z = nprng.normal(size=2 ** n) + 1j * nprng.normal(size=2 ** n)
    return z / np.linalg.norm(z)
