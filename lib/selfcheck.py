"""setup_cmd: sanity of the reference model and of the tools the checks need."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import Cython, pyqir, cgen  # noqa: F401
import ref

for name, (nq, npar, f) in ref.GATES.items():
    m = f(*([0.3, 1.1, -0.7][:npar]))
    assert m.shape == (2 ** nq, 2 ** nq) and np.allclose(m @ m.conj().T, np.eye(2 ** nq)), name
rng = np.random.default_rng(0)
for n in range(1, 5):
    psi = ref.random_state(rng, n)
    for q in range(n):
        u = ref.random_unitary(rng, 2)
        full = np.eye(1)
        for k in range(n):
            full = np.kron(full, u if k == q else np.eye(2))
        assert np.allclose(full @ psi, ref.apply(psi, n, [q], u))
assert shutil.which("g++")
print("setup ok")
