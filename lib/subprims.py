"""A user's own kinds of qubits, bits and variables (in a module, so that they can be pickled)."""
from dwave.gate.primitives import Bit, Qubit, Variable


class MyQubit(Qubit):
    pass


class MyBit(Bit):
    pass


class MyVariable(Variable):
    pass
