import json,subprocess
log=[l.split("\t") for l in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h\t%s","f24e587..HEAD"],capture_output=True,text=True).stdout.splitlines()]
PR="C01 C01 C01 C01 C02 C02 C03 C04 C05 C20 C12 C12 C12 C12 C12 C12 C05 C05 C06 C07 C07 C07 C08 C10 C10 C09 C09 C14 C07 C11 C13 C13 C13 C13 C13 C21 C19 C22 C22 C20 C15 C15 - C15 C15 C15 - C16 C16 C16 C16 C16 C16 C16 C16 C16 C17 C17 C17 C16 C17 C16 C05 C06 C20 C10".split()
W={0:"gates on several qubits without a kernel raised AttributeError (op.label) instead of ValueError",
1:"operations with more than two controls were simulated as something else",
2:"gates whose matrix is transposed, strided or real were simulated with misread memory",
3:"a gate applied to the same qubit twice was simulated with garbage results",
4:"density matrix formed from a pure state was not conjugated on the bra side",
5:"simulate(mixed_state=True, little_endian=True) ignored little_endian",
6:"measurement results of an earlier simulation stayed on operations that were not executed again",
7:"ParametricOperation.eval deep-copied qubits and condition bits, so evaluated circuits lost their conditions",
8:"qubits beyond the state made the generated kernels access memory out of bounds",
9:"kernels shifted 32-bit ones, wrong for 31 or more qubits",
10:"register slices with negative, missing or large bounds and steps were wrong or crashed",
11:"copies and sums of registers were unusable or shared data",
12:"items equal to an index made registers return the index for the item",
13:"numbers not representable as an index crashed look-ups",
14:"slicing a SelfIncrementingRegister raised TypeError",
15:"index(..., permissive=True) added items to frozen registers",
16:"misaligned numpy arrays reached kernels (undefined behaviour)",
17:"use after free of a register's mappings while iterating over it",
18:"accessing the matrix of a controlled operation in a context appended an operation to the circuit",
19:"build_unitary returned a stale unitary after the circuit changed",
20:"build_unitary of parametric controlled operations raised",
21:"repeated or negative indices in controlled unitaries gave garbage",
22:"created parametric operations bound parameters by the wrong position",
23:"variables set to zero counted as unset",
24:"evaluated parameters of parametric controlled operations were dropped",
25:"applying a circuit dropped conditions, bits and controls",
26:"parametric circuits could not be applied in other circuits, or with wrong parameters",
27:"variables set to zero compared and printed as unset",
28:"changing the qubits of a controlled operation left control and target as they were",
29:"leaving a frozen context unfroze the circuit or the outer context",
30:"a refused add_qubit/add_bit left a register behind",
31:"bits set to zero could not be added to circuits",
32:"default register labels collided with labels in use",
33:"registers with falsy labels were not found",
34:"reset kept cached registers, state and operations of the previous circuit",
35:"comparing operations of different kinds raised or was asymmetric",
36:"density matrices were normalized by the norm instead of the trace",
37:"number of qubits of a controlled operation class was fixed by its first instance",
38:"mixed properties lost name and documentation",
39:"generated kernels of complex and integer matrices did not compile",
40:"gate definitions were repeated for every use of the gate",
41:"conditions were dropped in the text",
43:"register labels that are no identifiers, or are used twice, gave invalid text",
44:"parameters of created operations were left out of the text",
45:"the definition of crot was a comment",
47:"gates on circuits with several registers were compiled to the wrong qubits and bits",
48:"external functions with parameters could not be compiled (types in another order than arguments)",
49:"repeated external operations were declared again under another name",
50:"conditions were dropped",
51:"identity gates, documented as ignored, were refused",
52:"rotations with several parameters could not be loaded",
53:"measured qubits without gates could not be loaded",
54:"loaded circuits had fewer qubits and bits than the module requires",
55:"measurements before other operations were moved behind them when loading",
56:"resetting before compiling raised, resetting twice crashed the process",
57:"forced recompilation and reset dropped external instructions",
58:"after a failed compilation the module could never be compiled again",
59:"integer and numpy parameters were refused for external functions",
60:"instructions whose function was passed directly were dropped on recompilation",
61:"loading into a circuit with several registers shifted indices of qubits and bits",
62:"an index of -1 (number whose value changes) was taken for an exception and crashed the interpreter",
63:"rotations with parameters of narrow numpy types lost digits or overflowed in sums of them",
64:"kernels for matrices of 16 or more rows did not compile, since names of their entries clashed",
65:"circuits could not be evaluated with arrays of parameters, and an array of a single zero was ignored"}
fixed=[f"fixed: property={PR[i]} {h} {W[i]}" for i,(h,s) in enumerate(log) if i in W]
d=json.load(open('/verif/known_findings.json')); d["fixed"]=fixed
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
print(len(fixed),len(PR),len(log))
