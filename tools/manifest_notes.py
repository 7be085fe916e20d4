LL = 'symbolic execution of the LLVM IR of hermite/*.cpp (bit-vectors, every path), z3 decides each query'
TECH = {'*': 'symbolic execution of instrumented LLVM IR + NumPy loops (reals), z3 decides path & residue queries',
        'C01': LL, 'C02': LL, 'C03': LL,
        'C16': 'recorded digest inputs of the real key function as string terms over symbolic leaves; z3 (strings, bit-vectors) searches equal keys of unequal arguments',
        'C17': 'real cache wrapper run on symbolic values over every modelled directory state; z3 decides the residues',
        'C35': 'trees of file operations of the real code, extended until closed; bounded model checking over all schedules and crash points as bit-vectors in z3',
        'C27': 'symbolic execution of finest_common on bit-vector partitions (every path), z3 decides each path'}
LN = 'Within the stated bounds (dimension, degree, entries, number of coefficients) for every value. Trusted: clang -O1 IR as the meaning of the source, the interpreter in /verif/engine/llsym.py, z3; the hash tables of the iterators are not encoded. Counterexamples are replayed through hermipy.core on a plain g++ build before being reported.'
NOTE = {'C01': LN, 'C02': LN, 'C03': LN,
        'C16': 'For every value of the leaves of each pair of argument templates (about 70 templates), the digest taken as injective. Argument shapes outside the templates are outside. Equal-key models are replayed by making both calls.',
        'C27': 'For every pair of partitions with the stated numbers of directions and blocks. Counterexamples are replayed with frozensets.',
        'C35': 'For every interleaving of 2-3 processes (4 in the thorough tier) with the stated calls, crashes at every step included. Trusted: the interposer lists every relevant file operation; the contract of the compiler. Bad schedules are executed with real processes before being reported.',
        '*': 'Within the stated bounds (dimension, degree, grid size, number of explored paths) the result equals the specification for every value of the symbolic inputs, in real arithmetic up to 1e-8 of its scale. Trusted: compiler, NumPy/SciPy/sympy, Boost, the engine in /verif/engine; counterexamples are replayed on a plain g++ build before being reported.'}
NA = {'C33': 'Asymptotic accuracy and accumulated rounding of transcendental recurrences: needs floating-point error analysis over unbounded degrees; neither exact reals nor bit-precise floats of these loops are within reach of a solver.'}
