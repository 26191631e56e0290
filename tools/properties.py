"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/properties.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, note, state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append((pid, note, {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        }}))


B = 'blueqat/'
prop('C01', 'Running a circuit yields exactly the product of its gate matrices',
     'For every measurement-free circuit, running it on the default simulator returns the normalized '
     'state vector obtained by multiplying |0...0> by the documented matrix of each gate in program '
     'order, with qubit 0 the least significant bit of the index, including the global phase the '
     'documented matrices imply (rz/u1/u2/u3 have determinant 1; phase, s, t are diag(1, e^ia)). '
     'Asking to ignore the global phase changes nothing but that phase and makes the first non-zero '
     'amplitude real and positive.',
     ['inputs', 'programs'],
     'every circuit over the built-in unitary gates and aliases, any register size, gate order, angle '
     'and address form',
     'tests check a handful of named gates on one or two basis states, mostly up to a global phase; '
     'the space of gate sequences, operand orders and angles is unbounded',
     [B + 'backends/numpy_backend.py', B + 'gate.py', B + 'circuit.py'],
     [('per-gate array updates with two swapped buffers', B + 'backends/numpy_backend.py'),
      ('decomposition of gates the simulator does not implement', B + 'gate.py')],
     ['Circuit(...).run()', 'Circuit(...).run(ignore_global=True)'],
     'differential testing of generated circuits against an independent dense simulator',
     [('qubits / qubits_buf', 'state vector and scratch buffer', B + 'backends/numpy_backend.py')])

prop('C02', 'Gate addresses follow Python indexing of the whole register',
     'An integer, slice or tuple address applies a gate to exactly the qubits Python indexing of the '
     "circuit's final register selects, in that order, once per occurrence (pairwise for two-qubit "
     'gates, one index each for three-qubit gates), identically in every backend. A circuit has as '
     'many qubits as its declared size and every non-negative index mentioned require. An address that '
     'cannot be resolved raises an error instead of being applied to some other qubit, and a rejected '
     'append leaves the circuit unchanged.',
     ['inputs', 'programs'],
     'all address forms (negative indices, open-ended and stepped slices, tuples of them, numpy '
     'integers), all register sizes, growing registers, invalid addresses',
     'tests exercise a few dozen literal addresses; whether a slice is re-read after the register '
     'grows or a negative index wraps is a question about every address and history',
     [B + 'gate.py', B + 'circuit.py'],
     [('address expansion', B + 'gate.py: slicing, qubit_pairs, qubit_triple'),
      ('register growth', B + 'circuit.py: gate wrapper')],
     ['Circuit.n_qubits', 'run()', 'to_qasm()', 'to_unitary()'],
     'generated addresses against Python list indexing, observed through every backend')

prop('C03', 'Run results depend only on the circuit, never on run history',
     'Running a circuit gives the result its present gates and register size define, whatever happened '
     'before: earlier runs, building of caches, appending gates, editing the list of operations or '
     'concatenating circuits in between, '
     'copying with or without backends, modifying a returned vector in place, or sharing one backend '
     'object between different circuits. Running never modifies the circuit, and a failed run does not '
     'corrupt later runs.',
     ['histories'],
     'every interleaving of append, run (any return type, shots), make_cache, copy, dagger, +, +=, '
     'in-place modification of results and use of a shared backend object',
     'the cached prefix state survives between calls, so correctness is a property of call histories; '
     'tests contain only a few fixed two-step histories',
     [B + 'backends/numpy_backend.py', B + 'circuit.py', B + 'backends/backendbase.py'],
     [('prefix state cache and its invalidation', B + 'backends/numpy_backend.py'),
      ('per-circuit backend instances copied with the circuit', B + 'circuit.py: copy, dagger')],
     ['run()', 'run(shots=)', 'make_cache()'],
     'stateful model-based generation of histories against a pure reference model',
     [('cache', 'state after the longest deterministic prefix', B + 'backends/numpy_backend.py')])

prop('C04', 'Measurement and reset act on each shot as projective operations',
     'In every single shot the recorded classical bits and the final state form a jointly possible '
     'outcome: the state is the normalized projection of the exact evolution onto the recorded results '
     'at the moments the measurements happened, mid-circuit and repeated measurements included. The '
     'recorded bit of a qubit is its most recent measurement (0 if never measured), a repeated '
     'measurement repeats its result, and reset leaves the qubit in |0> disentangled from the rest '
     'without changing recorded bits.',
     ['programs', 'histories'],
     'every circuit with measurements and resets anywhere, several shots, with and without cached prefix',
     'tests only look at counts of a few symmetric circuits; the consistency of state and bits in one '
     'shot and across shots of one run is never inspected',
     [B + 'backends/numpy_backend.py'],
     [('projection and renormalization', B + 'backends/numpy_backend.py: gate_measure, gate_reset'),
      ('per-shot re-initialisation', B + 'backends/numpy_backend.py: prepare, store_shot')],
     ["run(shots=1, returns='statevector_and_shots')", 'run(shots=n)'],
     'generated circuits; every shot is matched against the exact branch tree of a reference model')

prop('C05', 'Sampled counts follow the Born rule and account for every shot',
     'Running with n shots returns a counter whose values are positive integers summing to n and whose '
     'keys are bit strings with one character per qubit, the character at position i being the recorded '
     'bit of qubit i. The shots are independent draws from the exact outcome distribution of the '
     'circuit, so no outcome of probability zero ever occurs and frequencies converge to the exact '
     'probabilities.',
     ['programs', 'inputs'],
     'every circuit with measurement and reset, every number of shots and return type',
     'existing tests use outcomes that are deterministic or symmetric under bit reversal, so swapped '
     'keys or biased sampling can pass',
     [B + 'backends/numpy_backend.py'],
     [('random choice in measurement', B + 'backends/numpy_backend.py: gate_measure'),
      ('counter accumulation', B + 'backends/numpy_backend.py: store_shot')],
     ['run(shots=n)'],
     'generated circuits; exact support check plus exact binomial tail tests (p < 1e-9) per outcome')

prop('C06', 'The Hermitian conjugate of a circuit is its exact inverse',
     'For every circuit without measurement and reset, the Hermitian conjugate has the same register '
     'size and its unitary is the exact conjugate transpose (global phase included), leaving the '
     'original unchanged; conjugating twice gives the original unitary. With measurement or reset '
     'present it raises ValueError, unless asked to ignore measurements, when it is the conjugate of '
     'the remaining gates.',
     ['programs'],
     'every gate, parameter, address form (overlapping pairs included) and circuit',
     'tests conjugate each gate once with one address; the order of overlapping pairs, the phase and '
     'multi-gate ordering need arbitrary circuits',
     [B + 'gate.py', B + 'circuit.py'],
     [('dagger of each gate', B + 'gate.py'), ('reversal of the gate list', B + 'circuit.py: dagger')],
     ['Circuit.dagger()', 'run()'],
     'generated circuits; inverse law and agreement with the conjugate transpose of a reference unitary')

prop('C07', 'Concatenating and copying circuits compose operations without aliasing',
     'a + b runs all operations of a and then all of b on max(qubits of a, qubits of b) qubits, leaves a '
     'and b unchanged and shares no mutable state with them; a += b does the same in place; copies are '
     'independent of their originals. Concatenation is associative, an empty circuit is neutral, and '
     'adding anything that is not a circuit is a TypeError.',
     ['histories', 'programs'],
     'every sequence of concatenations, copies and appends over a pool of circuits',
     'aliasing shows only after later mutation of one of the operands; tests check single '
     'concatenations',
     [B + 'circuit.py'],
     [('copy of the operation list', B + 'circuit.py: copy, __add__, __iadd__')],
     ['Circuit.__add__', 'Circuit.__iadd__', 'Circuit.copy', 'run()'],
     'stateful generation over a pool of circuits against a list-of-operations model')

prop('C08', 'Every built-in gate runs on a backend through its decomposition',
     'A user-written backend that implements only some gates (at least x, y, z, h, rx, ry, rz, cx, cz and '
     'u3) runs every circuit over the built-in gates with the same effect up to one global phase, because '
     'each missing gate is replaced by its decomposition, recursively and in order. The backend receives '
     'each operation once, in program order, the context each action returns is handed to the next one, '
     'and run arguments reach the preprocessing hook unchanged; a gate which is neither implemented nor '
     'decomposable raises an error.',
     ['programs', 'configurations'],
     'every circuit and every subset of gates a backend may implement natively',
     'tests never run a user-written backend; the decompositions of controlled and multi-qubit gates are '
     'only reached for the one set of gates each built-in backend lacks',
     [B + 'backends/backendbase.py', B + 'gate.py'],
     [('fallback recursion and context threading', B + 'backends/backendbase.py'),
      ('decompositions', B + 'gate.py: fallback')],
     ['Circuit.run(backend=<user backend>)', 'BlueqatGlobalSetting.register_backend'],
     'generated circuits x generated native gate sets, run on a recording backend, compared with the '
     'reference simulator')

prop('C09', 'The symbolic unitary equals the numeric evolution',
     'The symbolic unitary of a measurement-free circuit, evaluated numerically, equals the exact unitary '
     'of the circuit up to one global phase (exactly, when no gate with an undocumented phase is used), '
     'also when gate parameters are symbols and numbers are substituted afterwards. Ignoring the global '
     'phase only multiplies it by a unit complex number that makes the first non-zero diagonal entry '
     'positive.',
     ['programs', 'inputs'],
     'every small circuit, every numeric or symbolic parameter and register size',
     'tests compare one circuit per gate; substitution of parameters whose symbols collide with internal '
     'ones, rational multiples of pi and repeated targets are not reached',
     [B + 'backends/sympy_backend.py', B + 'gate.py'],
     [('symbolic gate matrices and tensor products', B + 'backends/sympy_backend.py')],
     ['Circuit.to_unitary()'],
     'generated circuits with numeric and symbolic angles; substitution commutes with evaluation')

prop('C10', 'OpenQASM output is valid and describes the same circuit',
     'For every circuit the OpenQASM text is valid OpenQASM 2.0 using only operations of qelib1.inc, '
     'declares exactly the qubits of the circuit, and an independent interpreter of that language obtains '
     'the same unitary up to one global phase, or the same joint distribution of classical bits when '
     'measurements and resets are present. Output without the prologue is the same statements without '
     'the header lines.',
     ['programs', 'inputs'],
     'every circuit, angle (very small and large numbers included) and address form',
     'tests compare a few literal output strings; they neither parse the output nor interpret it',
     [B + 'backends/qasm_output_backend.py', B + 'gate.py'],
     [('text emission per gate', B + 'backends/qasm_output_backend.py')],
     ['Circuit.to_qasm()'],
     'generated circuits; round trip through an independent OpenQASM 2.0 parser and interpreter')

prop('C11', 'Running through Qiskit is equivalent to running natively',
     'The circuit handed to Qiskit has the same number of qubits and the same unitary up to one global '
     'phase, and measured counts returned by that backend sum to the number of shots, put the bit of '
     'qubit i at position i of the key, and follow the same distribution as the built-in simulator. '
     'Each documented kind of return value is honoured and an unknown kind is rejected.',
     ['programs', 'inputs'],
     'every circuit whose qubits are all measured or unitary, every documented return option',
     'tests look at a few counts of bit-symmetric circuits',
     [B + 'backends/ibmq_backend.py', B + 'backends/qasm_parser_backend_generator.py'],
     [('OpenQASM hand-over', B + 'backends/qasm_parser_backend_generator.py'),
      ('bit order reversal', B + 'backends/ibmq_backend.py')],
     ['Circuit.run_with_ibmq()'],
     'differential testing against Qiskit operators and exact outcome distributions')

prop('C12', 'Pauli arithmetic is a faithful algebra of matrices',
     'Every expression built from Pauli operators, numbers (Python or numpy scalars on either side), +, -, '
     '*, /, ** and negation denotes exactly the matrix obtained by doing the same arithmetic on the '
     'matrices, with operator n acting on qubit n and index bit n. Operands are never modified, and '
     'division by zero, negative powers and operands which are neither Pauli operators nor numbers (and operators '
     'as divisors or exponents) are rejected.',
     ['inputs'],
     'every expression tree over Pauli operators, terms, expressions and scalars',
     'the tests check selected identities; operator overloads combine four operand kinds times six '
     'operators times scalar types',
     [B + 'pauli.py'],
     [('operator overloads', B + 'pauli.py'), ('cancellation of adjacent factors', B + 'pauli.py: join_ops')],
     ['X, Y, Z, I', 'Term', 'Expr', 'to_matrix()'],
     'generated expression trees interpreted twice: by the library and over dense matrices')

prop('C13', 'Simplification, equality, hashing and commutators of Pauli expressions',
     'Simplifying preserves the denoted operator, is idempotent and yields a canonical form with at most '
     'one term per operator product and no zero term, so two expressions with exactly representable '
     'coefficients compare equal exactly when they denote the same operator, and equal Pauli operators '
     'hash equally. The commutator is AB - BA, commutability tests agree with it, qubit counts and largest '
     'indices describe the operators present, the identity test of an expression recognises I and nothing '
     'else, conversion from characters assigns the documented positions, '
     'and pickling or copying preserves the value.',
     ['inputs'],
     'all pairs of expressions with exact (dyadic) coefficients',
     'tests compare chosen pairs; canonicity and equality are quantified over all pairs of expressions',
     [B + 'pauli.py'],
     [('simplify', B + 'pauli.py'), ('comparison', B + 'pauli.py: __eq__'), ('commutator', B + 'pauli.py')],
     ['simplify()', '==', 'hash()', 'commutator()', 'is_commutable()', 'term_from_chars()'],
     'generated expressions; exact reference algebra over dictionaries of Pauli strings')

prop('C14', 'Pauli matrices are the same in every dense and sparse format',
     'Converting a Pauli operator, term or expression to a matrix gives the Kronecker product with qubit 0 '
     'as the least significant index bit, padded with identities to the requested number of qubits, and '
     'every sparse format yields the same matrix in the requested format. Unknown formats are rejected.',
     ['inputs', 'configurations'],
     'every expression, number of qubits >= the number needed, and format',
     'the matrix is assembled by a hand-written sparse construction whose index and sign handling differs '
     'per format; tests check a few matrices per format',
     [B + 'pauli.py'],
     [('sparse Kronecker construction', B + 'pauli.py: to_matrix')],
     ['to_matrix(n_qubits, sparse=)'],
     'generated expressions x formats x sizes against numpy.kron')

prop('C15', 'The time evolution of a Pauli term is the matrix exponential',
     'For every Pauli product P with real coefficient c, the gates appended by its time evolution for time '
     't implement exp(+i t c P) up to a global phase, which is exact for non-constant terms, and touch '
     'nothing else of the circuit; a non-real coefficient is rejected. Appending a term to a circuit '
     'applies its operator product up to a global phase.',
     ['inputs'],
     'every term (any qubits, order, repeated factors), coefficient, time and circuit it is appended to',
     'tests check a few terms at fixed times',
     [B + 'pauli.py'],
     [('basis change, parity ladder and rotation', B + 'pauli.py: get_time_evolution')],
     ['Term.get_time_evolution()', 'Term.append_to_circuit()'],
     'generated terms and times against the closed form of the matrix exponential')

prop('C16', 'Energies and samplers of variational algorithms are unbiased and exact',
     'For every ansatz and Hamiltonian the sparse energy and the energy by exact sampling equal '
     '<psi|H|psi>, energies by any shot-based sampler converge to it, and a sampler returns a probability '
     'table over the bits of exactly the requested qubits in the requested order; the sampler by measurement does so '
     'too for circuits which measure and reset qubits of their own. Evaluating energies and samplers leaves the '
     'circuit unchanged.',
     ['inputs', 'programs'],
     'every Hamiltonian, circuit, list of measured qubits (any order) and sampler',
     'tests minimise a few bit-symmetric diagonal Hamiltonians where a sign or bit-order error is invisible',
     [B + 'vqe.py'],
     [('basis change per term and parity sum', B + 'vqe.py: get_energy'),
      ('marginalisation', B + 'vqe.py: expect'), ('samplers', B + 'vqe.py')],
     ['AnsatzBase.get_energy', 'get_energy_sparse', 'get_objective', 'expect', 'samplers'],
     'generated Hamiltonians and states against exact expectation values and marginals; statistical bound '
     'for shot-based samplers')

prop('C17', 'QAOA circuits and variational results are what they are defined to be',
     'A QAOA ansatz with p steps prepares the initial state and then, per step, evolves under every '
     'Hamiltonian term with the step\'s gamma (times 2*pi) and under the mixer with its beta (times pi); '
     'terms that do not commute are rejected. A variational run minimises exactly the energy of that '
     'circuit, and its result reports the parameters the minimiser returned, the circuit for them, its '
     'outcome probabilities and the most common outcomes in descending order.',
     ['inputs', 'configurations'],
     'every commuting Hamiltonian, number of steps, initial circuit, mixer, parameters, minimiser and sampler',
     'tests run the optimiser end to end on a few problems and accept any good-enough answer',
     [B + 'vqe.py'],
     [('ansatz construction', B + 'vqe.py: QaoaAnsatz'), ('optimisation loop', B + 'vqe.py: Vqe, VqeResult')],
     ['QaoaAnsatz.get_circuit', 'Vqe.run', 'VqeResult'],
     'generated problems; exact states, energies and probabilities from a reference model')

prop('C18', 'A QUBO and its Pauli Hamiltonian have the same energies',
     'For every square QUBO matrix (upper, lower or full, integer or float, list or array) the Pauli '
     'Hamiltonian made from it is diagonal and its value at every bit assignment equals the QUBO cost of '
     'that assignment, bit i being qubit i. Non-square matrices are rejected.',
     ['inputs'],
     'all matrices and all 2^n assignments of each',
     'no existing test converts a QUBO',
     [B + 'wq.py', B + 'pauli.py'],
     [('bit to Pauli substitution', B + 'wq.py: pauli, ' + B + 'pauli.py: qubo_bit')],
     ['wq.pauli', 'pauli.qubo_bit'],
     'generated matrices; exhaustive comparison over all assignments')

prop('C19', 'Simulated annealing optimises and reports the energy of the given QUBO',
     'Every recorded energy of an annealing run is the QUBO cost of some bit assignment, the last one is the '
     'cost of the returned bits, and the acceptance rule keeps the Boltzmann distribution of that cost at '
     'the temperature in force, so slow cooling returns a minimum. Quantum annealing keeps '
     'the Boltzmann distribution of the replicas coupled by the transverse field in force, and its last recorded '
     'energy is the one of the returned replicas. Results have the documented shape for '
     'one or several shots, for every sampler mode and for QUBOs given as lists or arrays of any triangle and Ising couplings.',
     ['inputs', 'schedules'],
     'all QUBO matrices, schedules, samplers and numbers of shots',
     'annealing is not tested at all, and being stochastic a wrong coupling or sign only lowers the quality '
     'of answers',
     [B + 'wq.py'],
     [('QUBO to Ising conversion', B + 'wq.py: qi'), ('Metropolis sweep', B + 'wq.py: run, sqa')],
     ['Opt.run', 'Opt.sa', 'Opt.sqa', 'Opt.E'],
     'generated QUBOs; exact energy identity plus statistical test against the Boltzmann distribution')

prop('C20', 'QUBO builders produce matrices with the cost they are named after',
     'Converting a polynomial over bits to a matrix, and the builders for k-of-n selection, squares and '
     'products of linear forms, graph edges and diagonals, give matrices whose cost at every assignment '
     'equals the expression they stand for (up to the documented additive constant). Adding QUBOs to a '
     'problem accumulates weighted costs, also for different sizes, and builders never modify their '
     'arguments.',
     ['inputs'],
     'all polynomials of degree at most two, linear forms, edge lists, sizes and sequences of additions',
     'the builders have no tests',
     [B + 'wq.py'],
     [('matrix builders', B + 'wq.py'), ('symbolic conversion', B + 'wq.py: qn_to_qubo, optm, Opt.add')],
     ['wq.sel, sqr, mul, net, diag, zeros, qn_to_qubo, optm, optx, nbody_separation', 'Opt.add'],
     'generated inputs; exhaustive comparison of costs over all assignments')

prop('C21', 'Registering macros, gates and backends follows the documented contract',
     'A registered macro, gate or backend is usable from every circuit, existing ones included, until it is '
     'unregistered, and unregistering restores the previous absence; names already taken are rejected with '
     'ValueError and change nothing unless overwriting is allowed, as is unregistering unknown names. A run '
     'uses the backend given to it, else the circuit\'s own default (kept by copies), else the global default, '
     'and unknown names are rejected.',
     ['histories'],
     'every sequence of registrations, unregistrations, default changes, copies and calls',
     'registration is global mutable state; tests register and use one item at a time',
     [B + 'circuit.py'],
     [('registries and attribute lookup', B + 'circuit.py')],
     ['BlueqatGlobalSetting', 'Circuit.set_default_backend', 'Circuit.run'],
     'stateful model-based testing of the registries')

prop('C22', 'Bit-string and global-phase helpers',
     'Converting a string over 0 and 1 (or the keys of a counter or dictionary of them) to integer tuples '
     'keeps order, length, values and container type; other strings and other types of argument raise '
     'ValueError, and the argument is never modified. Removing the global phase multiplies a vector in place by the unit number '
     'that makes its first non-negligible amplitude real and positive, and returns it.',
     ['inputs'],
     'all strings, mappings and complex vectors',
     'tests check a few strings and vectors',
     [B + 'utils.py'],
     [('to_inttuple, ignore_global_phase', B + 'utils.py')],
     ['utils.to_inttuple', 'utils.ignore_global_phase'],
     'generated strings, counters and vectors against direct definitions')

prop('C23', 'Immutable operation lists and circuit unitaries agree with circuits',
     'Operation lists of the experimental module are values: every gate append, concatenation or conjugate '
     'returns a new list and leaves its operands unchanged, and converting to a circuit gives the same '
     'operations, register size and results as building that circuit directly. The numeric unitary of a '
     'circuit has as its k-th column the evolution of basis state k.',
     ['histories', 'programs'],
     'every tree of operation lists and every circuit',
     'the experimental module has no tests',
     [B + 'experimental/operations.py', B + 'experimental/utils.py'],
     [('NamedTuple-based operation list', B + 'experimental/operations.py'),
      ('column by column simulation', B + 'experimental/utils.py')],
     ['experimental.Ops', 'experimental.utils.circuit_to_unitary'],
     'stateful generation over a pool of operation lists against a model; unitary against the reference')

prop('C24', 'The printed form of a circuit rebuilds the circuit',
     'Evaluating the printed representation of a circuit or operation list built from Python numbers gives a '
     'circuit with the same register size, the same printed form and the same unitary.',
     ['programs'],
     'every circuit (and conjugates without overlapping pairs), gate, angle and address form',
     'tests compare two literal strings',
     [B + 'gate.py', B + 'circuit.py'],
     [('string conversion of parameters and addresses', B + 'gate.py: __str__')],
     ['repr(Circuit)', 'repr(Ops)'],
     'generated circuits; round trip through eval')

prop('C25', 'The compiled simulator backend agrees with the reference semantics',
     'The JIT-compiled simulator gives the same state vector as the default simulator for every '
     'measurement-free circuit, the same per-shot consistency and outcome support for circuits with '
     'measurement and reset, and does not let earlier runs influence later ones.',
     ['programs', 'histories'],
     'every circuit and run history on that backend',
     'the compiler is not installed where the tests run, so the whole backend is skipped',
     [B + 'backends/_numba_backend_impl.py', B + 'backends/numba_backend.py'],
     [('bit-insertion kernels', B + 'backends/_numba_backend_impl.py')],
     ["Circuit.run(backend='numba')"],
     'generated circuits on the kernels executed as plain Python (stand-in for the compiler)')

prop('C26', 'Problems sent to a D-Wave solver are the given QUBO',
     'The Ising problem submitted to a D-Wave solver whose graph contains the needed qubits and couplers has, '
     'at every spin assignment, the cost of the QUBO up to one additive constant and a positive factor, and '
     'the returned bits are those of the sampled spins in qubit order.',
     ['inputs', 'configurations'],
     'all QUBO matrices, solver graphs and returned samples',
     'needs the cloud service, so nothing is tested',
     [B + 'wq.py'],
     [('Ising conversion and submission', B + 'wq.py: dw')],
     ['Opt.dw'],
     'generated QUBOs and solver graphs with a recording stand-in for the cloud client')

prop('C27', 'The GPU simulator backend agrees with the reference semantics',
     'A circuit without reset, run on the qgate backend (with any runtime, circuit_prep and sampling method), gives '
     'the state of the reference semantics up to its global phase; with measurements at its end, it gives one count '
     'for each shot, keyed by the bits of all qubits (0 where unmeasured), distributed as the reference semantics '
     'says, and a joint result pairs a state with the bits recorded in the same run. The own sampling pool of the '
     'backend draws each value with its probability and leaves unused lanes 0.',
     ['inputs', 'programs'],
     'all circuits over the gate set (cu2 and cu3 excepted, whose phases are conventions of the library), addresses, '
     'runtimes and sampling methods, given the documented behaviour of the library',
     'the external library is not installed, so nothing of this backend is tested',
     [B + 'backends/qgate_backend.py'],
     [('translation of gates', B + 'backends/qgate_backend.py: convert_operators'),
      ('counts', B + 'backends/qgate_backend.py: sample, get_state_vector_and_sample'),
      ('sampling pool', B + 'backends/qgate_backend.py: BlueqatCompatibleSamplingPool')],
     ["Circuit.run(backend='qgate')"],
     'generated circuits on a stand-in for the library against a reference simulator; pools against their '
     'probabilities')

prop('C28', 'Printed Pauli expressions evaluate to the same operator',
     'The printed form of every Pauli operator, term and expression with finite coefficients is a Python '
     'expression over X, Y, Z and I which evaluates to an equal value, whatever the scalar type, sign or size of '
     'the coefficients and the order of terms and factors.',
     ['inputs', 'programs'],
     'every value reachable by Pauli arithmetic, coefficients of every Python and numpy scalar type',
     'signs, imaginary units and zero interact in the text of a sum; tests print a few sums with positive '
     'coefficients',
     [B + 'pauli.py'],
     [('printing of terms and sums', B + 'pauli.py: Term.__repr__, Expr.__repr__')],
     ['repr', 'str'],
     'generated Pauli expressions printed, evaluated and compared')

prop('C29', 'Threads that share nothing do not influence each other',
     'Circuits, operation lists, Pauli values, ansatz objects and QUBO problems used by one thread only give in '
     'every interleaving with other threads the results they give alone: building, running on the default '
     'simulator, symbolic and OpenQASM output, Pauli arithmetic, time evolution, energies, variational runs, '
     'annealing and QUBO conversion keep no state outside the objects they are called with.',
     ['schedules', 'programs'],
     'every interleaving of two or three threads at source lines or interpreter instructions of the package',
     'hidden shared state (scratch buffers, class attributes, module globals) only shows when another thread runs '
     'between two particular lines; tests have one thread',
     [B + 'circuit.py', B + 'backends/', B + 'pauli.py', B + 'vqe.py', B + 'wq.py'],
     [('per-run contexts', B + 'backends/numpy_backend.py: _NumPyBackendContext')],
     ['public API called from several threads'],
     'generated schedules executed by a deterministic line-level thread scheduler, results compared with those of '
     'the same calls made alone')

prop('C30', 'Equal seeds give equal results, whatever the hash seed',
     'All randomness comes from the random and numpy.random generators: seeded alike, measured circuits, shots, '
     'samplers, variational runs and annealing give the same results on equal objects and on an object that has '
     'been used before, and nothing printed or computed (operation order, Pauli arithmetic, QUBO conversion, '
     'samples) depends on the hash seed of the interpreter.',
     ['inputs', 'configurations'],
     'every circuit, sampler, hamiltonian and QUBO, every seed and hash seed',
     'a test runs in one interpreter and once; another entropy source, state kept between runs or iteration '
     'over a set shows only in repeated runs or another interpreter',
     [B + 'backends/numpy_backend.py', B + 'vqe.py', B + 'wq.py', B + 'pauli.py'],
     [('measurement', B + 'backends/numpy_backend.py: gate_measure'), ('sampling', B + 'vqe.py: samplers'),
      ('annealing moves', B + 'wq.py: Opt.sa, Opt.sqa, Opt.run')],
     ['run(shots)', 'samplers', 'Opt.run', 'repr'],
     'repeated seeded runs compared with one another, and between interpreters with different hash seeds')

prop('C31', 'Boltzmann machines are layered and train by the documented rule',
     'A machine has a bias for every unit and a weight for every pair of units in neighbouring layers, nothing '
     'else, random in [0, 1) unless a weight is given. The activation of a hidden unit is the logistic function of '
     'its bias plus the weighted visible bits; the data matrix holds activations on the diagonal and their products '
     'between visible and hidden units; the model matrix holds the averages of the same bits and products over the '
     'requested number of annealing samples (one shot included) cooled to the requested temperature. A training step with a row of the data '
     '(complemented) moves the parameters Q to alpha*Q + epsilon*(data - model), once per epoch, and modifies '
     'nothing else.',
     ['inputs', 'histories'],
     'all layer sizes, parameters, data rows, shots and training lengths',
     'these helpers have no tests; sums over layers go wrong for particular sizes only',
     [B + 'wq.py'],
     [('network and matrices', B + 'wq.py: dbms, rbm_hmodel, rbm_data_qubo'),
      ('sampling and training', B + 'wq.py: Opt.setRBM, rbm_model_qubo, fit')],
     ['wq.dbms, rbm_hmodel, rbm_data_qubo', 'Opt.setRBM, rbm_model_qubo, fit'],
     'generated networks and data; matrices compared with direct sums, training steps with the recorded samples')

NOT_APPLICABLE = {
}

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, _n, d in P:
            f.write(json.dumps(d) + '\n')
    checks = []
    for pid, note, d in P:
        if pid in NOT_APPLICABLE:
            continue
        if not os.path.exists(os.path.join(HERE, 'pbt', 'props', pid.lower() + '.py')):
            print('no check yet for', pid)
            continue
        cmd = f'/opt/venv/bin/python pbt/run.py {pid} --tier '
        checks.append({
            'property': pid, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'property-based testing: ' + note,
            'level': 'exploration',
            'level_note': 'no counterexample among the generated cases (counts and samples in the '
                          'evidence file); trusts the reference model in pbt/ and the tolerances it states',
        })
    done = {c['property'] for c in checks} | set(NOT_APPLICABLE)
    na = [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE.items()]
    na += [{'property': p, 'reason': 'check not built yet'} for p, _n, _d in P if p not in done]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({
            'version': 1,
            'setup_cmd': '/opt/venv/bin/python pbt/setup_deps.py',
            'checks': checks,
            'not_applicable': na,
            'notes': 'No hooks in /repo. Checks import /repo directly (pure Python, nothing to build) with '
                     'byte code caches disabled. VERIF_SEED selects the generated cases; a VIOLATION names a '
                     'replay file: python pbt/run.py <id> --replay <file>. See DESIGN.md.',
        }, f, indent=1)
        f.write('\n')
