"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=observe, hook_needed=None)))
B = "blueqat/"
prop("C01", "State-vector simulation applies exactly each gate's documented unitary",
 "Running a circuit on the default state-vector simulator multiplies the current state by the documented unitary of every gate, acting on exactly the qubits named (qubit 0 is the least significant bit of the amplitude index) and on no other qubit. This includes gates that are simulated through a decomposition, which must equal their documented unitary up to at most a global phase. It holds for every input state, angle, qubit position and circuit width.",
 ["inputs", "programs"], "all gates of the gate set, all input amplitudes, all real angles, all target/control placements and multi-target selections within the width bound",
 "Tests compare a few gates on basis-like states with a few angles and mostly 1-3 qubits; a wrong sign, conjugate, swapped control or index overflow visible only from entangled inputs, other angles or wide registers is not reached.",
 [B+"backends/numpy_backend.py", B+"gate.py"], [("per-gate amplitude updates", B+"backends/numpy_backend.py"), ("gate fallbacks", B+"gate.py")],
 ["Circuit.run()", "Circuit.run(returns='statevector')"])
prop("C02", "Qubit selection by index, slice or tuple follows Python sequence rules",
 "A gate applied with an index, a slice, or a tuple of those acts on exactly the qubits that indexing a sequence of length n (the circuit's width at run time) with the same expression would select, in that order, negative indices counting from the end. Two-qubit gates pair the k-th selected control with the k-th selected target and reject selections of different lengths or with a qubit paired with itself. Adding a gate never shrinks the circuit and makes it exactly wide enough for every non-negative index and explicit slice bound mentioned: max(width, index + 1, slice start + 1, slice stop).",
 ["inputs", "configurations"], "all integers and slices (start, stop, step, each possibly absent or negative) and tuples of them, all circuit widths within the bound",
 "test_slicing samples a handful of slices; off-by-one errors for negative steps, out-of-range bounds, or empty selections are a matter of all (start, stop, step, width) combinations.",
 [B+"gate.py", B+"circuit.py"], [("target expansion", B+"gate.py"), ("width growth", B+"circuit.py")],
 ["backend-visible target iteration", "Circuit.n_qubits"])
prop("C03", "dagger() yields the exact inverse circuit",
 "For any circuit made of unitary gates, running the circuit followed by its Hermitian conjugate restores the input state up to a global phase, and taking the conjugate twice gives back the same unitary. A circuit containing a measurement or reset has no conjugate and is refused unless measurements are explicitly ignored, in which case only those operations are dropped. The original circuit is left unchanged.",
 ["inputs", "programs"], "all gates and gate sequences within the length bound, all angles, all target selections, all input states",
 "test_dagger checks fixed circuits and angles on the zero state; an incorrect inverse for one parameter combination or slice target escapes it.",
 [B+"gate.py", B+"circuit.py"], [("Gate.dagger", B+"gate.py"), ("Circuit.dagger", B+"circuit.py")], ["Circuit.dagger()", "Circuit.run()"])
prop("C04", "Result caching never changes the result of a run",
 "Whatever sequence of running, caching, appending gates, copying, concatenating, widening, measuring or conjugating a circuit has been through, and whichever backend objects are reused, running it returns the state that a freshly built circuit with the same gates would return. Arrays handed to the caller are the caller's own: changing them does not change later results. The same holds for every simulator that caches.",
 ["histories"], "all interleavings of run / make_cache / append / copy / concatenate / widen / measure / dagger / shared-backend operations up to the depth bound, symbolic angles",
 "The cache is a history-dependent optimisation; tests run three or four fixed histories.",
 [B+"backends/numpy_backend.py", B+"backends/_numba_backend_impl.py", B+"circuit.py", B+"backends/backendbase.py"],
 [("cache prefix reuse", B+"backends/numpy_backend.py"), ("Circuit.copy", B+"circuit.py")], ["Circuit.run()", "Circuit.make_cache()"],
 [("cache", "state after the longest deterministic prefix", B+"backends/numpy_backend.py")])
prop("C05", "Measurement and reset follow the Born rule and collapse correctly",
 "Measuring a qubit reports 0 with probability equal to the squared norm of the zero half of the state and 1 otherwise, leaves the normalised projection of the state on the reported outcome, and records that bit at the qubit's own position. Resetting a qubit leaves that qubit in |0> with the rest of the state projected on the branch drawn, with the same probabilities. Several measurements in one shot are conditional on the earlier ones, and a later gate acts on the collapsed state.",
 ["inputs", "schedules"], "all normalised states, all values of the random draws, all qubits and multi-qubit selections, measurement/gate sequences within the bound",
 "Tests check deterministic outcomes or loose statistics; a biased threshold, a missing renormalisation or a bit recorded at the wrong position for a superposed state needs all amplitudes and all draws.",
 [B+"backends/numpy_backend.py"], [("gate_measure/gate_reset", B+"backends/numpy_backend.py")], ["Circuit.run(returns='statevector_and_shots')"])
prop("C06", "Shot counting is complete, independent per shot and consistently ordered",
 "Running with k shots returns counts of bit strings that add up to k, each shot being a fresh execution from the initial state with its own random draws. Each bit string has one character per qubit, character i being the last measured value of qubit i (0 if never measured). The requested kind of result (state vector, counts, or both) is what is returned, and unknown kinds are rejected.",
 ["inputs", "schedules", "configurations"], "all random draws for every shot, all measurement placements, all shots/returns combinations within the bound",
 "Tests use sampling with generous tolerances and circuits with deterministic outcomes.",
 [B+"backends/numpy_backend.py"], [("shot loop and register bookkeeping", B+"backends/numpy_backend.py")], ["Circuit.run(shots=..., returns=...)"])
prop("C07", "Circuit composition concatenates and copies are independent",
 "Concatenating circuits gives a circuit that applies the first circuit's gates and then the second's, as wide as the wider of the two, and leaves both operands unchanged unless the in-place form is used. A copy evolves independently of its source in either direction, while carrying the same gates, width and (by default) default backend. Macros and gates registered globally behave like the function or gate class registered.",
 ["histories", "programs"], "all sequences of append / + / += / copy / macro operations over several live circuits up to the depth bound, symbolic angles",
 "Aliasing shows only after a particular interleaving of operations on two circuits; tests have a few fixed ones.",
 [B+"circuit.py"], [("Circuit.__add__/__iadd__/copy", B+"circuit.py")], ["Circuit.run()", "Circuit.n_qubits"])
prop("C08", "OpenQASM export denotes the same computation as the circuit",
 "The OpenQASM 2.0 text exported from a circuit, read with the standard gate definitions, describes the same unitary (up to a global phase) on the same qubits, and the same measurements and resets into the classical bit with the qubit's number, as the simulator executes. Registers are declared as wide as the circuit, and gates without a standard counterpart are decomposed or refused, never mistranslated.",
 ["programs", "inputs"], "all exportable gates, angles, target selections and sequences within the bound",
 "test_toqasm compares text for fixed circuits, so it cannot see a text that is stable but denotes another unitary, nor angles and targets it does not list.",
 [B+"backends/qasm_output_backend.py", B+"gate.py"], [("QASM emission and fallbacks", B+"backends/qasm_output_backend.py")], ["Circuit.to_qasm()"])
prop("C09", "The symbolic unitary equals the documented unitary for all angles",
 "The symbolic matrix of a circuit, as a function of its symbolic parameters, equals the product of the documented gate unitaries (up to a global phase for gates defined by decomposition) for all real values of the parameters, whatever names the user gave the symbols. Requesting the global phase to be ignored changes the matrix only by a phase.",
 ["programs", "inputs"], "all gates, all real parameter values, all target selections within the width bound, any symbol names",
 "test_sympy compares structural forms of particular expressions, and does not evaluate them on all angles or on multi-qubit placements.",
 [B+"backends/sympy_backend.py", B+"gate.py"], [("matrix construction and substitution", B+"backends/sympy_backend.py")], ["Circuit.to_unitary()"])
prop("C10", "Pauli algebra is a faithful homomorphism into matrices",
 "Addition, subtraction, multiplication, division, powers, negation, commutators and simplification of Pauli operators, terms and expressions agree with the same operations on the matrices they denote, for all coefficients. Two objects that compare equal denote the same matrix, simplified expressions have one entry per distinct operator string, and equality is symmetric and consistent with hashing. Commutation tests answer according to the actual commutator.",
 ["inputs", "programs"], "all Pauli strings within the length and qubit bound, all complex coefficients, all operand kinds on both sides of each operator",
 "Tests multiply chosen strings with chosen coefficients; sign/phase errors, dropped or merged terms and zero-coefficient corner cases need all combinations.",
 [B+"pauli.py"], [("Term/Expr arithmetic and simplify", B+"pauli.py")], ["pauli operators +,-,*,/,**,==", "simplify()", "commutator()"])
prop("C11", "Matrix forms of Pauli expressions are exact in every storage format",
 "Converting a Pauli operator, term or expression to a matrix gives the sum of its coefficients times the Kronecker products of the 2x2 Pauli matrices with qubit 0 least significant, at the requested width. The dense form and every supported sparse format denote that same matrix.",
 ["inputs", "configurations"], "all Pauli strings over the qubit bound, all complex coefficients, all formats, all widths at least the natural one",
 "The conversion is optimised by string shape (grouping, split points, row/column major), so errors depend on the string; tests sample few shapes.",
 [B+"pauli.py"], [("_term_to_dataarray, index/xor construction, Expr grouping", B+"pauli.py")], ["to_matrix(n_qubits, sparse=...)"])
prop("C12", "Time evolution of a Pauli term is the exponential of that term",
 "Appending the time evolution of a term with real coefficient c for time t multiplies the state by exp(+i*c*t*P), up to a global phase, where P is the term's Pauli string, for every string including those containing Y. A term whose coefficient is not real is refused. Appending a term's operators as gates applies the operator product of its Pauli string.",
 ["inputs", "programs"], "all Pauli strings within the bound, all real c and t, all input states",
 "Tests never compare the evolution with the exponential of the matrix; which strings and signs are right depends on the letters.",
 [B+"pauli.py"], [("get_time_evolution, append_to_circuit", B+"pauli.py")], ["Term.get_time_evolution()", "Term.append_to_circuit()"])
prop("C13", "Both energy evaluations equal the expectation value of the Hamiltonian",
 "For any Hermitian Pauli Hamiltonian and any circuit, the energy computed by measuring each term with an exact sampler and the energy computed with the matrix both equal <psi|H|psi> of the circuit's final state. The circuit passed in is not changed.",
 ["inputs", "programs"], "all Hamiltonians within the bound with symbolic real coefficients, all states, circuits at least as wide as the Hamiltonian",
 "Tests run an optimiser on fixed problems and check the most likely answer, which tolerates sign and basis errors.",
 [B+"vqe.py", B+"pauli.py"], [("basis change per term; sparse expectation", B+"vqe.py")], ["AnsatzBase.get_energy", "AnsatzBase.get_energy_sparse"])
prop("C14", "Samplers report the distribution of exactly the requested qubits in order",
 "Given a circuit and a list of qubits, every sampler returns a distribution over bit tuples whose k-th entry is the value of the k-th requested qubit. Exact samplers return the true marginal probabilities, sampling ones return observed relative frequencies; in both cases the values add up to one and no outcome is lost. Sampling does not modify the caller's circuit.",
 ["inputs", "schedules", "configurations"], "all states, all ordered lists of distinct qubits, all random outcomes within the shot bound",
 "Tests only look at the most common result of symmetric problems; bit order, merging of outcomes and marginalisation are not pinned.",
 [B+"vqe.py"], [("expect and the sampler factories", B+"vqe.py")], ["expect", "non_sampling_sampler", "get_measurement_sampler", "get_state_vector_sampler", "get_qiskit_sampler"])
prop("C15", "The QAOA ansatz applies the prescribed alternation of evolutions",
 "For every parameter vector (betas then gammas), the QAOA circuit is the initial circuit followed, for each step, by the evolution under the cost Hamiltonian for 2*pi*gamma and then the mixer for pi*beta. A Hamiltonian whose terms do not commute is refused, a custom mixer requires an initial circuit, and neither the initial circuit nor the parameters are modified.",
 ["inputs", "programs"], "all real parameters, all diagonal or commuting Hamiltonians and mixers within the bound, all initial circuits within the bound",
 "Tests check only the final most-common result after optimisation.",
 [B+"vqe.py"], [("QaoaAnsatz.get_circuit", B+"vqe.py")], ["QaoaAnsatz.get_circuit(params)"])
prop("C16", "QUBO matrices, Ising models and Pauli Hamiltonians have equal energies",
 "For every QUBO matrix and every bit assignment, the QUBO energy, the energy of the Pauli Hamiltonian built from it on the corresponding basis state, and the Ising model (fields, couplings and offset) used by the annealers are equal. The helper constructors (choose-k-of-n, squares, products, edge lists, diagonals, sums with weights) produce the QUBO whose energy is the stated penalty. A problem handed to the annealing service or to QAOA carries exactly these fields and couplings on the qubits they belong to.",
 ["inputs"], "all real matrices within the size bound, all bit assignments, all helper arguments within the bound",
 "Tests use no QUBO conversions at all beyond one Pauli example.",
 [B+"wq.py", B+"pauli.py"], [("pauli, Opt.qi, sel, sqr, mul, net, diag, Opt.add", B+"wq.py"), ("qubo_bit", B+"pauli.py")], ["wq.pauli(qubo)", "Opt.add", "Opt.E", "wq.sel/sqr/net/diag"])
prop("C17", "Annealing accepts moves by the true energy change and reports true energies",
 "In every sweep of simulated (and simulated quantum) annealing a proposed spin flip is accepted exactly when it lowers the energy or when the random draw is below exp(-dE/T), where dE is the exact difference of the model energy before and after the flip. The recorded energies are the energies of the states visited, and the returned bits are the final state.",
 ["inputs", "schedules"], "all QUBO matrices within the size bound, all initial states, all random choices and draws for a bounded number of steps",
 "No test runs the annealers; statistical success would hide wrong energy differences anyway.",
 [B+"wq.py"], [("Opt.run, Opt.sqa, Ei, Ei_sqa", B+"wq.py")], ["Opt.run()", "Opt.sqa()", "Opt.E"])
prop("C18", "Symbolic expressions and QUBO matrices agree on every assignment",
 "Converting a quadratic expression in binary variables to a QUBO matrix preserves its value on every assignment, up to the constant term, and removing repeated factors of a variable preserves it exactly. Reducing a higher-degree polynomial introduces auxiliary variables such that whenever the constraints vanish the new expression equals the old one, the constraints are never negative, and they vanish exactly when each auxiliary variable is the product it stands for.",
 ["inputs", "programs"], "all polynomials over the variable/degree bound with symbolic coefficients, all bit assignments including the auxiliary variables",
 "No test covers these conversions.",
 [B+"wq.py"], [("qn_to_qubo, nbody_separation, Opt.qubo_to_matrix, expand_qubo, optm, optx", B+"wq.py")], ["wq.qn_to_qubo", "wq.nbody_separation", "Opt.add(str)"])
prop("C19", "The accelerated simulator is equivalent to the reference simulator",
 "For every circuit, state and random draw, the just-in-time compiled simulator returns the same state vector (up to a global phase), counts and caching behaviour as the documented gate semantics and measurement rule require.",
 ["programs", "inputs", "histories"], "all gates including multi-controlled ones, all amplitudes and angles, all qubit placements within the width bound, all draws",
 "numba is not installed where the tests run, so none of them reaches this simulator.",
 [B+"backends/_numba_backend_impl.py"], [("bit-mask index enumeration and kernels", B+"backends/_numba_backend_impl.py")], ["Circuit.run(backend='numba')"])
prop("C20", "Backend, gate and macro registries dispatch to what was registered",
 "At every point of any history of registering, overriding, unregistering and selecting defaults, a run uses the backend named in the call, else the circuit's own default, else the global default, and each backend receives exactly the circuit's gates, width and the caller's arguments. Names that clash are refused unless overwriting was requested, unknown names are refused, and unregistering removes exactly that name. Gates unknown to a backend are handed over through their decomposition; each gate action receives the context the previous action returned, and the run is finished with the last one.",
 ["histories", "configurations"], "all sequences of registry and default-selection operations up to the depth bound",
 "Tests run a few fixed sequences; precedence and clash rules are properties of histories.",
 [B+"circuit.py", B+"backends/backendbase.py", B+"backends/qasm_parser_backend_generator.py"], [("BlueqatGlobalSetting, Circuit.run dispatch, fallback resolution", B+"circuit.py")], ["BlueqatGlobalSetting.*", "Circuit.run(backend=...)", "Circuit.set_default_backend"])
prop("C21", "Immutable operation sequences behave like circuits and never change",
 "An operation sequence built with the experimental immutable interface converts to a circuit that runs like the same gates applied directly; extending, concatenating or conjugating one never changes an existing sequence. The unitary extracted from a circuit by running it on all basis states is the circuit's unitary.",
 ["programs", "histories"], "all gate sequences, extension/concatenation histories and angles within the bound",
 "There are no tests of the experimental package.",
 [B+"experimental/operations.py", B+"experimental/utils.py"], [("Ops wrapper, circuit_to_unitary", B+"experimental/operations.py")], ["Ops.to_circuit()", "circuit_to_unitary"])
prop("C22", "Text, pickle and phase utilities round-trip",
 "The printed form of a circuit, evaluated as Python, builds a circuit with the same width and the same effect, and the printed form of a Pauli term or expression denotes the same operator whatever its coefficients. Copying, deep-copying or pickling a circuit or a Pauli object gives an equal one, also after the circuit was run. Converting bit strings to integer tuples preserves every bit, its order and every count. Ignoring the global phase multiplies the whole vector by one unit complex number and makes its first non-negligible amplitude real and positive.",
 ["inputs", "programs"], "all gates/targets/angles and coefficients within the bound, all bit strings within the length bound, all state vectors within the width bound",
 "Tests sample a few strings and vectors; slices, negative steps and phases are not covered.",
 [B+"circuit.py", B+"gate.py", B+"utils.py", B+"pauli.py"], [("__repr__ / _str_targets", B+"gate.py"), ("Term.__repr__, Expr.__repr__, Expr.__reduce__", B+"pauli.py"), ("to_inttuple, ignore_global_phase", B+"utils.py")], ["repr(circuit)", "repr(term)", "repr(expr)", "pickle", "to_inttuple", "ignore_global_phase", "run(ignore_global=True)"])
prop("C23", "Conversion to the qgate simulator preserves the circuit",
 "Running a circuit through the qgate adaptor executes the same unitary and reports bit strings in the same order as the default simulator.",
 ["programs", "inputs"], "all gates supported by the adaptor", "qgate is a third-party package that is not installed; no test reaches the adaptor.",
 [B+"backends/qgate_backend.py"], [("operator conversion", B+"backends/qgate_backend.py")], ["Circuit.run(backend='qgate')"])
prop("C24", "Results from the Qiskit adaptor use the same bit order and arguments",
 "Counts obtained through the Qiskit adaptor have character i of every key describing qubit i, keep every count, and are produced by executing exactly the exported program once with the caller's shots, backend and extra arguments. Each requested kind of return value is what is returned and unknown kinds are refused.",
 ["inputs", "configurations"], "all count tables within the width bound with symbolic counts, all return kinds and arguments",
 "The existing tests run Aer on a few circuits, mostly with palindromic or single-bit outcomes.",
 [B+"backends/ibmq_backend.py", B+"backends/qasm_parser_backend_generator.py"], [("_qasm_runner_qiskit", B+"backends/ibmq_backend.py")], ["Circuit.run_with_ibmq"])
prop("C25", "The variational driver optimises and reports the energy it states",
 "The optimiser is given an objective equal to the ansatz energy at every parameter vector, and the result holds the circuit and parameters it returned. Result probabilities are those of that circuit, sorted most likely first, computed once and reused unless a rerun is requested or a sampler is given, and obtaining them does not change the circuit.",
 ["inputs", "histories"], "all parameter vectors the optimiser may try or return, all histories of probability queries up to the bound, all states within the width bound",
 "Tests run whole optimisations and look at the winner only.",
 [B+"vqe.py"], [("Vqe.run, VqeResult", B+"vqe.py")], ["Vqe.run()", "VqeResult.get_probs/most_common"])
prop("C26", "Boltzmann-machine training uses exact activations and sample averages",
 "A Boltzmann machine has one bias per unit and couples exactly the units of consecutive layers, with the initial weight given or a random draw of its own for each. Hidden activations are the logistic function of bias plus weighted visible values; the data matrix holds unit values on the diagonal and visible-hidden products, and the model matrix the averages of the same quantities over the annealed samples. A training step sets the matrix to alpha times the old one plus epsilon times data minus model, for a drawn row of data with its bits inverted, and leaves the data unchanged.",
 ["inputs", "histories"], "all weights, biases, visible values and rates, all data rows and samples, all layer lists within the bound",
 "No test touches this part; training being stochastic, a wrong average or a swapped index only shows as slow learning.",
 [B+"wq.py"], [("dbms, sigm, rbm_hmodel, rbm_data_qubo, Opt.setRBM/rbm_model_qubo/fit", B+"wq.py")], ["wq.dbms", "wq.rbm_data_qubo", "Opt.rbm_model_qubo", "Opt.fit"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
