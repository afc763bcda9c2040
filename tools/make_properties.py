"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib

P = []


def add(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))


add("C01", "Every gate acts as its textbook unitary on exactly the addressed qubits",
    "Applying any gate of the library to a state vector multiplies it by the gate's textbook unitary on the target "
    "qubits, restricted to the basis states in which every control qubit is 1, and leaves all other amplitudes "
    "unchanged; qubit i is the i-th (most significant first) bit of a bitstring. This holds for every register size, "
    "every ordered choice of distinct target and control qubits, every rotation angle, whether the angle is written "
    "as a number or supplied by name, and whether qubit indices are plain or numpy integers, alone or in tuples.",
    ["inputs", "configurations"],
    "all gates x register sizes x ordered target/control tuples x angles x index forms x input states",
    "The tests draw one random target and one control on 7 qubits and mostly check that gate then dagger is the "
    "identity, which any wrong unitary also satisfies; multi-control and unordered layouts appear in seven SWAP rows.",
    ["horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/apply.py",
     "horqrux/matrices.py", "horqrux/utils/operator_utils.py"],
    [("contraction of the operator over the (control, target) axes", "horqrux/apply.py apply_operator"),
     ("controlled embedding", "horqrux/utils/operator_utils.py _controlled, is_controlled"),
     ("index normalisation", "horqrux/primitives/primitive.py Primitive.parse_idx"),
     ("gate matrices", "horqrux/matrices.py, operator_utils._unitary, parametric._PHASE")],
    ["apply_gates(state, gate, values)", "gate(state, values)"])

add("C02", "A circuit equals its gates applied in listed order, however it is nested or run",
    "Running a circuit on a state vector gives the state obtained by applying its gates one after another in listed "
    "order, for every circuit. The result does not depend on how the gates are nested inside sequences and circuits, "
    "nor on the entry point (running the circuit, calling it, or applying its flat gate list). A circuit without "
    "gates leaves the state unchanged.",
    ["programs", "inputs"],
    "all gate sequences over an alphabet of gates x all nestings x all entry points x parameter values",
    "One fixed five-gate circuit and one circuit-in-circuit are tested, only against another entry point of the "
    "same implementation.",
    ["horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/apply.py", "horqrux/api.py"],
    [("left fold over operations", "horqrux/composite/sequence.py OpSequence.__call__"),
     ("flattening iterator", "horqrux/composite/sequence.py OpSequence.__iter__"),
     ("flat application", "horqrux/apply.py apply_gates, prepare_sequence_reduce")],
    ["run", "QuantumCircuit()", "OpSequence()", "apply_gates", "iter(circuit)"])

add("C03", "Dagger inverts a gate and Jacobian differentiates it, controlled or not",
    "Applying a gate (or gate list) in dagger mode multiplies by the conjugate transpose of each gate's action, so that "
    "the reversed list in dagger mode undoes the original list on state vectors and density matrices. Applying a "
    "parametric gate in Jacobian mode gives the exact derivative, with respect to its parameter, of that gate's action "
    "on the state. Both hold for dense and sparse gates, with any number of controls, in any qubit layout.",
    ["inputs", "programs"],
    "all gates x layouts x angles x words of gates, dense and sparse",
    "Dagger is tested for one random layout per gate and Jacobian mode is never exercised by a test.",
    ["horqrux/apply.py", "horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py",
     "horqrux/utils/operator_utils.py"],
    [("conjugate transpose", "horqrux/utils/operator_utils.py _dagger"),
     ("gate Jacobian", "horqrux/utils/operator_utils.py _jacobian; parametric.py _PHASE.jacobian"),
     ("operation type dispatch", "horqrux/apply.py prepare_sequence_reduce")],
    ["apply_gates(..., op_type=DAGGER|JACOBIAN)", "gate.dagger(values)"])

add("C04", "Density matrices evolve as U rho U-dagger, consistently with state vectors",
    "Applying noiseless gates to a density matrix rho gives U rho U-dagger for the same unitary U that state vectors "
    "undergo, for pure and mixed rho. In particular converting a state vector to a density matrix and evolving it equals "
    "evolving the vector and converting the result, for every gate layout and every circuit.",
    ["inputs", "programs"],
    "all gates x layouts x circuits x pure and mixed input states",
    "Tests compare one random layout per gate on pure states only; mixed states and multi-control layouts never occur.",
    ["horqrux/apply.py", "horqrux/utils/operator_utils.py"],
    [("support permutation, left and right contraction", "horqrux/apply.py apply_operator(DensityMatrix)"),
     ("permute_basis", "horqrux/utils/operator_utils.py"), ("density_mat", "horqrux/utils/operator_utils.py")],
    ["apply_gates(DensityMatrix, ...)", "run", "density_mat"])

add("C05", "Noisy gates apply their documented channels, on the gate's target, in order",
    "A gate carrying noise first acts as the ideal gate and then applies each of its noise channels, in listed order, "
    "to its target qubit with the documented formula for that channel and probability. The result is a density matrix "
    "whose trace is preserved and which stays positive semidefinite, for state-vector and density-matrix inputs, for "
    "controlled and uncontrolled gates, anywhere in a circuit. Noiseless gates in the same circuit stay exact.",
    ["inputs", "configurations", "programs"],
    "all channels x probabilities in [0,1] x gates x layouts x lists of channels x circuits mixing noisy and ideal gates",
    "The tests only check that noise changes the result when p is 0.1 and does not when p is 0; no channel is compared "
    "with its definition, and lists of several channels or controlled noisy gates never occur.",
    ["horqrux/noise/noise.py", "horqrux/noise/utils_noise.py", "horqrux/apply.py"],
    [("Kraus operators", "horqrux/noise/utils_noise.py"),
     ("Kraus sum", "horqrux/apply.py apply_operator_with_noise, apply_kraus_sum, apply_kraus_operator"),
     ("promotion to density matrix", "horqrux/apply.py apply_gates(Array)")],
    ["apply_gates", "run", "DigitalNoiseInstance.kraus"])

add("C06", "Exactly the valid noise probabilities are accepted",
    "Using a noise instance with a probability (or, for the multi-probability channels, a tuple of probabilities) outside "
    "[0, 1], or Pauli-channel probabilities summing to more than 1, raises ValueError and never yields a channel. "
    "Every valid choice, including the boundary values 0 and 1, yields finite Kraus operators satisfying the closure "
    "(trace-preservation) relation.",
    ["inputs", "configurations"],
    "all channels x all tuples over a grid of in-range, boundary and out-of-range probabilities",
    "Tests probe two out-of-range values per channel and two in-range ones; the boundary and the combinations are open.",
    ["horqrux/noise/utils_noise.py", "horqrux/noise/noise.py"],
    [("range checks", "horqrux/noise/utils_noise.py"), ("dispatch by noise type", "horqrux/noise/noise.py PROTOCOL_TO_KRAUS_FN")],
    ["DigitalNoiseInstance(type, p).kraus"])

add("C07", "Exact expectation values equal <O> in every mode and representation",
    "Without shots, the returned vector holds, in the order of the observables, the real expectation value of each "
    "observable in the final state of the circuit, for observables built from any nesting of Pauli-like gates, "
    "products, sums and (named or numeric) scalings. State vectors, density matrices (pure or mixed) and noisy circuits "
    "obey the same formula, and the automatic, adjoint and parameter-shift modes return the same values wherever they "
    "accept the input. Parameter values may be given flat or, for the automatic and adjoint modes, separately for circuit "
    "and observables.",
    ["inputs", "programs", "configurations"],
    "all observables of a bounded grammar x lists of observables x states x circuits x differentiation modes x value layouts",
    "Tests compare the library's modes with one another for Z(0)/Z(1) on a couple of circuits; sums, scalings, products "
    "and mixed states have no oracle.",
    ["horqrux/api.py", "horqrux/differentiation/ad.py", "horqrux/differentiation/adjoint.py",
     "horqrux/differentiation/gpsr/analytical.py", "horqrux/composite/compose.py", "horqrux/composite/sequence.py",
     "horqrux/utils/values_utils.py"],
    [("inner product / trace", "horqrux/differentiation/ad.py _ad_expectation_single_observable"),
     ("Add, Scale, Observable", "horqrux/composite/compose.py"),
     ("value routing", "horqrux/utils/values_utils.py _values_processing")],
    ["expectation", "Observable()"])

add("C08", "Automatic and adjoint-mode gradients are the true derivatives",
    "Differentiating an exact expectation value in the automatic or adjoint mode yields the true partial derivative with "
    "respect to every circuit parameter and every observable parameter, including parameters shared by several gates "
    "(controlled or not) and parameters that do not occur at all (derivative 0). When circuit and observable values are "
    "given separately the two gradients are separate as well. Second derivatives and jit-compiled evaluation agree.",
    ["programs", "inputs"],
    "all parametric circuits over an alphabet x parameter-sharing patterns x observables x modes",
    "Tests compare two modes that share the same autodiff engine on one circuit; no independent derivative is ever computed.",
    ["horqrux/differentiation/ad.py", "horqrux/differentiation/adjoint.py", "horqrux/api.py",
     "horqrux/primitives/parametric.py"],
    [("JAX autodiff through the simulation", "horqrux/differentiation/ad.py"),
     ("adjoint expectation", "horqrux/differentiation/adjoint.py"),
     ("parameter lookup", "horqrux/primitives/parametric.py Parametric.__post_init__")],
    ["jax.grad(expectation(..., diff_mode=AD|ADJOINT))"])

add("C09", "Parameter-shift gradients equal the true derivatives",
    "In the parameter-shift mode without shots, both the differentiable forward function and the dedicated backward "
    "function return the exact derivative of the expectation values with respect to every circuit parameter, for every "
    "circuit of rotation and phase gates. This includes parameters shared by several gates, fixed-angle gates, values "
    "for names the circuit does not use or that only observables use, controlled gates, noisy gates, density-matrix "
    "inputs, several observables and second derivatives.",
    ["programs", "inputs"],
    "all parametric circuits over an alphabet x parameter-sharing patterns x extra names x states x observables",
    "Tests cover two uncontrolled RX gates with either distinct or fully shared names; all other sharing patterns, gate "
    "kinds and extra names are open.",
    ["horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/gpsr_utils.py",
     "horqrux/primitives/parametric.py"],
    [("shift rule", "horqrux/differentiation/gpsr/analytical.py analytical_gpsr_jvp, analytical_gpsr_bwd"),
     ("repeated-parameter handling", "horqrux/differentiation/gpsr/gpsr_utils.py create_renamed_operators, alter_gate_sequence"),
     ("spectral gap", "horqrux/primitives/parametric.py Parametric.spectral_gap")],
    ["jax.grad(expectation(..., diff_mode=GPSR))", "analytical_gpsr_bwd"])

add("C10", "Finite-shot estimates are means of Born-distributed eigenvalues",
    "With n_shots > 0 each returned estimate is the mean of exactly n_shots outcomes, each an eigenvalue of that "
    "observable drawn with its Born probability in the final (pure or mixed) state, for every list of Hermitian "
    "observables, commuting or not, degenerate or not, in any order. The same random key gives the same estimates, and "
    "the random key decides the draws. The parameter-shift gradient with shots is the same shift rule applied to such "
    "estimates.",
    ["inputs", "schedules", "configurations"],
    "all answers of the random source (every resolution cell, and every short sequence of draws) x observables lists x states",
    "Tests sample one key with 100000 shots for Z(0), Z(1) only and accept errors of 0.01-0.1.",
    ["horqrux/shots.py", "horqrux/differentiation/gpsr/shots.py", "horqrux/api.py"],
    [("eigen-decomposition and alignment", "horqrux/shots.py eigen_sample, align_eigenvectors, permutation_matrix"),
     ("Born probabilities", "horqrux/shots.py eigen_probabilities"),
     ("shift rule with shots", "horqrux/differentiation/gpsr/shots.py")],
    ["expectation(..., n_shots=k)", "finite_shots_gpsr_backward"],
    hook="none in /repo: the harness replaces jax's uniform random source")

add("C11", "Sampling returns a correct histogram of measured bitstrings",
    "Sampling a circuit returns counts that sum to exactly n_shots, over bitstrings with one character per qubit (qubit 0 "
    "first), each shot's bitstring being drawn with its Born probability in the final state. Bitstrings of probability "
    "zero never occur, the same call always returns the same counts, and state-vector and density-matrix inputs and "
    "noisy circuits follow the same rule.",
    ["inputs", "schedules"],
    "all answers of the random source x circuits x states x shot counts",
    "The only sampling test is not collected by pytest (its name does not start with test_).",
    ["horqrux/api.py", "horqrux/utils/operator_utils.py"],
    [("probabilities", "horqrux/utils/operator_utils.py probabilities"),
     ("draw and count", "horqrux/utils/operator_utils.py sample_from_probs"), ("sample", "horqrux/api.py")],
    ["sample"], hook="none in /repo: the harness replaces jax's uniform random source")

add("C12", "Sparse and dense simulation agree and conversions lose nothing",
    "Simulating with sparse gates, circuits, observables and states gives the same states, matrices and expectation "
    "values as the dense simulation of the same program. Converting any gate, sequence, sum, scaling, observable or "
    "circuit to sparse or dense form preserves its meaning and all its attributes (operations, parameters, scale factors, "
    "register size, feature parameters, controls), and converting back restores an equivalent object; the original "
    "object is not changed.",
    ["inputs", "programs"],
    "all gates x layouts x circuits x composites, dense vs sparse, and both conversions",
    "Tests run each gate sparse on one random layout without comparing with dense results, and convert one flat circuit.",
    ["horqrux/utils/conversion.py", "horqrux/apply.py", "horqrux/utils/operator_utils.py",
     "horqrux/utils/sparse_utils.py", "horqrux/matrices.py", "horqrux/primitives/parametric.py"],
    [("conversions", "horqrux/utils/conversion.py to_sparse, to_dense"),
     ("sparse contraction", "horqrux/apply.py apply_operator(BCOO)"),
     ("sparse controlled embedding", "horqrux/utils/operator_utils.py _controlled, controlled, expand_operator")],
    ["apply_gates on sparse states", "to_sparse", "to_dense", "tensor", "expectation"])

add("C13", "Matrix representations equal the action on states",
    "The matrix of a gate, sequence, sum, scaling or observable, on its own qubits or expanded to any larger set of qubits, "
    "is the matrix (rows and columns ordered by ascending qubit index) of the linear map it performs on state vectors. "
    "Asking for a support that misses one of its qubits raises ValueError. The reported qubit support is the ascending "
    "set of qubits the object touches.",
    ["inputs", "programs"],
    "all gates x layouts x composites of bounded nesting x supersets of the support",
    "Tests check CNOT and CRX matrices on two layouts, and sums/scalings of single-qubit gates; matrices of sequences are never checked.",
    ["horqrux/primitives/primitive.py", "horqrux/composite/sequence.py", "horqrux/composite/compose.py",
     "horqrux/utils/operator_utils.py"],
    [("controlled matrix", "horqrux/utils/operator_utils.py controlled, prepare_controlled"),
     ("expansion", "horqrux/utils/operator_utils.py expand_operator, permute_basis"),
     ("composition", "OpSequence.tensor, Add.tensor, Scale.tensor")],
    ["gate.tensor(values, full_support)", "OpSequence.tensor", "qubit_support"])

add("C14", "Library objects survive JAX transformations unchanged",
    "Gates (parametric, phase, noisy, controlled), sequences, sums, scalings, observables, circuits, evolutions, noise "
    "instances and density matrices can be flattened and rebuilt by JAX without changing their attributes or meaning. "
    "Functions over them give the same results under jit and vmap as when called directly, whether objects are closed over, "
    "passed as arguments or returned; calling one compiled function with different objects never reuses another object's "
    "result.",
    ["programs", "histories", "configurations"],
    "all object kinds x transformations x call sequences of the same compiled function with different objects",
    "Only closures over gates are jitted in the tests; no test passes or returns a circuit or density matrix through a transformation.",
    ["horqrux/primitives/primitive.py", "horqrux/primitives/parametric.py", "horqrux/composite/compose.py",
     "horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/noise/noise.py",
     "horqrux/utils/operator_utils.py", "horqrux/analog.py"],
    [("tree_flatten / tree_unflatten of every class", "all files listed")],
    ["jax.tree_util.tree_flatten/unflatten", "jax.jit", "jax.vmap"])

add("C15", "Parameter and qubit bookkeeping of circuits is exact",
    "A circuit or sequence reports as parameters exactly the distinct names its gates use; its variational parameters are "
    "those names minus the feature parameters, and their number counts them once however often they are used. Gates with "
    "fixed numeric angles contribute no parameter. A gate reports the number and set of qubits it acts on, and the "
    "hardware-efficient ansatz applies the requested rotations to each qubit in every layer with all-distinct "
    "parameter names and entangles neighbouring qubits.",
    ["programs", "configurations"],
    "all circuits over an alphabet of named/fixed/controlled gates x nestings x feature-parameter sets; ansatz sizes",
    "Tests assert the count for one circuit with all-distinct names.",
    ["horqrux/composite/sequence.py", "horqrux/circuit.py", "horqrux/primitives/primitive.py"],
    [("param_names, n_vparams", "horqrux/composite/sequence.py"), ("vparams, hea", "horqrux/circuit.py"),
     ("n_qubits, qubit_support", "horqrux/primitives/primitive.py")],
    ["param_names", "vparams", "n_vparams", "n_qubits", "qubit_support", "hea"])

add("C16", "Hamiltonian evolution applies exp(-iHt) to the addressed qubits",
    "Applying a Hamiltonian evolution multiplies the state by exp(-iHt) on the target qubits, in the order they are listed, "
    "for every Hermitian H, every real t (0 and negative included), any target order, optional controls, state vectors and "
    "density matrices, alone or among digital gates, eagerly and under jit/vmap. Evolving for t1 and then t2 equals "
    "evolving for t1 + t2, and dagger mode evolves backwards.",
    ["inputs", "programs"],
    "a family of Hamiltonians (diagonal, non-commuting terms, degenerate, zero) x times x target tuples x circuits",
    "Tests evolve with one diagonal Hamiltonian on all qubits and check an overlap; the other test evolves with H = 0.",
    ["horqrux/analog.py", "horqrux/apply.py"],
    [("matrix exponential", "horqrux/analog.py _HamiltonianEvolution._unitary"),
     ("contraction over targets", "horqrux/apply.py apply_operator")],
    ["apply_gates(state, HamiltonianEvolution(...), values)"])

add("C17", "API calls are pure: no call changes an argument or another call's result",
    "Running, sampling, computing expectation values or gradients, converting, or building matrices never modifies the "
    "states, circuits, gates, observables, noise objects or parameter dictionaries passed in. Any call returns the same "
    "result whatever calls were made before it, including calls that failed.",
    ["histories", "fault_sequences"],
    "all sequences of API calls (including failing ones) up to a bounded length on shared objects",
    "Every test makes a few calls on fresh objects; nothing checks arguments afterwards or repeats a call after others.",
    ["horqrux/api.py", "horqrux/apply.py", "horqrux/shots.py", "horqrux/composite/sequence.py",
     "horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/gpsr_utils.py",
     "horqrux/primitives/parametric.py", "horqrux/utils/conversion.py"],
    [("functional style; copies of value dictionaries", "horqrux/differentiation/gpsr"),
     ("cached spectrum", "horqrux/primitives/parametric.py eigenvals_generator, spectral_gap")],
    ["every public entry point"])

add("C18", "State constructors and comparison helpers match their definitions",
    "The zero, product, uniform and random state constructors return normalised states with one axis of size two per "
    "qubit holding exactly the described amplitudes (sparse and dense alike, random ones reproducible), and converting a "
    "vector to a density matrix gives its outer product. The inner product of two states conjugates the first one, and their overlap is "
    "its squared modulus, hence symmetric, between 0 and 1 and blind to global phases, and two states are reported equivalent exactly "
    "when that overlap is 1 up to rounding. Measurement probabilities are the squared moduli, or the diagonal of a density matrix.",
    ["inputs"],
    "all register sizes up to a bound, all bitstrings, and all pairs from families of states with relative phases",
    "Tests use these helpers as oracles but never check them, and only on real overlaps.",
    ["horqrux/utils/operator_utils.py"],
    [("constructors", "product_state, zero_state, uniform_state, random_state, density_mat"),
     ("comparisons", "inner, overlap, equivalent_state, is_normalized"), ("probabilities", "probabilities, num_qubits")],
    ["horqrux.product_state/zero_state/uniform_state/random_state/overlap/equivalent_state", "probabilities"])

add("C19", "Unsupported requests are refused instead of returning a wrong answer",
    "For every combination of differentiation mode, state representation, gate representation, noise, shot count and "
    "parameter-value layout, a call either returns the correct result or raises. The documented restrictions raise: "
    "non-positive shot counts for sampling, negative shot counts for expectation values, density matrices in adjoint "
    "mode, noise with sparse states, unknown differentiation modes, missing parameter values.",
    ["configurations"],
    "the full product of modes x state kinds x gate kinds x noise x shots x value layouts",
    "Two of these refusals are tested; the product of configurations is not.",
    ["horqrux/api.py", "horqrux/apply.py", "horqrux/utils/operator_utils.py", "horqrux/utils/conversion.py"],
    [("guards", "horqrux/api.py expectation, sample"), ("sparse noise guard", "horqrux/apply.py apply_gates(BCOO)"),
     ("type dispatch", "singledispatch defaults")],
    ["expectation", "sample", "run"])

add("C20", "Gate grouping and operator merging never change the result",
    "Applying a gate list with operator merging and/or per-qubit grouping switched on gives the same state as applying it "
    "gate by gate with both switched off, for every gate list. This covers runs on the same qubits, alternating targets, "
    "different target orders or controls on the same qubits, multi-target gates, noisy gates, sparse states and density "
    "matrices; the caller's gate list is left as it was.",
    ["programs"],
    "all gate lists up to a bounded length over alphabets built to collide x the four flag combinations x representations",
    "One six-gate list is tested.",
    ["horqrux/apply.py"],
    [("merging", "horqrux/apply.py merge_operators"), ("grouping", "horqrux/apply.py group_by_index")],
    ["apply_gates(..., group_gates, merge_ops)", "group_by_index"])

add("C21", "Concurrent evaluations on shared objects do not affect each other",
    "When several threads evaluate the same or different circuits, observables, states and parameter dictionaries at the "
    "same time, every call returns what it returns when made alone and the shared objects are unchanged afterwards, for "
    "every interleaving of the threads.",
    ["schedules"],
    "all interleavings of two evaluation threads with a bounded number of preemptions at source-line granularity",
    "No test uses threads.",
    ["horqrux/api.py", "horqrux/apply.py", "horqrux/primitives/parametric.py",
     "horqrux/differentiation/gpsr/analytical.py", "horqrux/differentiation/gpsr/gpsr_utils.py", "horqrux/shots.py"],
    [("no module-level mutable state; gate objects only cache derived values", "horqrux/*")],
    ["run, sample, expectation, gradients from several threads"],
    hook="none in /repo: threads are scheduled with sys.settrace")

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
