"""Writes /verif/properties.jsonl (kept here because one long line per property is hard to edit)."""
import json
import os

K, CH, CO, PA, CI, CD, FC, DA, AV, OP = (
    "PyQCodes/chan/_kraus.py", "PyQCodes/chan/channel.py", "PyQCodes/chan/_coherent.py",
    "PyQCodes/chan/param.py", "PyQCodes/chan/_choi.py", "PyQCodes/codes.py",
    "PyQCodes/find_codes.py", "PyQCodes/device_adaptor.py", "PyQCodes/avgfid/avg_fidelity.py",
    "PyQCodes/_optimize.py")
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("C01", "A channel acts as the sum of A rho A^dagger and its adjoint as the dual map",
     "For every Kraus-represented channel (dense or sparse, any number of particles and any single-particle "
     "dimensions in and out) and any number n of uses, the output on a state is the sum over all n-fold tensor products of "
     "the Kraus operators of A rho A^dagger, so it is again a valid state. The adjoint is the dual map, the sum of A^dagger M A, which is "
     "unital and satisfies Tr(M N(rho)) = Tr(N^dagger(M) rho). Passing a three-dimensional array of matrices gives exactly the "
     "array of individual results, in both directions.",
     ["inputs", "configurations"], "all Kraus sets, dimensions, uses n, states/observables, batches, dense and sparse",
     "Tests use a few named qubit channels with real, mostly diagonal states; conjugation, ordering and dimension mix-ups "
     "only show on complex, rectangular, multi-particle inputs.", [K, CH],
     [("channel application", K + ": DenseKraus.channel, SparseKraus.channel"), ("n-fold tensoring", K + ": update_kraus_operators")],
     [("nth_kraus_ops", "Kraus operators of the channel used n times", K)], ["AnalyticQChan.channel"])

prop("C02", "Results do not depend on earlier uses of the same channel object",
     "Whatever sequence of operations (any operation, any number of uses n, increasing or decreasing, optimisations included) was performed before on a "
     "channel object, each operation returns what it returns on a freshly built object with the same arguments. "
     "The n-use Kraus operators the object reports are the n-fold tensor products, in lexicographic order, for the n last "
     "used, and the reported input and output dimensions match that n.",
     ["histories"], "all sequences of channel, adjoint, exchange, coherent-information, fidelity, dimension and update operations with n in 1..4",
     "Unit tests call each method once or twice on fresh objects; the stale caches only show in histories that move n up "
     "and down.", [K, CH],
     [("incremental update of the cached n-use operators", K + ": update_kraus_operators, _initialize_kraus_ops, _tensor_kraus_operators"),
      ("use-count test", CH + ": channel, entropy_exchange, _update_channel_tensored")],
     [("current_n", "number of uses the caches are for", K), ("nth_kraus_ops / nth_kraus_ops_conj / nth_kraus_exch", "caches", K)],
     ["AnalyticQChan public methods"])

prop("C03", "The entropy exchange is the complementary channel",
     "For every Kraus-represented channel and any number of uses, the entropy exchange of a state is the matrix with "
     "entries W_ij = Tr(A_i rho A_j^dagger) over the n-use Kraus operators, hence a trace-one positive matrix. "
     "When groups of mutually orthogonal Kraus operators are declared, the result is the list of the diagonal blocks of "
     "that matrix, one per group, in order. Its adjoint maps M to the sum of M_ij A_i^dagger A_j.",
     ["inputs", "configurations"], "all Kraus sets, uses n, states, declared orthogonal groupings (two or more groups), dense and sparse",
     "Tests compare a handful of qubit channels, mostly with real symmetric W, where a transposed or misplaced block is "
     "invisible.", [K, CH], [("exchange tensor and block slicing", K + ": _kraus_operators_exchange, entropy_exchange")],
     [("nth_kraus_exch", "A_i^dagger A_j for the n-use operators", K)], ["AnalyticQChan.entropy_exchange"])

prop("C04", "Sparse and dense Kraus representations agree",
     "A channel built with sparse matrices gives the same numbers as the same channel built densely, for every operation "
     "both offer: channel, adjoint, batches, entropy exchange and its adjoint, entropy, coherent information, fidelity, n-use operators, dimensions, "
     "composition and trace-preservation check. This holds whether the sparse channel was given lists, dense arrays "
     "or sparse arrays.",
     ["inputs", "configurations", "histories"], "all channels, operations, uses n and input containers",
     "The sparse path is tested on few cases and seldom against the dense path.", [K, CH],
     [("two parallel implementations", K + ": SparseKraus, DenseKraus")], [], ["AnalyticQChan(sparse=True) vs (sparse=False)"])

prop("C05", "Choi and Kraus representations of a channel agree",
     "A channel given by its Choi matrix (column stacking, input factor first) acts on every state, and in the adjoint direction on every observable, exactly as the "
     "channel with the Kraus operators that generate it, also when the numbers of input and output particles or their dimensions differ. The Kraus operators it reports regenerate "
     "the Choi matrix and are trace preserving, its reported dimensions are those given, and matrices that are not trace "
     "preserving, not completely positive or of the wrong shape are rejected.",
     ["inputs", "configurations"], "all channels, particle numbers, dimensions, states and observables; invalid Choi matrices",
     "Tests use one-particle channels with simple states.", [CI, CH],
     [("partial trace of C (rho^T x I)", CI + ": channel"), ("eigendecomposition", CI + ": kraus_operators")], [],
     ["AnalyticQChan built from a Choi matrix", "ChoiQutip"])

prop("C06", "Serial and parallel composition are composition and tensor product",
     "A + B is the channel that applies B first and then A, and A * B is the tensor product of A and B with A on the first factor, "
     "for all channels with matching dimensions, dense, sparse or mixed, including multi-particle ones; the result reports the right dimensions "
     "and can be used, composed and tensored further like any other channel. The static concatenation functions return the products A_i B_j, resp. the tensor products, of the "
     "given lists or arrays in lexicographic order. Incompatible dimensions raise an error.",
     ["inputs", "programs", "configurations"], "all composition expressions over channels of various dimensions, dense/sparse/mixed",
     "Tests compose a few qubit channels once; order, dimension and particle bookkeeping errors need asymmetric channels "
     "and nested expressions.", [K, CH],
     [("concatenation", K + ": serial_concatenate, parallel_concatenate, __add__, __mul__"), ("bookkeeping", CH + ": __add__, __mul__")],
     [("numb_qubits, dim_in, dim_out", "shape bookkeeping of the composed channel", K)], ["AnalyticQChan +/*", "DenseKraus/SparseKraus +/*, static functions"])

prop("C07", "Entropy and coherent information have their defining values",
     "The entropy of a state, or of a list of blocks, is -sum p log2 p over all eigenvalues. The coherent information is the entropy of the output minus the entropy of the entropy exchange, "
     "the same number for Kraus (dense, sparse, or with orthogonal groups declared) and Choi input, divided by n when regularised; hence it never "
     "exceeds the input entropy, is invariant under unitary remixing of the Kraus operators, is additive on product inputs and does not increase under post-processing.",
     ["inputs", "configurations"], "all channels, states, uses n, representations",
     "Tests check closed forms on dephrasure/erasure at diagonal states.", [CH, CI, K],
     [("entropy of eigenvalues above a cut-off", CH + ": entropy"), ("coherent_information", CH + ": coherent_information"),
      ("complementary channel of a Choi matrix", CI + ": complementary_channel")], [], ["AnalyticQChan.entropy, coherent_information"])

prop("C08", "Channel fidelity is the Uhlmann fidelity of input and output",
     "The fidelity between a state and its image under n uses of a channel equals Tr sqrt(sqrt(rho) N(rho) sqrt(rho)) for every state, pure "
     "and rank-deficient ones included: it lies in [0,1], equals sqrt(<psi|N(psi)|psi>) on pure states, is 1 on fixed states "
     "and for the identity channel, and is 0 for orthogonal input and output. Dense, sparse and Choi channels give the same value.",
     ["inputs", "configurations"], "all channels, states of every rank, uses n, representations",
     "The fidelity tests cover optimised values of few channels; rank-deficient states are where matrix square roots fail.",
     [CH], [("matrix square root", CH + ": fidelity_two_states")], [], ["AnalyticQChan.fidelity_two_states"])

prop("C09", "Average entanglement fidelity of an ensemble",
     "The average entanglement fidelity of an ensemble {p_i, rho_i} is sum_i p_i sum_k |Tr(A_k rho_i)|^2, for a channel given by Kraus "
     "operators or by a Choi matrix; it is real, linear in the probabilities, between 0 and 1, equal to 1 exactly for the "
     "identity action on the ensemble, and independent of the Kraus representation. A Choi channel whose input and output dimensions differ is rejected.",
     ["inputs", "configurations"], "all channels, ensembles and representations",
     "The one test of the Kraus version asserts nothing about the value.", [K, CI, CH],
     [("average_entanglement_fidelity", K + ", " + CI)], [], ["AnalyticQChan.average_entanglement_fidelity"])

prop("C10", "Density-matrix parameterisations produce and invert states",
     "Every vector in the declared bounds (other than ones giving the zero matrix) maps to a Hermitian, positive, trace-one matrix of at most the requested rank, through both "
     "the over-parameterisation and the Cholesky one, and converting a state of that rank to a vector "
     "and back returns the same state. The number of variables, the length of the bounds, random vectors and converted vectors agree "
     "for every size and rank; the standard-basis parameterisation is a bijection between real vectors and Hermitian matrices.",
     ["inputs"], "all sizes, ranks (deficient ones too), vectors and states, every option of the random-vector samplers",
     "Tests use two-level and four-level examples of full rank.", [PA],
     [("factorisations A A^dagger and L L^dagger", PA + ": OverParam, CholeskyParam"), ("row by row filling", PA + ": StandardBasis")], [],
     ["rho_from_vec, vec_from_rho, numb_variables, bounds, random_vectors"])

prop("C11", "An optimisation reports an optimum that is consistent with itself",
     "The optimal value reported for coherent information or minimum fidelity is the value of that objective at the reported optimal state (divided by n when regularised), and the reported "
     "state is a valid density matrix of the channel's input size and at most the requested rank. This holds for every optimiser, parameterisation (by name, by class, or supplied by the user), "
     "channel representation, number of uses and source of initial guesses. Objective, method and use of the Lipschitz sampler are "
     "reported truthfully, and invalid argument combinations are refused with an error.",
     ["configurations", "inputs"], "all optimiser configurations x channels",
     "Tests check few optimal values, never the reported state against the value.", [CO, CH, OP],
     [("optimize_procedure", CO), ("optimize_coherent / optimize_fidelity", CH)], [], ["AnalyticQChan.optimize_coherent, optimize_fidelity"])

prop("C12", "Optimisation returns the best of all starting points",
     "With several initial guesses, the reported optimum is at least as good as the objective at each given guess within the bounds and "
     "as what the same optimisation reports from each guess alone, whatever their order and whether or not a process "
     "pool is used. Reported optima respect the proven limits: the coherent information never exceeds the maximal input entropy (n log2 of the input dimension), the fidelity lies in "
     "[0,1], and for channels with known capacity or minimum fidelity (erasure, dephasing, identity, unitary, depolarising, amplitude damping) a well-seeded optimisation finds that value.",
     ["configurations", "inputs"], "all lists of guesses, orders, pool sizes, objectives; channels with closed-form optima",
     "Tests optimise with a sampler whose guesses all converge to the same optimum, so dropping or mis-selecting results "
     "is invisible.", [CO], [("selection of the best run", CO + ": _optimize_samples_slsqp, _use_multi_processes")], [],
     ["AnalyticQChan.optimize_*"])

prop("C13", "The Lipschitz sampler only keeps potential maximisers",
     "The initial guesses generated by the Lipschitz sampler are exactly as many as requested, all drawn from the parameterisation's random "
     "vectors, and each one after the first satisfies, when accepted, that no previous guess's objective plus the distance (entrywise absolute sum) "
     "between the two states falls below the best objective so far; a draw is passed over only when it violates that rule. When too few such guesses are found within the allowed tries the optimisation stops with an error instead of continuing with "
     "fewer; user-given samples are used together with the generated ones.",
     ["inputs", "histories"], "all random histories of draws, objectives, sample counts",
     "The acceptance rule is a property of the whole history of draws; tests only see the final optimum.", [OP, CO],
     [("acceptance rule", OP + ": initial_guesses_lipschitz"), ("success assertion", CO + ": optimize_procedure")],
     [("samples_vec, func_evals, f_max", "history of accepted guesses", OP)], ["a user-supplied parameterisation records every draw and evaluation"])

prop("C14", "Inconsistent channel and code descriptions are rejected",
     "Building a channel from operators of the wrong type, of shapes that do not match the stated particle numbers and dimensions, or that are not trace preserving raises an "
     "error, for Kraus (dense or sparse) and Choi input; building a stabilizer code from anticommuting generators, a number of generators other than n-k, or vectors or strings of the wrong "
     "length raises an error. Valid descriptions, including rectangular, multi-particle and redundant ones, are always accepted.",
     ["inputs"], "all valid descriptions and their single-fault mutations",
     "Tests try a couple of invalid inputs; acceptance of all valid ones and rejection of subtle ones (slightly non trace-preserving, one anticommuting pair at the end) is not tested.",
     [K, CH, CI, CD], [("constructor assertions", K + ": Kraus.__init__; " + CH + ": __init__; " + CI + ": __init__; " + CD + ": __init__")], [],
     ["constructors"])

prop("C15", "The standard normal form generates the same code",
     "For every set of independent commuting generators given as Pauli strings or binary vectors, the code is constructed, reports n, k, the given generators (binary and "
     "string form alike), and a normal form of n-k independent, mutually commuting rows of the shape [I A1 A2 | B C1 C2; 0 0 0 | D I E] with the "
     "identity of the size of the reported rank. Up to one fixed relabelling of the qubits the normal form generates the same stabilizer group as the given "
     "generators, and iterating over the code yields its rows.",
     ["inputs"], "all stabilizer codes with n up to 8 and 0 <= k < n",
     "Tests check named codes; elimination bugs depend on pivots, swaps and GF(2) rank of random codes.", [CD],
     [("Gaussian elimination", CD + ": _gaussian_elimination_first_block, _gaussian_elimination_second_block")],
     [("normal_form, rank", "normal form of the generators", CD)], ["StabilizerCode.normal_form, rank, __iter__, stab_bin_rep, pauli_stab"])

prop("C16", "Logical operators form a Pauli algebra commuting with the code",
     "For every stabilizer code, k logical X and k logical Z operators are derived that commute with every normal-form generator, "
     "are independent of the stabilizer group, and satisfy the Pauli relations (X_i and Z_i anticommute, all other "
     "pairs commute). User-supplied logical operators are reported and used as given.",
     ["inputs"], "all stabilizer codes with n up to 8, 1 <= k < n",
     "Tests check three named codes.", [CD], [("block formula", CD + ": logical_operators, _matrix_blocks_standard_form")],
     [("logical_x, logical_z", "logical operators", CD)], ["StabilizerCode.logical_x, logical_z, logical_operators"])

prop("C17", "The encoder is an isometry onto the code space",
     "For every code whose generators are Hermitian in the package's convention (Y = XZ, an even number of Y's), the encoder "
     "matrix has shape 2^n by 2^k and orthonormal columns whose span is exactly the joint +1 eigenspace of all the generators given. The sparse "
     "and the dense encoder represent the same isometry.",
     ["inputs"], "all even-Y stabilizer codes with n up to 7",
     "Tests check named codes.", [CD], [("successive diagonalisation", CD + ": encode_krauss_operators")], [], ["StabilizerCode.encode_krauss_operators"])

prop("C18", "The encoding circuit prepares the logical basis states",
     "For every code with an even number of Y's per generator and every bit string x of length k, running the encoding circuit on |0...0> produces "
     "a +1 eigenstate of every normal-form generator that is an eigenstate of logical Z_i with eigenvalue (-1)^{x_i}. Moreover it equals the product of the logical X_i with x_i = 1 applied to the encoding of 0...0, so that distinct strings "
     "give orthogonal states. Logical operators supplied by the user that differ from the derived ones by Z-type generators of the normal form serve equally. Wrong-length or non-binary strings and wrong-size registers are refused.",
     ["inputs"], "all even-Y codes with n up to 7 and all 2^k bit strings",
     "The tests of this use the wrong bit order and fail; no random code is tried.", [CD],
     [("encoding circuit", CD + ": encoding_circuit")], [], ["StabilizerCode.encoding_circuit on the ProjectQ simulator"])

prop("C19", "Decoding undoes encoding on every superposition",
     "For every such code and every superposition of encoded basis states, also entangled with a reference, the decoding circuit leaves the n code qubits in the encoded |0...0> (a measured bit string of it, when they are discarded) "
     "and moves the superposition, amplitudes and phases unchanged, to the k ancilla qubits. This holds for all combinations of adding the ancillas and discarding the code "
     "qubits, with derived or equivalent user-supplied logical operators, and the returned list contains exactly the promised qubits, each once, in order.",
     ["inputs", "configurations"], "all even-Y codes with n+2k <= 10 or so, states of the code space and flag combinations",
     "Tests decode basis states of named codes, where relative phases are invisible.", [CD],
     [("decoding circuit", CD + ": decoding_circuit")], [], ["StabilizerCode.decoding_circuit on the ProjectQ simulator"])

prop("C20", "Syndrome measurement is a faithful, repeatable projective measurement",
     "Measuring a Hermitian stabilizer element (given as string or binary vector) returns 0 or 1 according to its +1 or -1 eigenspace: on an encoded state corrupted by a Pauli error it is "
     "with certainty the commutation of error and element and leaves the state unchanged, and on any state the outcome statistics and the post-measurement state are those of the "
     "projective measurement, so that repeating it gives the same outcome. This holds with a fresh ancilla (released afterwards) and with a supplied one, which can be reused for any number of measurements; other qubits of the engine take no part. Registers of other sizes and unknown characters are refused.",
     ["inputs", "histories"], "all even-Y elements, states, errors, sequences of measurements in both register modes",
     "Tests measure a few code states once.", [CD], [("ancilla-controlled Pauli circuit", CD + ": single_syndrome_measurement")],
     [("measurement ancilla", "last qubit of the register or freshly allocated", CD)], ["StabilizerCode.single_syndrome_measurement"])

prop("C21", "Logical and stabilizer circuits apply exactly the stated operators",
     "Applying a logical-operator circuit (X_i, Z_i, or Y_i, the product of both) acts on every state as the tensor product of the letters of that logical operator with Y = XZ, so on encoded states "
     "it realises the logical Pauli algebra and preserves the code space. Applying a Pauli string or binary vector as a circuit acts as exactly the tensor product of Pauli matrices it names, the standard Y included, qubit by "
     "qubit. Malformed or out-of-range logical names are refused.",
     ["inputs"], "all codes, operators, strings and states",
     "Tests apply few strings to basis states, where phases and most misplacements do not show.", [CD],
     [("circuits", CD + ": logical_circuit, apply_stabilizer_circuit")], [], ["StabilizerCode.logical_circuit, apply_stabilizer_circuit"])

prop("C22", "Pauli strings, binary vectors and matrices are consistent",
     "Converting Pauli strings to binary vectors and back is the identity, the matrix of a binary vector is the tensor product of its letters in order (with Y = XZ) in both dense and sparse form, and the symplectic "
     "product of two vectors is 0 exactly when their matrices commute and 1 when they anticommute. Unknown letters, non-binary entries and arrays of the wrong rank are refused; "
     "the Pauli generator set consists of every single-qubit X and Z exactly once.",
     ["inputs"], "all Pauli strings with n up to 6",
     "Tests convert few fixed strings.", [CD],
     [("conversions", CD + ": pauli_str_to_binary_representation, binary_rep_to_pauli_str, binary_rep_to_pauli_mat, index_to_qubit_pauli, inner_prod, generator_set_pauli_elements")],
     [], ["StabilizerCode static methods"])

prop("C23", "Concatenating codes gives the concatenated code",
     "Concatenating an [n,k] code with an [m,l] code, l dividing n, gives an [nm/l, k] code generated by the inner generators on every block of m qubits together with "
     "the outer generators rewritten through the inner logical operators of the block and position each outer qubit belongs to. The result is a valid code (its logical operators included) whenever the inner logical operators "
     "commute with the inner generators; sizes where l does not divide n are refused with a ValueError.",
     ["inputs"], "all pairs of codes (Y's, l >= 1, several blocks) with nm/l up to about 14",
     "Tests concatenate named CSS codes only, with l = 1 and generators without Y.", [CD], [("concatenate_codes", CD)], [], ["StabilizerCode.concatenate_codes"])

prop("C24", "Error-correcting Kraus operators and the effective channel",
     "For each Pauli-type error of any amplitude the error-correcting Kraus list holds, in order, the error multiplied from the left by the first given stabilizer generator that anticommutes with it, or the "
     "error itself when none does, with dense and sparse matrices alike. The effective channel result reports an optimal value that is the coherent information of "
     "the channel (those operators, for the errors used on all n qubits, after the encoder) at the reported state, not below its value at any initial guess given, and its options "
     "(parameterisation, guesses, sampler, pool, iterations) are honoured; invalid objectives or shapes are refused.",
     ["inputs", "configurations"], "all even-Y codes, Pauli channels, option sets",
     "Tests check few channels and never the operators for random codes.", [CD, FC],
     [("kraus_operators_correcting_errors", CD), ("effective_channel_with_stabilizers", FC)], [],
     ["StabilizerCode.kraus_operators_correcting_errors", "effective_channel_with_stabilizers"])

prop("C25", "Two-design circuits invert exactly; fidelity estimate is the survival rate",
     "For any number of qubits and any accuracy, the inverse of the random two-design circuit, given the recorded phases, restores every state, the "
     "number of random layers is 2 ceil(log2(1/epsilon)/qubits) + 1, and the second moments of the circuits are those of a two-design up to epsilon. The average-fidelity estimate runs the circuit the requested number of times, each "
     "time from the all-zero state whatever happened before, and returns the fraction of runs in which all qubits are measured 0: 1 for the "
     "identity or for an error code that undoes itself, and on average the average gate fidelity, up to epsilon, for any noise. The error-code estimate applies encoder, channel and decoder in that order.",
     ["inputs", "schedules", "histories"], "all qubit numbers up to 4, accuracies, random draws, noise channels, register resets",
     "Tests sample the identity and one circuit on one or two qubits.", [DA, FC],
     [("random circuit and its inverse", DA + ": approximate_unitary_two_design, inverse_of_unitary_two_design"),
      ("estimate loop", DA + ": estimate_average_fidelity, set_register_to_zero"), ("error code composition", FC + ": QDeviceChannel")],
     [("random phases", "record that the inverse replays", DA)], ["gate stream of the ProjectQ engine", "channel callback"])

prop("C26", "Normalizer and undetectable errors",
     "For every stabilizer code, the normalizer listing contains exactly once each Pauli vector that commutes with all generators and is not in the stabilizer group, so 4^n/2^{n-k} - 2^{n-k} elements, and nothing else. "
     "The undetectable errors are the same elements as Pauli strings: each has trivial syndrome and acts non-trivially on the code space.",
     ["inputs"], "all codes with n up to 5", "No test exercises it.", [CD],
     [("normalizer, undetectable_errors", CD)], [], ["StabilizerCode.normalizer, undetectable_errors"])

prop("C27", "The optimised decoder is a recovery channel that attains the reported fidelity",
     "The recovery found for a stabilizer encoder and a single-qubit channel used on all n qubits is a completely positive, trace-preserving map from n qubits to one (to solver accuracy), and "
     "the reported value is the entanglement fidelity, for the maximally mixed state, of encoding, channel and that recovery. The value is at least that of standard syndrome decoding and equals "
     "the sum of the most likely coset probabilities for Pauli channels; sparse and dense modes agree. Optimising an encoder for a fixed recovery is likewise valid and optimal, and the solver runs with the documented default options overridden by those given.",
     ["inputs", "configurations"], "[2,1], [3,1] and [4,1] codes, random (complex) channels",
     "The one test uses the identity channel, is marked slow and deselected.", [AV, CI],
     [("semidefinite program", AV + ": _optimize_average_entang_fid"), ("partial trace constraint", CI + ": constraint_partial_trace")], [],
     ["optimize_decoder_stabilizers"])

prop("C28", "Encoder/decoder optimisation maximises the estimated fidelity",
     "Optimising a parameterised encoder and decoder passes the first M parameters to the encoder and the remaining N to the decoder, all within "
     "their bounds, around the channel in every trial, and returns parameter vectors of those lengths together with a value that is the "
     "estimated average fidelity of a trial at those parameters, no trial having a higher one. Bounds of the wrong length and unknown optimisers are refused.",
     ["inputs", "histories"], "all parameter splits, bounds and deterministic circuits",
     "No stable test exercises it.", [FC], [("optimize_encoder_decoder_average_fidelity", FC)], [], ["encoder, decoder and channel callbacks"])

prop("C29", "Operations neither modify their inputs nor keep sharing them",
     "No operation on a channel, state parameterisation or code changes an array or list of numbers it was given, and changing the operators or generators after "
     "they were used to construct an object does not change what that object returns later. Repeating an operation with the same arguments gives the same result.",
     ["histories", "inputs"], "all interleavings of operations with mutations of caller-owned data",
     "Tests never mutate or re-check their inputs.", [K, CH, CI, CD, PA],
     [("copies at construction", K + ", " + CI), ("pure functions", CH + ", " + PA)], [], ["all public operations"])

prop("C30", "Results do not depend on how the numbers given are stored",
     "Channels, Choi matrices, states, parameter vectors, guesses, generators and circuit parameters may be given in any numeric type that holds their values (complex, real, integer, single precision), in any memory "
     "layout (C or Fortran order, strided, reversed or transposed views, read-only arrays) and as lists, tuples or arrays where several are accepted: every operation gives the same result as for the same "
     "numbers in contiguous complex (or float) arrays, up to rounding of the type given. In particular, outputs are never truncated to the type of the input.",
     ["inputs", "configurations"], "all storage types and layouts of all inputs, dense and sparse",
     "Tests give contiguous arrays of one type each.", [K, CH, CI, CD, PA],
     [("conversions at construction", K + ", " + CH + ", " + CI), ("reshapes and in-place updates", PA + ", " + CD)], [], ["all public operations"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
