UF = ["src/UFDecoder.cpp", "src/UFHeuristic.cpp"]
prop("U01", "Union-find estimates explain the syndrome from inside the grown clusters",
     "For every code, every growth variant and every syndrome that some error has, the union-find decoder returns an error estimate with exactly "
     "that syndrome, and the estimate lies inside clusters that a run of the algorithm can grow from that syndrome. A syndrome without "
     "flips is answered with no correction, and the estimate as vector and as index set agree.",
     ["inputs", "configurations"], "all parity-check matrices, all syndromes of errors, all growth variants and their random choices",
     "The tests decode a handful of syndromes of two or three codes and compare with one expected answer.",
     UF + ["include/TreeNode.hpp", "include/Codes.hpp"],
     [("growth until every cluster is valid", "src/UFDecoder.cpp decode, src/UFHeuristic.cpp decode"), ("estimate from the interior of clusters", "getEstimateFromComponents, erasureDecoder")],
     "TLC follows all configurations the growth algorithm may be in and judges the estimate of the real decoder; all syndromes of codes of up to 18 bits; UFHeuristic's syndrome only where its peeling guarantees it")
prop("U02", "Union-find decoders have no memory and decode both sides of a code",
     "Whatever codes, growth variants, syndromes and resets a decoder object has seen, its next answer is the answer of a new decoder "
     "with the same code and growth variant. A syndrome for both kinds of errors is decoded half by half, X checks with X checks and Z checks with Z checks.",
     ["histories", "inputs"], "all sequences of set_code, set_growth, decode and reset calls",
     "The tests make a new decoder for almost every decode call.",
     UF + ["include/Decoder.hpp", "src/python/bindings.cpp"], [("state reset between decodings", "src/UFDecoder.cpp reset, src/UFHeuristic.cpp reset"), ("setCode", "include/Decoder.hpp")],
     "TLC replays recorded histories of one decoder object in a machine whose state is the code and the variant only")
prop("U03", "Linear algebra over GF(2) behind the decoders is exact",
     "Solutions of linear systems, row-space membership, products, transposes and residuals are those of linear algebra over GF(2) for matrices of any "
     "shape and rank, stabilizer membership is membership in the row space of the checks, and the cluster trees report the size, members and "
     "checks of what has been united, however unions are ordered.",
     ["inputs", "histories"], "all matrices and vectors, all sequences of unions",
     "The tests solve a few small systems.",
     ["src/GF2.cpp", "src/Utils.cpp", "include/Utils.hpp", "include/Codes.hpp", "include/TreeNode.hpp"],
     [("PLU decomposition", "src/Utils.cpp solveSystem"), ("union by size", "include/TreeNode.hpp")],
     "TLC recomputes what the compiled library returns for matrices up to 12 x 14 and union histories of up to 16 nodes")
prop("U04", "Word error rate simulations report what the decoder did",
     "A simulation of a decoder does the asked number of runs per error rate, every reported run has the syndrome of its error and the estimate "
     "the decoder gives for it, counts as success exactly if the residual is a stabilizer, and the reported word error rate is the "
     "fraction of failures per logical qubit.",
     ["configurations", "histories"], "all codes, decoders, run counts and rates", "No test reads the reported statistics.",
     ["src/DecodingSimulator.cpp", "include/DecodingSimulator.hpp", "include/DecodingRunInformation.hpp"],
     [("simulation loop", "src/DecodingSimulator.cpp simulateWER")],
     "TLC judges every run written to the output of the real simulator against the algebra of the code; the rates only by coarse bounds")
prop("C01", "Colour codes are the triangular colour codes of the asked distance",
     "For every odd distance, the hexagonal and square-octagon colour codes have the qubit number of the family, three-colourable faces of the "
     "lattice's sizes that meet in edges, one logical qubit with its logical operators, and exactly the distance asked for; "
     "syndromes are the parities on the faces, and a residual error counts as logical exactly if no faces produce it.",
     ["inputs", "configurations"], "all odd distances, both lattices", "The tests check distances 3 and 5 at most.",
     ["src/mqt/qecc/codes/color_code.py", "src/mqt/qecc/codes/hexagonal_color_code.py", "src/mqt/qecc/codes/square_octagon_color_code.py", "src/mqt/qecc/cc_decoder/__init__.py"],
     [("lattice construction", "add_qubits, construct_layout, compute_logical"), ("code_from_string", "src/mqt/qecc/cc_decoder/__init__.py")],
     "TLC searches a colouring and visits all errors of half the distance for the real matrices (distances to 11, thorough 17)")
prop("C02", "The MaxSAT colour code decoder finds lightest corrections",
     "For every pattern of lights that some switches produce, the decoder returns a lightest set of switches that turns all lights off, pattern after "
     "pattern with one decoder; patterns that no switches produce are refused. Errors on fewer qubits than half the distance are corrected.",
     ["inputs", "histories"], "all light patterns, all orders of patterns on one decoder", "The tests solve one pattern with a new decoder.",
     ["src/mqt/qecc/cc_decoder/decoder.py"], [("LightsOut.preconstruct_z3_instance and solve", "src/mqt/qecc/cc_decoder/decoder.py")],
     "TLC builds the patterns of w switches layer by layer and judges each answer of real histories; complete for small instances")
prop("C03", "Colour code simulations report the rates of a lightest-solution decoder",
     "A simulated logical error rate is the fraction of failures of a lightest-solution decoder over the asked number of runs for the lattice, distance and "
     "error rate named in the result file, with the error bar of that rate; a run fails exactly if its error and the correction differ by a logical operator. Without errors nothing fails; unknown decoders are refused.",
     ["configurations", "histories"], "all lattices, distances, rates, numbers of runs and solvers", "Tests only check that a result file exists.",
     ["src/mqt/qecc/cc_decoder/decoder.py", "src/mqt/qecc/cc_decoder/cli.py"], [("run, simulate_error_rate", "src/mqt/qecc/cc_decoder/decoder.py")],
     "TLC judges result files of real runs, rates 0 and 1 exactly, others by the observed errors and estimates and within seven standard deviations of the exact rate computed in the specification")
prop("S01", "Stabilizer codes: validity, syndromes and equivalence",
     "A stabilizer code is accepted exactly if its generators are well-formed commuting Paulis and its logical operators are valid, its numbers of "
     "qubits and logical qubits are those of the group, syndromes are the anticommutation with every generator, and two Paulis are equivalent exactly "
     "if they differ by a stabilizer.",
     ["inputs"], "all lists of generators, dependent ones and signs included, all Paulis", "The tests use a few fixed codes.",
     ["src/mqt/qecc/codes/stabilizer_code.py"], [("StabilizerCode", "src/mqt/qecc/codes/stabilizer_code.py")],
     "TLC builds the signed stabilizer group generator by generator and judges the real code objects (up to 7 qubits)")
prop("S02", "Equality and hashes of stabilizer codes follow the stabilizer group",
     "Two stabilizer codes are equal exactly if their signed stabilizer groups are equal, whatever generators present them, equality is symmetric, and equal codes have equal hashes.",
     ["inputs"], "all pairs of generator lists", "The tests compare two pairs.",
     ["src/mqt/qecc/codes/stabilizer_code.py", "src/mqt/qecc/codes/css_code.py"], [("__eq__, __hash__", "src/mqt/qecc/codes/stabilizer_code.py")],
     "TLC compares the signed groups of generator lists (up to 7 qubits) with the real answers")
prop("S03", "CSS codes: logical operators, syndromes, stabilizers and cosets",
     "A CSS code is accepted exactly if its check matrices commute and its distances are consistent. Its logical operators commute with all checks and are "
     "independent modulo the stabilizers, one pair per logical qubit; syndromes, stabilizer and coset tests and self-duality are those of the row spaces.",
     ["inputs"], "all pairs of check matrices, dependent, zero and missing rows included, all vectors", "The tests use a few named codes.",
     ["src/mqt/qecc/codes/css_code.py"], [("_compute_logical, check_if_x_stabilizer, stabilizer_eq_x_error, is_self_dual", "src/mqt/qecc/codes/css_code.py")],
     "TLC recomputes row spaces, kernels and cosets of random and named codes (up to 30 qubits) beside the real answers")
prop("S04", "Library codes have the parameters and distances they state",
     "Every code the library constructs (named, rotated surface, colour and bivariate bicycle codes) is a valid code with the stated number of qubits, "
     "logical qubits and distance, and its logical operators are logical operators.",
     ["configurations"], "all named codes and code families", "The tests check parameters of some named codes, and no distances of large codes.",
     ["src/mqt/qecc/codes/css_code.py", "src/mqt/qecc/codes/bb_codes.py"],
     [("from_code_name", "src/mqt/qecc/codes/css_code.py"), ("construct_bb_code", "src/mqt/qecc/codes/bb_codes.py")],
     "TLC enumerates logical operators of codes up to 25 qubits and all patterns of up to 4 (5) errors of longer ones; upper bounds by witnesses, so the exact distance of the long bicycle codes is trusted between these bounds")
SP = "src/mqt/qecc/ft_stateprep/state_prep.py"
FL = "src/mqt/qecc/ft_stateprep"
prop("P01", "Synthesized preparation circuits prepare the logical state",
     "For every CSS code, the heuristic and the optimal synthesis give a circuit that prepares the asked logical state from the all-zero state, and the verification "
     "measurements added to it have certain results without faults and leave the state as it is.",
     ["inputs", "configurations"], "all CSS codes, both states, all synthesis and verification options", "The tests prepare states of a few named codes.",
     [SP], [("synthesis", "state_prep.py heuristic_prep_circuit, depth_optimal_prep_circuit, gate_optimal_prep_circuit"), ("verification", "state_prep.py gate_optimal_verification_circuit")],
     "TLC pulls the stabilizers of the state back through the circuits the real code returns; random codes of up to 8 qubits and named codes")
prop("P02", "Fault sets contain exactly the errors few faults of the circuit end in",
     "For every preparation circuit and every number of faults, the computed fault set contains, up to stabilizers of the state, every error of the asked kind that "
     "this many CNOT faults propagate to and nothing else, without trivial and without equivalent duplicates where it is asked to reduce them.",
     ["inputs", "fault_sequences"], "all preparation circuits, kinds of errors, numbers of faults", "The tests compare the size of the sets of two circuits.",
     [SP], [("compute_fault_set, combine_faults", "state_prep.py StatePrepCircuit")],
     "TLC runs the circuit backwards, combines single faults and compares the sets of cosets with the real fault sets")
prop("P03", "Verified preparation circuits are fault tolerant",
     "In a verified preparation circuit, any t faults or fewer that no verification or flag measurement reports leave an error that is, up to stabilizers of the state, no heavier than the "
     "number of faults, for t up to half the distance.",
     ["fault_sequences", "inputs"], "all combinations of up to t faults, all CSS codes and options", "The tests count verification qubits and simulate few shots.",
     [SP], [("verification and hook error treatment", "state_prep.py verify, hook_errors, _verification_circuit"), ("flags", "state_prep.py measure_flagged")],
     "TLC combines all faults of the whole circuit (verification and flags included) for real circuits, t = 1, and t = 2 for the 19- and 25-qubit codes in reach; naive verification (flag option off) is not claimed")
prop("P04", "Flagged stabilizer measurements flag every dangerous hook error",
     "A flagged measurement of a stabilizer of any weight measures exactly that stabilizer, its flags are silent without faults, and up to t faults that raise no flag "
     "leave an error of at most as many qubits as there were faults, up to the stabilizer.",
     ["inputs", "fault_sequences"], "all weights, t = 1 and 2, X and Z stabilizers", "The tests check the number of flags for few weights.",
     [SP], [("measure_one_flagged, measure_two_flagged", "state_prep.py")],
     "TLC combines all faults of the real gadgets for weights 1 to 12 (thorough more)")
prop("P05", "Optimal preparation and verification cannot be improved",
     "Gate- and depth-optimal preparation circuits use the fewest CNOTs or layers any circuit needs, and the verification found as optimal detects every dangerous error "
     "with as few measurements and, among those, as few CNOTs as possible. Every verification found, heuristic or optimal, detects all dangerous errors.",
     ["inputs"], "all check matrices and fault sets for which the search ends in time", "The tests compare the results for a few named codes with recorded numbers.",
     [SP], [("gate_optimal_prep_circuit, gate_optimal_verification_stabilizers", "state_prep.py"), ("heuristic_verification_stabilizers", "state_prep.py")],
     "TLC computes the true optima by breadth-first search over subspaces and over sets of stabilizers for small and named codes")
prop("P06", "The lookup table decoder returns a lightest correction",
     "For every syndrome, the lookup table decoder of a CSS code returns an error with this syndrome, and no error with this syndrome is lighter.",
     ["inputs"], "all CSS codes of moderate length, all syndromes of both kinds", "The tests decode few syndromes of one code.",
     [FL + "/simulation.py"], [("LutDecoder", FL + "/simulation.py")],
     "TLC computes the lightest weights of all syndromes layer by layer and judges the complete real tables")
prop("P07", "Noisy preparation simulations measure the logical error rate they report",
     "The simulated circuit is the given circuit with the noise of the stated strength at each location, shots with raised flags or verification are discarded, "
     "and every single fault location leads to the acceptance and the logical failure the tableau semantics gives. Reported rates are those of the shots.",
     ["fault_sequences", "inputs"], "all circuits, all fault locations, both states", "The tests compare rates for few circuits statistically.",
     [FL + "/simulation.py"], [("NoisyNDFTStatePrepSimulator", FL + "/simulation.py")],
     "TLC replays the stim circuit instruction by instruction beside the given circuit and judges the real evaluation of forced faults (some hundred thousand)")
prop("C04", "Figures and thresholds of colour code decoders are those of the stored results",
     "The figures made from a folder of result files (MaxSAT, tensor network, comparison of solvers) show exactly the stored results: every distance's rates with their error bars and times "
     "over the error rate, and times and rates over the distance, each logical operator on its own, whatever the order of the files and whichever combinations are missing. "
     "Thresholds fitted to results that follow the fitted law are the law's; curves can be told apart; other modes are rejected.",
     ["inputs", "configurations"], "all sets and orders of result files", "The functions have no tests.",
     ["src/mqt/qecc/cc_decoder/plots.py"], [("generate_plots, generate_plots_tn, generate_plots_comp, calculate_threshold", "src/mqt/qecc/cc_decoder/plots.py")],
     "TLC reads the result files one after another into sorted series and compares them with what the real functions draw; thresholds within a thousandth")
EV = FL + "/eval"
prop("P08", "Stored preparation circuits are as named, and the script simulates them",
     "Every stored evaluation circuit can be read, prepares the named logical state of the code of its folder without disturbing it, has certain verification measurements, "
     "and no verification if it is named non_ft; circuits named ft are fault tolerant. The estimation script simulates, for every command line, the code, distance, state, circuit, "
     "verification, noise and number of errors its options name, once, and prints the four results; the sweep stores one row per error rate.",
     ["inputs", "configurations", "fault_sequences"], "all stored circuits with all faults up to the correctable number, all combinations and orders of options",
     "No test reads the stored circuits or runs the script.",
     [EV + "/estimate_logical_error_rate.py", EV + "/run_eval_on_code.sh", EV + "/circuits"], [("main", EV + "/estimate_logical_error_rate.py"), ("stored circuits", EV + "/circuits")],
     "TLC pulls the stabilizers and all faults back through every stored circuit, and reads the command lines option by option; the real script runs with a recording simulation. "
     "Fault tolerance: X errors for zeros, Z errors for pluses; naive verification only for the stored circuit")
AS = "src/mqt/qecc/analog_information_decoding"
SI = AS + "/simulators"
prop("A01", "Single-shot simulations decode, accumulate and judge as documented",
     "In every single-shot simulation the noisy syndromes handed to the decoders are those of the accumulated error and the syndrome error, decoded single-stage, two-stage or analog as asked; "
     "each round's correction is applied to the accumulated error, and a run fails exactly if the final residual is no stabilizer. Reported rates, files (also those an interrupted simulation leaves, up to its last save) and reproducibility follow from that.",
     ["inputs", "histories", "configurations", "crash_points"], "all codes, options and decoder answers", "The tests call single helpers; no test runs a simulation of several rounds.",
     [SI + "/simulation.py"], [("SingleShotSimulator._single_sample, run, save_results", SI + "/simulation.py")],
     "TLC replays the recorded traffic between the real simulator and recording decoders over many rounds, options and adversarial decoder answers")
prop("A02", "Overlapping window decoding commits, moves on and corrects consistently",
     "The space-time check matrices, the windows of syndrome differences, the channels and the committed corrections of the memory and quasi-single-shot experiments are those of overlapping window decoding, "
     "for every code and window; the residual judged at the end is the accumulated error plus all committed space corrections. An interrupted simulation leaves the results of its last save.",
     ["inputs", "histories", "crash_points"], "all codes, window sizes, options and decoder answers", "The tests decode one small window once.",
     [SI + "/memory_experiment_v2.py", SI + "/quasi_single_shot_v2.py"],
     [("decode_multiround, build_multiround_pcm", SI + "/memory_experiment_v2.py"), ("QssSimulator", SI + "/quasi_single_shot_v2.py")],
     "TLC replays the recorded decoder traffic of real runs; runs whose rounds do not fill the last window are not claimed")
prop("A03", "The analog Tanner graph decoder decodes the extended graph",
     "The analog Tanner graph decoder gives its decoder the matrix with one virtual bit per check, that bit's error probability from the analog value, and the hard syndrome; only data bits are returned. "
     "The simulator's failures, rates and files follow from the residuals; an interrupted simulation leaves the results of its last save.",
     ["inputs", "histories", "crash_points"], "all codes, analog syndromes, biases and decoder answers", "The tests compare one matrix and one channel.",
     [SI + "/analog_tannergraph_decoding.py"], [("AnalogTannergraphDecoder, AtdSimulator", SI + "/analog_tannergraph_decoding.py")],
     "TLC replays the recorded decoder traffic; probabilities are compared as scaled integers")
prop("A04", "Channels, soft syndromes and rates are those of the stated noise",
     "Error channels have the probabilities the rate and bias give, sampled errors occur exactly where the random numbers fall below them, soft syndromes, log-likelihoods and virtual channel probabilities are "
     "those of the Gaussian model, and error rates, error bars and convergence are those of the counts.",
     ["inputs", "histories"], "all rates, biases, noise strengths and counts", "The tests compare a few values.",
     [AS + "/utils/simulation_utils.py", AS + "/utils/data_utils.py"],
     [("error_channel_setup, generate_err, get_virtual_check_init_vals …", AS + "/utils/simulation_utils.py"), ("calculate_error_rates, is_converged", AS + "/utils/data_utils.py")],
     "TLC recomputes samples, signs, orders and rational values; transcendental ones by their functional equations and scaled tables")

prop("A05", "Merged simulation results are the totals of the runs they merge",
     "Merging the result files of runs gives, per folder, one record with the sums of runs and successes of each side and the error rates and error bars of these sums, whatever the number and order of the files; broken files and "
     "files that are no results contribute nothing. The inputs are left as they are.",
     ["inputs", "histories"], "all folders of result files, sides, counts, broken and missing files", "The tests merge nothing.",
     [AS + "/utils/data_utils.py"],
     [("merge_datasets, merge_json_files (and _x, _z, _xz), load_data", AS + "/utils/data_utils.py")],
     "TLC reads the files of each folder one by one, adds them up and judges the records written")

prop("A06", "Every simulation run gets a result file of its own",
     "Whatever runs ask for a result file at the same time, each gets a file nobody else holds, with the first free identifier from its own on; earlier files are kept, a killed run leaves at most its own file behind, and runs "
     "with different settings write into different folders. Settings files are read into the distinct values of each keyword, and combined completely or side by side.",
     ["schedules", "crash_points", "inputs"], "all schedules with few changes of two and three callers, kills at every step, all settings", "The tests call it once.",
     [AS + "/utils/data_utils.py"],
     [("create_outpath, extract_settings, product_dict, zip_dict", AS + "/utils/data_utils.py")],
     "TLC decides by the atomic specification whether each recorded history of concurrent calls has moments at which the calls took effect (linearizability)")

CC = AS + "/code_construction"
prop("A07", "Product code constructions are the tensor products of their seeds",
     "The 3D and 4D product functions, dense and sparse, return the boundary maps of the tensor product of the given complex with the seed, and refuse what is no complex. Codes built from seed matrices are stored as these "
     "maps in both file formats, with as many logical operators as the Kuenneth formula states, forming bases, and with these parameters.",
     ["inputs"], "all seed matrices and complexes of small dimensions", "The tests build no product code.",
     [CC + "/code_constructor.py", CC + "/sparse_code_constructor.py"],
     [("generate_3d_product_code, generate_4d_product_code, create_code", CC + "/code_constructor.py"), ("the same for sparse matrices", CC + "/sparse_code_constructor.py")],
     "TLC multiplies the complex by the seeds entry by entry, computes homology and judges the stored matrices")

LH = "scripts/numerics/code_construct/lifted_hgp.py"
prop("A08", "Lifted products and stored code files are the codes they are named after",
     "The checks of a lifted product of two protographs (of the first with itself when only one is given) are its definition lifted block by block, and those of the bias-tailored product are the same with the second block of "
     "qubits rotated; they commute, and the stated parameters, logical operators, blocks and protographs belong to them. The code files that come with the library hold valid codes with the numbers of qubits and logical "
     "qubits and the weights of their names; the toric ones are the toric codes of their size and distance.",
     ["inputs", "configurations"], "all protographs, lift parameters and stored codes", "The tests build no lifted product and check no stored code.",
     [LH, "examples", "src/mqt/qecc/analog_information_decoding/codes/lifted_product"],
     [("LiftedHgp, BiasTailoredLiftedProduct", LH)],
     "TLC forms the products over the ring of circulants, lifts them, and walks the toric lattices for their distance; distances of other stored codes are not decided")

prop("W01", "Command-line simulations of protected circuits report their outcomes",
     "The command-line wrapper simulates the circuit read from a file (all gates of qelib1), encoded by the chosen code, and reports the states of its first classical register with their shares; without noise these are outcomes "
     "of the original circuit, and a circuit that measures nothing reports its measured qubits. Each letter of the error channels adds, in the order given, its channel of the stated strength to every qubit of each noisy gate; unknown letters are refused. "
     "Exported circuits are the encoded ones.",
     ["programs", "configurations", "inputs"], "all circuits, codes, channels, shots and seeds", "No test runs the wrapper.",
     ["src/mqt/qecc/ecc_qiskit_wrapper.py"], [("main, compose_error, create_noise_model, print_simulation_results", "src/mqt/qecc/ecc_qiskit_wrapper.py")],
     "TLC composes the channels of the noise models, adds up the counts and compares with the outcomes of the circuit; gates outside the wrapper's list of noisy gates are not judged")
