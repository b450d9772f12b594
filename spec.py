"""Single source for properties.jsonl and MANIFEST.json (python3 spec.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "src/plaquette/"
PROPS = []


def prop(id, title, statement, qtext, why, files, mechanism, note, over=("inputs",), level="model_checking",
         technique=None, na=None, state=None, observe=None):
    anchors = {"files": [SRC + f for f in files], "mechanism": [{"name": n, "where": SRC + w} for n, w in mechanism]}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement,
                             quantifier=dict(over=list(over), text=qtext),
                             why_tests_cant=why, anchors=anchors),
                      note=note, level=level, technique=technique, na=na))


TECH = ("bounded symbolic execution of the current Python source (AST-instrumented) with z3 deciding every "
        "assertion; counterexamples replayed on the uninstrumented code")

prop("C01", "Gate functions conjugate every row of a stabiliser tableau",
     "Each of x, y, z, hadamard, phase_gate, control_not_gate and control_phase_gate (and their aliases) in "
     "plaquette.pauli returns the tableau in which every signed row P has become U P U^dagger, for any bit content "
     "of the tableau and any (pair of) target qubits. Lists of targets act like the single applications in order, "
     "and no other row, column or sign changes.",
     "every content of a 2n-row tableau, n <= 4 (5 thorough), every target index or list of two (three) targets",
     "the tests apply gates to a few named states; sign rules only show on particular x/z patterns of several rows",
     ["pauli.py"],
     [("CX", "pauli.py:control_not_gate"), ("CZ", "pauli.py:control_phase_gate"), ("H", "pauli.py:hadamard"),
      ("S", "pauli.py:phase_gate"), ("Paulis", "pauli.py:x,y,z")],
     "all tableau bits symbolic, n<=4 (5), list length <=2 (3)")

prop("C03", "Pauli products, their phase, and commutators are exact",
     "pauli.multiply returns the product of the given operators: its x/z bits, the exact global phase in "
     "{1, i, -1, -i} (including operand signs and initial_phase) and a sign bit set iff that phase is -1 or -i, "
     "leaving its operands untouched. pauli.commutator_sign returns 1 exactly for anticommuting pairs, with the "
     "documented shapes for operators, lists and states and for ignore_destabilisers.",
     "every operator content: 2 operands up to 4 qubits (5), 3 operands up to 2 (3), 4 operands; over 100 qubits for large phases; commutator tables up to 4 qubits",
     "there are 16^n operand pairs; the phase of a product is a mod-4 sum that a handful of examples cannot pin",
     ["pauli.py"],
     [("product and phase", "pauli.py:multiply"), ("phase exponent", "pauli.py:_g"), ("commutator", "pauli.py:commutator_sign")],
     "all operand bits symbolic; n<=4 (5) for two operands; 3+ operands with a negative proper suffix product are a listed known finding")

prop("C05", "Measurement and reset follow the projection postulate on every state",
     "pauli.measure, measure_z_base, measure_x_base and reset_qubits_to_eigenstate, applied to any valid tableau, "
     "return a valid tableau in which the measured operator has the reported outcome and every commuting old stabiliser "
     "survives with its sign. An outcome fixed by the state is reported as such whatever outcome is forced; an open one "
     "is the forced outcome, or else exactly one random bit, and a reset leaves the target in the requested +1 eigenstate.",
     "every valid tableau on <= 2 qubits (all signs of sampled frames on 3..5), every measured operator, target list, forced outcome and random bit",
     "measurement branches on which rows anticommute; tests reach few of the 2^(2n) patterns and never all signs",
     ["pauli.py"],
     [("measurement", "pauli.py:measure"), ("bases", "pauli.py:_measure_base"), ("reset", "pauli.py:reset_qubits_to_eigenstate")],
     "n<=2 fully symbolic valid tableau; n=3,4 (5) fixed x/z frames with symbolic signs and operators")

prop("C07", "Adding, removing and combining qubits keeps every other correlation",
     "Destructive measurement (pauli.measure_z_base/measure_x_base/measure with destructive outcome, _ptrace) of one or "
     "several qubits leaves a valid tableau on the remaining qubits, in their order, stabilised by exactly the post-measurement "
     "stabilisers that do not touch the measured ones. insert_qubit_at puts fresh |0> qubits at the requested positions; "
     "tensor_product, pad_operator and count_qubits place, shift and count operators without changing factors or signs.",
     "every valid tableau on 2 qubits, every sign pattern of sampled 3- and 4-qubit frames, every position list; composition: every content up to 3+2 (4+3) qubits",
     "index arithmetic over shrinking registers and row selection depend on which rows anticommute; tests try few positions and states",
     ["pauli.py"],
     [("partial trace", "pauli.py:_ptrace"), ("insertion", "pauli.py:insert_qubit_at"), ("tensor", "pauli.py:tensor_product"),
      ("padding", "pauli.py:pad_operator"), ("counting", "pauli.py:count_qubits")],
     "n=2 fully symbolic tableaux; n=3 (4) sampled x/z frames with symbolic signs; composition up to 3+2 (4+3) qubits")

prop("C08", "Operators and states survive conversion between their forms",
     "string_to_pauli, pauli_to_string, dict_to_pauli, pauli_to_dict, string_to_state and state_to_string are mutually "
     "inverse on canonical forms: no factor, index, phase or sign is lost; strings with factors in any order "
     "denote the operator product; malformed strings are rejected. string_to_state with stabilisers alone produces "
     "destabilisers that pair with them one to one.",
     "every operator on <= 3 (4) qubits, two arbitrary factors at any of 12 indices, every string of <= 3 (4) factors, every valid 2-qubit state, every independent commuting generator set on <= 2 (3) qubits",
     "tests convert a handful of strings; sign, multi-digit index and identity corner cases lie outside them",
     ["pauli.py"],
     [("parse", "pauli.py:string_to_pauli"), ("print", "pauli.py:pauli_to_string"), ("dict", "pauli.py:dict_to_pauli"),
      ("state parse", "pauli.py:string_to_state")],
     "operators n<=3 (4), strings <=3 (4) factors, states n=2")

prop("C10", "Circuits keep, count, print and reparse exactly what was appended",
     "Circuit.append/append_from_str accept exactly the documented instructions and store them unchanged and in order; "
     "str(circuit) reparses to an equal circuit; number_of_qubits, number_measured_qubits, has_errors-style counters and "
     "CircuitBuilder agree with the instruction list for every instruction kind, target list and probability.",
     "every instruction kind with every argument symbolic (unbounded indices and real probabilities), every pair (triple) of kinds, <= 4 targets",
     "combinations of instruction kinds, targets and probabilities are unbounded; tests cover a few sample programs",
     ["circuit/__init__.py"],
     [("append", "circuit/__init__.py:Circuit.append"), ("parse", "circuit/__init__.py:Circuit.append_from_str"),
      ("print", "circuit/__init__.py:Circuit.__str__"), ("builder", "circuit/__init__.py:CircuitBuilder")],
     "1 instruction fully symbolic, pairs (triples) of kinds with one symbolic argument each")

prop("C11", "Probabilistic instructions follow their documented distribution",
     "On the pure-Python simulator every DEPOLARIZE, ERROR/ERROR_ELSE/ERROR_CONTINUE chain, E_PAULI/E_PAULI2 "
     "channel, E_ERASE, reset and random measurement yields each of its outcomes with exactly the documented probability (joint distribution over all "
     "instructions of the program), for every probability argument; chains stop after the first error, and reported erasures "
     "are the ones that happened.",
     "all probability arguments (reals in [0,1]) of listed programs of 1-6 (8) instructions on <= 3 data qubits",
     "sampling tests see only gross deviations at a few probabilities; conditional chains couple several draws",
     ["device/_circuitsim.py"],
     [("errors", "device/_circuitsim.py:CircuitSimulator._handle_error"), ("Pauli choice", "device/_circuitsim.py:CircuitSimulator._apply_pauli_from_int")],
     "listed programs; probabilities symbolic reals; exact path-probability terms compared by z3", over=("inputs", "schedules"))

prop("C12", "The simulator runs instruction by instruction and runs are independent",
     "Stepping a CircuitSimulator applies exactly the next instruction (targets in order) to the current state and then stops; "
     "run/get_sample return one result per measured qubit in program order. Any run on a device with a history of runs (other "
     "circuits, resets, after_reset states, open error blocks) gives exactly what a fresh device gives from the same draws, and results handed out "
     "earlier do not change.",
     "every instruction with <= 2 (3) targets from any valid 2-qubit tableau and sampled 3-(4-)qubit frames; histories of <= 3 (4) runs over 7 programs, every draw",
     "state leaks between runs show only for particular histories and draws",
     ["device/_circuitsim.py", "device/__init__.py"],
     [("step", "device/_circuitsim.py:CircuitSimulator.__next__"), ("run", "device/__init__.py:Device.run"),
      ("reset", "device/_circuitsim.py:CircuitSimulator.reset"), ("state", "device/__init__.py:QuantumState")],
     "n=2 all tableaux, n=3 (4) frames; histories <= 3 (4) runs", over=("inputs", "histories"))

prop("C13", "The stim backend samples the same circuit as the Clifford simulator",
     "circuit_to_stim yields a stim circuit that, read by stim's documented semantics, has the same joint outcome distribution "
     "(measurements and erasure flags) as the Plaquette circuit for every probability; StimSimulator hands out every sampled "
     "row exactly once and in order, splits it into measurements and erasures correctly, and never serves samples of an "
     "outdated circuit, for any batch size and call history.",
     "listed programs with symbolic probabilities; batches of 1-3 (4), <= 5 (9) consecutive runs with every sampled bit symbolic",
     "equal distributions cannot be sampled to certainty, and batching mistakes appear only at batch boundaries",
     ["device/_stimsim.py"],
     [("conversion", "device/_stimsim.py:circuit_to_stim"), ("equiprobable errors", "device/_stimsim.py:_append_equiprobable"),
      ("batching", "device/_stimsim.py:StimSimulator.run"), ("splitting", "device/_stimsim.py:StimSimulator.process_results")],
     "stim (C++) replaced by its documented semantics; listed programs; batches <= 3 (4)", over=("inputs", "histories"))

prop("C14", "OpenQASM export denotes the same circuit",
     "convert_to_openqasm emits a well-formed OpenQASM 2 program whose statements are exactly the circuit's gates and "
     "measurements in order on the same qubits, with registers large enough and one classical bit per measurement in "
     "measurement order; circuits with instructions that cannot be exported are rejected, never silently altered.",
     "every circuit of <= 2 (3) instructions of every kind, <= 3 targets, unbounded symbolic qubit indices",
     "the golden file covers one circuit; register sizing and bit numbering depend on all instructions together",
     ["circuit/openqasm.py"],
     [("export", "circuit/openqasm.py:convert_to_openqasm")],
     "1-2 instruction circuits of every kind (3 for supported kinds; all kinds thorough); dropped resets are a listed known finding")

prop("C15", "The predefined codes are the codes they claim to be, and code queries are exact",
     "make_five_qubit/shor/repetition/planar/rotated_planar(XZZX)/toric give the documented numbers of qubits, independent "
     "commuting generators and logical operators (X_i anticommutes only with Z_i); every undetected non-trivial Pauli error "
     "has weight at least the code distance (size). StabilizerCode.check accepts exactly the valid codes, == holds exactly for "
     "equal operators, and logical_ops_to_indices accepts exactly the documented selections.",
     "every Pauli error (4^n) on each listed code; every pair of codes with <= 2 generators on 2 (3) qubits",
     "distance is a statement over all Pauli errors; tests compare fixed operator lists or counts for a few sizes",
     ["codes/__init__.py", "codes/latticeinstances.py", "codes/latticebase.py"],
     [("code check", "codes/__init__.py:StabilizerCode.check"), ("equality", "codes/__init__.py:StabilizerCode.__eq__"),
      ("lattices", "codes/latticeinstances.py:PlanarCodeLattice"), ("selection", "codes/__init__.py:StabilizerCode.logical_ops_to_indices")],
     "sizes up to 7 (11); distance decided over all Pauli errors per size")

prop("C16", "Fabrication errors turn a code into a valid code without the faulty qubits",
     "apply_fabrication_errors removes exactly the faulty data qubits (and those of faulty gates/generators), leaving a valid code: "
     "commuting generators, all of them products of old ones restricted to the remaining qubits, logical operators that commute with "
     "them, pair as X/Z and act as the old logical operators. Edges, vertices, indices and the operators exposed by "
     "the code describe the same thing afterwards.",
     "every pair of faulty data qubits, every faulty gate and generator on planar 3-4(5) and rotated 3(4); every Pauli error on what remains",
     "super-stabiliser formation depends on the combination of faulty sites; tests look at a few single sites and counts",
     ["codes/latticebase.py", "codes/__init__.py"],
     [("fabrication", "codes/latticebase.py:CodeLattice.apply_fabrication_errors"), ("superstabiliser", "codes/latticebase.py:CodeLattice.create_superstab"),
      ("code", "codes/__init__.py:LatticeCode.apply_fabrication_errors")],
     "sets of up to 2 (3) faulty sites on small codes, default flags")

prop("C17", "Codes defined from operators or edited as lattices have exactly the given operators",
     "LatticeCode.from_operators returns the given operators (factors and order) as stabilisers and logical operators; a lattice's "
     "operators are the products of its edges whatever the order they were added in; adding/removing edges and vertices, "
     "multiplying a logical by a generator and joining generators change just the named operators, as the product "
     "prescribes, and extended indices stay consecutive.",
     "from_operators: one (two) arbitrary operators among <= 6 on 2-4 qubits; lattices with 3 qubits, 2 operators, <= 4 (5) arbitrary edges then one edit",
     "the factor products depend on edge order and coincidences; tests build standard codes only",
     ["codes/latticebase.py", "codes/__init__.py"],
     [("from operators", "codes/__init__.py:LatticeCode.from_operators"), ("operators", "codes/latticebase.py:CodeLattice._vertices_to_operators"),
      ("edits", "codes/latticebase.py:CodeLattice.multiply_logical_with_stab")],
     "sizes as in the quantifier", over=("inputs", "histories"))
prop("C18", "Generated QEC circuits measure the code and inject exactly the configured errors",
     "For every code, error specification, selection of logical operators and both ways of measuring them, the generated circuit "
     "yields a zero syndrome and no logical toggle without errors; with errors, the syndrome of a round is the commutator of the "
     "generators with that round's data errors XOR the changes of measurement flips, and logical operators toggle exactly with the errors "
     "that anticommute with them. Channels appear with the given probabilities, after their gate, in the noisy rounds only, "
     "and nothing else differs from the error-free circuit; invalid specifications are rejected.",
     "every pattern of data, erasure and measurement errors, every random outcome, all probabilities, presence/absence of entries on two sites; listed codes (up to distance 5, 7 thorough), 1-3 (4) rounds, fabricated codes",
     "the schedule must measure every generator for every error pattern at once; tests compare a few gate lists",
     ["circuit/generator.py", "device/__init__.py", "errors/__init__.py", "codes/latticebase.py"],
     [("circuit", "circuit/generator.py:QECCircuitGenerator.get_circuit"), ("measurement", "circuit/generator.py:QECCircuitGenerator.measure_op"),
      ("parallel schedule", "circuit/generator.py:QECCircuitGenerator.measure_stabgens_pl"), ("gate errors", "circuit/generator.py:QECCircuitGenerator.apply_gate_error"),
      ("edge order", "codes/latticebase.py:CodeLattice.assign_stab_edge_order"), ("validation", "errors/__init__.py:ErrorData.check_against_code")],
     "listed codes and rounds; signs, outcomes and errors fully symbolic")

prop("C19", "Raw results are unpacked as documented and success means the correction predicts the toggle",
     "MeasurementSample.from_code_and_raw_results splits any raw result array into initial logical values, generator results per "
     "round, final logical values, toggles, syndrome (change between consecutive rounds) and erasures per round and qubit, whatever "
     "the weight of the measured logical operators; arrays of the wrong size are rejected. check_success is true iff every measured "
     "logical operator toggled exactly when the correction anticommutes with it.",
     "every raw bit and erasure bit, 1-3 (5) rounds, every choice of measured operators; every correction, toggle vector and selection",
     "slicing depends on code, rounds and operator weights together; a wrong slice agrees with the right one on most sampled arrays",
     ["device/__init__.py", "decoders/decoderbase.py"],
     [("unpacking", "device/__init__.py:MeasurementSample.from_code_and_raw_results"), ("success", "decoders/decoderbase.py:check_success")],
     "listed codes, all bits symbolic")

prop("C20", "Union-find and erasure decoding return valid corrections and keep the code's distance",
     "For every syndrome graph, erasure and syndrome, UnionFindNoWeights, UnionFind with any positive weights, and (for syndromes explained "
     "by erasures) ErasureDecoder return a selection of edges whose boundary is the syndrome, lying within erased and grown edges, and within the erasure if that "
     "explains the syndrome; a syndrome without explanation is rejected, and nothing depends on earlier decodings. Through DecoderInterface, "
     "s erasures and t other errors (measurement errors included) with s + 2t < d never leave a logical error, unweighted or with uniform weights.",
     "all multigraphs with 3 vertices and 3 (4) edges and selected larger ones, all erasures, syndromes, pairs of decodings, real weights in ratios up to 2 on 3 (4) edges; codes of distance 2, 3 (up to 5 thorough): all s erasures and t errors with s + 2t < d",
     "cluster growth, fusion and peeling have history-dependent branches; tests decode a few sampled syndromes",
     ["decoders/unionfind_decoder.py", "decoders/unionfind_erasure.py", "decoders/unionfind_interfaces.py", "decoders/decoderbase.py", "syngraph/__init__.py"],
     [("cluster growth", "decoders/unionfind_decoder.py:UnionFindNoWeights.union_find"), ("merging", "decoders/unionfind_decoder.py:Cluster.merge_with"),
      ("peeling", "decoders/unionfind_erasure.py:ErasureDecoder.decode"), ("interface", "decoders/decoderbase.py:DecoderInterface.decode")],
     "sizes as in the quantifier", over=("inputs", "histories"))

prop("C21", "The matching decoders pose the decoding problem faithfully and return its lightest explanation",
     "For every decoding graph, weights, erasure and syndrome, PyMatchingDecoder and FusionBlossomDecoder return a selection of edges which explains the "
     "syndrome and is no heavier than any other explanation (erased edges count nothing; Fusion Blossom up to its weight resolution), again after "
     "update_weights and earlier decodings; erasures are rejected by PyMatching. Through DecoderInterface, s erasures and t other errors with s + 2t < d "
     "never leave a logical error. NaN and negative weights are rejected, zero and infinite ones reported.",
     "graphs on 3 (4) vertices, real weights, two consecutive decodings; codes of distance 2, 3 and 5 (7): all s erasures and t errors with s + 2t < d; the compiled libraries are replaced by their contract (any selection allowed by it)",
     "whether the right problem is posed shows only on particular graphs, weights and syndromes; the tests decode a few",
     ["decoders/matching.py", "decoders/fusionblossom.py", "decoders/decoderbase.py", "syngraph/__init__.py"],
     [("PyMatching", "decoders/matching.py:PyMatchingDecoder.set_syngraph"), ("Fusion Blossom", "decoders/fusionblossom.py:FusionBlossomDecoder.set_syngraph"),
      ("interface", "decoders/decoderbase.py:DecoderInterface.decode"), ("weights", "decoders/decoderbase.py:check_weights_sane")],
     "libraries as contract stubs; sizes as in the quantifier", over=("inputs", "histories"))


prop("C22", "The syndrome graph describes the code, and data pass through it unchanged",
     "The syndrome graph has one vertex per generator and round and one edge per single-qubit X or Z error and measurement error, between exactly the syndrome bits "
     "the error flips; its components are the connected parts, parallel edges count once with the lightest weight, infinitely heavy ones not at all. Every "
     "syndrome and erasure reaches the components bit by bit, every selection of edges is turned into the correction those edges stand for (within "
     "the erasure if they are), again after earlier data. Errors flipping three generators, mixed missing weights, malformed arrays and syndromes no error explains are rejected.",
     "every 2 generators on 2 qubits and 3 on 1 qubit, 1-3 rounds (3 on 2, 2 on 3); all syndromes, erasures and selections, and every two of them in turn, on codes of distance 2-3 (5); all real weights on graphs with parallel edges",
     "duplicate edges, empty components, several rounds and leftover data of an earlier decoding come together in ways the tests' few graphs do not have",
     ["syngraph/__init__.py", "decoders/decoderbase.py"],
     [("graph", "syngraph/__init__.py:SyndromeGraph.__init__"), ("data in", "syngraph/__init__.py:SyndromeGraph.set_erasure"), ("data out", "syngraph/__init__.py:SyndromeGraph.update_decoder_results"),
      ("components", "syngraph/__init__.py:SyndromeGraphComponent"), ("decodable", "decoders/decoderbase.py:ComponentDecoder.decode")],
     "sizes as in the quantifier", over=("inputs", "histories"))


prop("C23", "Decoding weights are the log-odds of the configured errors",
     "With error data given, a decoder made by from_code sees, for every X, Z and measurement error in every round, the weight -ln(p/(1-p)) with p_X = p_x + p_y, "
     "p_Z = p_y + p_z (zero or missing Pauli probabilities count 1e-15) and the generator's measurement error probability; given weights are used as "
     "they are; without either, or with weighted=False, there are none. Missing qubits, generators and parameters count as zero in the computation, "
     "erasures only if asked for; the same data give the same weights again. Both at once, unknown errors, parameters and vertices are rejected.",
     "all real probabilities on all qubits and generators; every combination of given, missing and zero parameters on each qubit and generator (pairs), every vertex and parameter name; repetition, planar, rotated, five-qubit (toric, Shor)",
     "a weight on the wrong edge, a forgotten Y or a skipped entry only costs accuracy, and no test notices a lost percent",
     ["syngraph/weights.py", "syngraph/__init__.py", "decoders/decoderbase.py", "errors/__init__.py"],
     [("weights", "syngraph/weights.py:WeightComputation"), ("from code", "decoders/decoderbase.py:DecoderInterface.from_code"), ("manager", "syngraph/__init__.py:SyndromeGraphManager.__init__"),
      ("edges", "syngraph/__init__.py:SyndromeGraph.set_edge_weights")],
     "real arithmetic; logarithm uninterpreted up to the rules for products and quotients")


prop("C24", "Error data hold exactly the errors they were given",
     "The error dictionary of an ErrorData object has exactly the enabled errors with exactly the probabilities configured: constants on every qubit (one gate per "
     "generator or per edge of a generator), gaussian errors drawn once per qubit or gate with plaquette's generator from the given mean and deviation cut to [0, 1], user errors "
     "from the CSV file and zero elsewhere; in gate error tables the last row of a gate and its qubits counts. Adding and updating change the qubits, columns and gates given and nothing else, "
     "overwriting replaces everything; saving and reading give the same errors back. Numbers which are no probabilities, unknown errors, "
     "gates, channels, wrong vertices and mismatched arguments are rejected.",
     "every distribution of each pair (triple) of qubit errors and of nine pairs of gates, all real probabilities, means and deviations, files with all or some rows in two orders; tables of 1-3 rows, every vertex, gate and channel; repetition 3, planar 2 (five-qubit, toric 2)",
     "a probability on the wrong qubit, a lost row or a column reordered by a file only changes rates; the tests compare a few constant tables",
     ["errors/__init__.py"],
     [("configured", "errors/__init__.py:assimilate_qubit_errors"), ("configured gates", "errors/__init__.py:assimilate_gate_errors"), ("dictionaries", "errors/__init__.py:ErrorData.error_data_dict"),
      ("files", "errors/__init__.py:ErrorData.save_to_csv"), ("updates", "errors/__init__.py:ErrorData.update"), ("checks", "errors/__init__.py:ErrorData.check_against_code")],
     "real arithmetic; CSV files real with opaque number tokens; truncnorm replaced by its contract", over=("inputs", "histories"))


prop("C25", "Experiments are configured, saved and run as described",
     "A configuration part is accepted iff its names, sizes, rounds, shots, distributions, parameters and files are possible, and makes the code, device, decoder (with weights as "
     "configured), errors and circuit it names; what is disabled or not sampled is not simulated. The same dictionary can be read again, as_dict() holds what was configured, saving to "
     "and loading from toml or json gives the same valid configuration, missing parts have their defaults, invalid files are rejected. build() makes everything in turn starting from the "
     "seed; run() runs the circuit once per shot, decodes the shot's syndrome and erasures and returns the fraction of shots whose correction does not predict the logical toggle.",
     "all integer sizes, rounds and shots, all real parameters; every name, distribution, parameter count, flag and missing key for one or two (three) errors; every result and correction of 1-3 (5) shots",
     "a configuration has too many combinations of missing, disabled and impossible parts to list, and a run's rate looks plausible whatever was compared",
     ["frontend/__init__.py", "frontend/schemas.py", "errors/__init__.py", "decoders/decoderbase.py"],
     [("configuration", "frontend/__init__.py:ExperimentConfig.from_dict"), ("errors", "frontend/__init__.py:QubitErrorsConfig.simulated_errors"), ("gates", "frontend/__init__.py:GateErrorsConfig.simulated_errors"),
      ("files", "frontend/__init__.py:ExperimentConfig.load_toml"), ("rate", "frontend/__init__.py:ExperimentConfig.run")],
     "stub devices, decoders and toml/json libraries; sizes as in the quantifier", over=("inputs", "histories"))


prop("C26", "Drawings show the code, its data and circuits as they are",
     "Drawings of a code or lattice show every data qubit, generator and logical operator at its position, labelled with its numbers, one edge per factor of every operator, and error "
     "probabilities if given; syndromes, errors and corrections are drawn exactly at the generators and qubits where they are set, with their Pauli factor (X and Z), limited to one Pauli "
     "if asked for; nothing else is drawn and drawing data leaves later drawings as they were. Circuits are drawn gate by gate with all qubits and measurements; circuits with errors are rejected.",
     "every syndrome, every Pauli error or correction on two (three) qubits, five selections; repetition 3, planar 2, five-qubit, Shor, a code with Y operators (toric 2, planar 3, rotated 3); circuits of up to two instructions and a measurement on three qubits",
     "a marker on the wrong qubit or a generator left out is invisible to tests which only check that drawing works",
     ["visualizer/__init__.py", "circuit/openqasm.py"],
     [("lattice", "visualizer/__init__.py:LatticeVisualizer.draw_lattice"), ("data", "visualizer/__init__.py:LatticeVisualizer.draw_latticedata"), ("circuits", "visualizer/__init__.py:CircuitVisualizer.__init__")],
     "read back from plotly, matplotlib and qiskit objects", over=("inputs",))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in PROPS:
            f.write(json.dumps(q["p"]) + "\n")
    checks, na = [], []
    for q in PROPS:
        p = q["p"]["id"]
        if q["na"]:
            na.append({"property": p, "reason": q["na"]})
            continue
        checks.append({
            "property": p,
            "quick_cmd": f"/opt/venv/bin/python run.py {p} quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {p} thorough",
            "technique": q["technique"] or TECH,
            "level": q["level"],
            "level_note": "bounded, not a proof: " + q["note"],
        })
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python setup_check.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    print(len(checks), "checks;", len(na), "not applicable")


if __name__ == "__main__":
    main()
