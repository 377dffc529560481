#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json, os

U = "stoqcompiler/unitary/unitary.py"
UD = "stoqcompiler/unitary/unitary_definitions.py"
PU = "stoqcompiler/unitary/parameterized_unitary.py"
PUD = "stoqcompiler/unitary/parameterized_unitary_definitions.py"
PUP = "stoqcompiler/unitary/parameterized_unitary_parameter.py"
UP = "stoqcompiler/unitary/unitary_primitive.py"
US = "stoqcompiler/unitary/unitary_sequence.py"
UE = "stoqcompiler/unitary/unitary_sequence_entry.py"
CC = "stoqcompiler/compiler/compiler.py"
CA = "stoqcompiler/compiler/compiler_action.py"
CR = "stoqcompiler/compiler/compiler_result.py"
HH = "stoqcompiler/hamiltonian/hamiltonian.py"
HT = "stoqcompiler/hamiltonian/hamiltonian_term.py"
VV = "stoqcompiler/verification/verification.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))


prop("C01", "Every operation the library hands out is a valid unitary",
     "Every operation object the library creates or returns, by any route (construction, gates, parameters, "
     "time evolution, products, inverses, tensor products, placement on a larger system, sequence products, compilation), has "
     "a finite matrix of its declared dimension that is unitary and has determinant one (global phase balanced). "
     "An operation built from a given unitary matrix represents that matrix up to a global phase only, whatever the "
     "dimension, number type or phase of the input, and with no matrix it is the identity.",
     ["inputs", "histories"], "all unitary input matrices of any dimension and dtype, and all chains of operations on them, however long",
     "The tests build a handful of 2x2 to 8x8 gates and never look at the determinant, at finiteness, or at drift over long chains.",
     [U, UE, UD, PU, US],
     [("clean-up of small values, unitarity assertion, global phase balancing in Unitary.__init__", U)],
     ["Unitary constructor exit", "Unitary.get_matrix", "Unitary.get_dimension"])

prop("C02", "Products, inverses and tensor products obey matrix algebra",
     "Multiplying an operation by a factor from the left or right, inverting it, and taking a tensor product yield exactly the "
     "corresponding matrix product (factor on the named side), conjugate transpose, and Kronecker product (receiver first), up to a global phase, for all operands of any "
     "dimension. Operands are left unchanged, and an inverse keeps the operation's name, parameters and qubits while its inverse marking "
     "toggles, so that inverting twice restores the original.",
     ["inputs"], "all pairs and chains of unitaries of equal (products) or arbitrary (tensor) dimensions, including dimensions that are not powers of two",
     "Tests multiply Pauli gates, which commute up to phase, so they cannot tell left from right multiplication, and tensor only equal factors.",
     [U], [("left_multiply / right_multiply / inverse / tensor", U)],
     ["return values of Unitary.left_multiply, right_multiply, inverse, tensor"])

prop("C03", "Distance is the phase-invariant overlap; closeness agrees with it",
     "The distance between two operations (or an operation and a unitary matrix) is one minus the normalised absolute trace overlap: between 0 and 1, symmetric, unchanged by global "
     "phases and by multiplying both sides by a common unitary, and zero exactly for operations equal up to phase. "
     "Being close at threshold t means distance at most 1 - t; with no threshold, or a threshold of 1, it means equality up to phase "
     "within numerical tolerance.",
     ["inputs"], "all pairs of unitaries of every dimension, all phases, all thresholds in [0,1]",
     "The tests evaluate closeness on one random matrix and a few fixed gates with three thresholds; they never compare the distance with its definition.",
     [U], [("distance_from, close_to", U)], ["Unitary.distance_from", "Unitary.close_to"])

prop("C04", "Standard gates implement their documented operators at every angle",
     "Each predefined gate (x, y, z and x-y-plane rotations, Hadamard, T, Pauli gates, CNOT, CCNOT, phase-flip QECC, XX, n-qubit global Molmer-Sorensen), and each predefined parameterized "
     "gate, implements its documented operator for every angle, sign and number of qubits, up to global phase. Each carries the parameter names, "
     "values and angle flags it was built with, parameterized gates reject values outside their declared range, "
     "and a parameterized gate agrees with the fixed gate at the same parameters.",
     ["inputs"], "all real angles (negative, beyond 2 pi, tiny, special multiples), all qubit counts",
     "Tests check squares or fourth powers being the identity, zero angles and rphi against rx/ry at six angles: sign, handedness and angle-scale errors pass.",
     [UD, PUD, PU, PUP], [("gate matrices", UD), ("parameterized gate matrices and ranges", PUD), ("range validation", PU)],
     ["matrices and parameters returned by UnitaryDefinitions, ParameterizedUnitaryDefinitions"])

prop("C05", "Time evolution equals the exponential of the whole Hamiltonian",
     "Evolving a Hermitian matrix, a parameterized evolution, or a Hamiltonian made of terms for time t yields exp(+iHt) up to global phase, where "
     "H is the sum of all terms at full strength, for every real t (negative and zero included). "
     "Every Hamiltonian term splits its matrix into a positive real coefficient equal to the largest singular value and a normalised "
     "matrix of unit norm whose product is the original matrix.",
     ["inputs"], "all Hermitian matrices (degenerate, low rank, negative, widely scaled), all term lists, all times",
     "Tests use one single-qubit Hamiltonian, compare it with itself at proportional times, and check one term's normalisation.",
     [UD, PUD, HH, HT], [("scipy.linalg.expm(1j*H*t)", UD), ("sum of term matrices", HH), ("svd normalisation", HT)],
     ["UnitaryDefinitions.time_evolution", "Hamiltonian.get_time_evolution_operator", "HamiltonianTerm getters"])

prop("C06", "Placing an operation on qubits acts on exactly those, in order",
     "An operation placed on an ordered list of qubits of a larger system acts on exactly those qubits, with the i-th listed qubit as the operation's "
     "i-th tensor factor (qubit 0 being the leftmost factor of the system), and as the identity on all others. This holds for every ordered choice of "
     "qubits and every system size, and does not depend on which system sizes were asked for before or on how the qubit list was given; name, parameters and "
     "qubits are carried over to the placed operation.",
     ["inputs", "histories"], "all ordered qubit lists in all system sizes, all operations, all query orders",
     "Tests place the identity on qubit 0 and a CNOT on [0,1] and [1,0]; no non-adjacent, three-qubit or non-involutive placement is ever checked.",
     [UE], [("permutation matrix and tensor expansion, cache per system dimension", UE)],
     ["UnitarySequenceEntry.get_full_unitary", "get_apply_to", "get_dimension"])

prop("C07", "A sequence's product always equals the product of its entries",
     "At every point of every history of appends, removals (at either end), undos, product queries, combinations and inversions, the product a sequence reports "
     "equals, up to global phase and accumulated rounding, the product recomputed from its current entries with the first entry applied first. "
     "It never depends on whether or when the product was queried earlier.",
     ["histories"], "all histories of sequence operations of any length interleaved with product queries, on all system sizes",
     "Tests run a dozen operations with Pauli gates on one qubit, whose order hardly matters, always querying the product after every step.",
     [US, UE], [("incremental update of cached product in append/remove, undo snapshot, lazy product()", US)],
     ["UnitarySequence.product", "get_sequence_entries"])

prop("C08", "Sequence edits and undo follow a simple list with one saved state",
     "Appending and removing at either end change the entry list at exactly that end by one entry, removing from an empty sequence does nothing, and "
     "length and entries always agree. Undo restores exactly the entries (and product) from just before the latest change made with undo saving on, "
     "even if changes without undo saving followed, and fails without effect when there is nothing to undo, including right after another undo.",
     ["histories"], "all histories of edits with any pattern of undo saving",
     "Tests exercise one fixed undo history and never a composite edit with undo saving switched off.",
     [US], [("_save_undo_state, undo", US), ("append_first/last, remove_first/last", US)],
     ["UnitarySequence.get_length, get_sequence_entries, undo"])

prop("C09", "Combining concatenates and inverting reverses any sequences",
     "Combining sequences yields their entries in order and the matching product; inverting a sequence yields its entries in reverse order, each inverted on the same "
     "qubits, and its product is the inverse of the original's, both as reported and as recomputed from the entries. This holds for any sequences, including empty ones, ones that "
     "contain the same entry several times, and ones with an edit history; results can be edited further and never affect their sources.",
     ["inputs", "histories"], "all lists of sequences over a common system, including repeated entries and prior edits",
     "Tests combine two short single-qubit sequences and invert one sequence of two distinct entries.",
     [US], [("UnitarySequence.combine, inverse", US)], ["UnitarySequence.combine, inverse and their products"])

prop("C10", "Caller data and library objects stay isolated from each other",
     "No library call modifies matrices, lists, operations, sequences, primitives, terms or probability lists given to it (apart from the sequence being edited). Objects that take "
     "copies on construction (operations from matrices, Hamiltonian terms, Hamiltonians, compilers, sequences) are unaffected by later changes to what they were built "
     "from, and lists of entries handed out are independent of the sequence and its product. Random changes and edits on one sequence never alter another.",
     ["inputs", "histories"], "all interleavings of library calls with mutation of the caller's inputs and of returned lists",
     "No test mutates an input or a returned list afterwards, or checks inputs for being unchanged.",
     [U, US, CC, HH, HT], [("astype copies, deepcopy of entries, primitives and terms", US)],
     ["byte-wise fingerprints of inputs before and after every call"])

prop("C11", "Compilation stops exactly when it should and reports true costs",
     "Compilation (plain or layered) ends as soon as the compiled sequence is within the requested threshold of the target and otherwise after exactly the maximum number of "
     "steps; if it ends early the sequence really meets the threshold. It reports one cost per step, each equal to the distance to the target after that step, all between 0 and 1, the last being that of the "
     "returned sequence. The elapsed time is non-negative and within the caller's measured duration.",
     ["inputs", "histories"], "all targets, primitives, thresholds, step limits, append probabilities, annealing rates and random streams",
     "Tests only check that four runs end close to the target and that cost_by_step is a list.",
     [CC, CR, U], [("while loop of _compile/_compile_layered, undo on rejection, cost bookkeeping", CC)],
     ["CompilerResult of Compiler.compile / compile_layered, runs re-executed with every shorter step limit"])

prop("C12", "Compiled sequences use only the allowed primitives, ranges and qubits",
     "Every entry of a random or compiled sequence is one of the given primitives, with every parameter inside its declared range, on one of that "
     "primitive's allowed qubit lists (or any distinct qubits if none are given), and never a primitive with probability zero or with no allowed qubits. Layered sequences consist of whole layers, "
     "each containing exactly the requested count of each primitive, at every step of the compilation.",
     ["inputs", "histories"], "all primitive sets, connectivity lists, probability vectors, layer compositions and random streams, including extreme random draws",
     "Tests never restrict qubits or probabilities and never check which gates a result contains beyond its length modulo the layer size.",
     [CC, UP, PUP, VV], [("create_random_sequence_entry, create_random_layer", CC), ("random_value", PUP)],
     ["entries of compiled and generated sequences: name, parameters, qubits, matrix"])

prop("C13", "The stochastic search follows the annealed Metropolis rule",
     "Each step proposes one change: with the configured probability a new gate (or layer) is added, at either end equally likely, otherwise one is "
     "removed from either end equally likely (nothing if empty). A change that does not raise the cost is always kept; one that raises it by d is kept with probability exp(-b d), where b starts "
     "at zero, grows by the annealing rate at every step before the decision, and is capped at the square of 2 to the dimension; a rejected change leaves the sequence exactly as it was.",
     ["histories", "configurations"], "all step histories of the search, all append probabilities and annealing rates, plain and layered",
     "Tests see only final results of a search that converges under almost any acceptance rule.",
     [CC, CA], [("_make_random_change(_layered), _accept_proposed_change, beta schedule", CC), ("is_append/is_remove", CA)],
     ["cost_by_step traces on a ladder target where the cost identifies the state; entry lists of runs re-executed with every shorter step limit"])

prop("C14", "Random choices follow the requested distributions",
     "Random sequence entries choose primitives with the given probabilities (uniformly if none, and renormalised over the usable ones), draw every parameter uniformly from its range and "
     "choose uniformly among the allowed qubit lists (or among all ordered lists of distinct qubits). Layers are ordered uniformly at random, and random operations are "
     "Haar-distributed; successive draws are independent and fresh.",
     ["inputs", "histories"], "all primitive sets and probability vectors; frequencies over many draws",
     "Tests never measure a frequency.",
     [CC, PUP, U], [("np.random.choice / shuffle / random_sample use", CC), ("random_value", PUP), ("Unitary.random", U)],
     ["frequencies over large samples of Compiler.create_random_sequence_entry, create_random_layer, random_value, Unitary.random"])

prop("C15", "Product formulas split the evolution faithfully and converge",
     "An ideal sequence consists of the requested number of identical steps whose product is the exact evolution. A Trotter sequence applies, in each of the requested number of steps, every term "
     "exactly once for time/steps at full strength, in the given order or, if randomized, in an independently shuffled order per step. Its distance from the exact evolution stays within the first-order "
     "commutator error bound and is zero for commuting terms.",
     ["inputs"], "all Hamiltonians (term counts, repeated or commuting terms, scales), times of either sign, step counts, random orders",
     "Tests check one Hamiltonian with 20 steps within 5 percent and its length, so missing, repeated or mis-scaled terms of small effect pass.",
     [HH], [("get_trotter_sequence, get_ideal_sequence", HH)], ["entries and products of the returned sequences"])

prop("C16", "QDRIFT samples terms by strength with the right step",
     "A QDRIFT sequence has exactly the requested number of entries, each evolving one normalised term for (sum of coefficients) * time / repetitions. Terms are drawn independently with "
     "probability proportional to their coefficient, each entry's label names the term it applies, and the sequence's mean effect converges to the exact evolution.",
     ["inputs", "histories"], "all Hamiltonians, times, repetition counts and random streams",
     "Tests check one draw of 1000 repetitions to 5 percent for two Hamiltonians.",
     [HH, HT], [("get_qdrift_sequence", HH)], ["entries of the returned sequence, frequencies over many sequences"])

prop("C17", "Hamiltonian STOQ and RAV compile only legal, truthful time steps",
     "STOQ compilation of a Hamiltonian's evolution and its RAV sequence contain only evolutions of single terms (or, if simultaneous terms are allowed, of any non-empty subset of them) on the whole system, "
     "each for a time of at most the maximum step in magnitude, and every label names the terms it applies. STOQ results meet the threshold to the exact evolution, and RAV "
     "results to the identity, unless the 10000-step limit was reached; the random part of a RAV sequence comes first, runs mostly forward and totals at least the requested time, overshooting by less than one step.",
     ["inputs", "histories"], "all Hamiltonians, times, step limits, thresholds, simultaneity settings and random streams",
     "Tests run one Hamiltonian per setting and look only at the final closeness.",
     [HH, CC], [("_get_unitary_primitives, _get_term_subsets, compile_rav_sequence", HH)],
     ["CompilerResult of compile_stoq_sequence and compile_rav_sequence"])

prop("C18", "RAV and XEB sequences have the requested shape and net effect",
     "A RAV sequence starts with exactly the requested number of random gates (layers if layered) followed by a compiled inverse, its total product is within the threshold of "
     "the identity unless the step limit was reached, and its costs are the distances of the whole product from the identity. With a threshold or step limit of zero, and for XEB, it is the random part alone with no costs; "
     "layered and XEB sequences consist of whole layers with the requested gate counts.",
     ["inputs", "histories"], "all primitive sets, lengths, layer counts, thresholds, step limits and random streams",
     "Tests use one configuration per generator and check length modulo layer size and final closeness.",
     [VV, CC, US], [("generate_rav_sequence, generate_layered_rav_sequence, generate_xeb_sequence", VV)],
     ["CompilerResult of the Verification generators"])

prop("C19", "Labels and exported circuit text describe the actual operations",
     "The QASM-like, JAQAL-like and display texts of a sequence list one line per entry in execution order, each with the name, qubits and parameter values (angles as multiples of pi where so documented, rounded to 7 "
     "digits, or 3 or 4 for display) of the operation actually applied, so the circuit rebuilt from the exported text has the sequence's product up to that rounding. Qubits are plain numbers, and "
     "operations marked as inverses are displayed with a dagger, in sequences as well.",
     ["inputs"], "all sequences over all gates, qubit placements and parameter values, hand-built, random or compiled",
     "Tests check that the text is non-empty and, for one gate without parameters, its exact form.",
     [U, US, UE, PU], [("get_qasm, get_jaqal, get_display_name", U), ("get_full_unitary carries name, parameters and qubits", UE)],
     ["get_qasm, get_jaqal, get_display_output"])

prop("C20", "Runs are reproducible from the random seed and independent of past use",
     "With the random generators in the same state and the same inputs, every generator, compiler and Hamiltonian method returns the same sequence and costs, in any process and whatever the same objects were "
     "used for before (for example, earlier compilations with the same compiler). Without reseeding, successive calls give fresh results; the library never reseeds or rewinds the generators.",
     ["histories", "configurations"], "all inputs and seeds, all earlier uses of the same objects, fresh processes with different hash seeds",
     "One test sets a seed; none compares two runs.",
     [CC, HH, VV], [("use of the global numpy and random generators only; per-compilation annealing state", CC)],
     ["fingerprints of results of repeated runs in one process, after other uses, and across processes"])

prop("C21", "Malformed inputs are rejected and leave no trace",
     "Non-unitary, non-square, wrongly sized or non-finite matrices, non-Hermitian or mismatched Hamiltonian terms, empty term lists, repeated, negative, out-of-range or wrongly many qubits, parameter values outside their "
     "range, reversed ranges, mismatched dimensions in products, distances, combinations and compilations, primitives larger than the system, and wrong object types raise an error instead of yielding a result. A rejected edit leaves the sequence, its product and its undo state as they were.",
     ["inputs", "fault_sequences"], "all malformed variants of valid inputs to every public entry point, at every point of an edit history",
     "Tests try eight malformed inputs and never look at the state afterwards.",
     [U, UE, US, UP, PU, PUP, HH, HT, CC, VV], [("assertions on entry to public constructors and methods", US)],
     ["exceptions from public entry points; state fingerprints after rejected edits"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
