#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "runtime monitoring: "
T = {
 "C01": ("invariant hook on every Unitary construction during whole-library workloads, plus representation oracle on constructor inputs",
         "Every operation constructed while the workload ran was finite, unitary, of declared dimension and determinant one, to 1e-7."),
 "C02": ("reference-model monitor (numpy matrix algebra) on every algebra call, with operand fingerprints",
         "Random operands up to dimension 32; equality up to phase to 1e-10."),
 "C03": ("metamorphic and reference-model monitor of distance and closeness calls",
         "Random, near-equal, phase-equal and trace-orthogonal pairs; thresholds around the true distance."),
 "C04": ("reference-model monitor of every gate constructor at special and random angles",
         "References are built from Pauli exponentials and bit actions, sharing no code with the library."),
 "C05": ("reference-model monitor (eigendecomposition exponential) of all evolution routes and term splits",
         "Norms 1e-3 to 1e3, times of both signs, 1-5 terms."),
 "C06": ("reference-model monitor (tensor contraction) of placements, exhaustive to 5 qubits, and of query-order histories",
         "All 289 ordered placements of up to 4 qubits in up to 5, then random up to 8 qubits with repeated queries."),
 "C07": ("invariant monitor over random edit histories, with twin executions under different query patterns",
         "Product compared with the recomputed product of entries after steps of random histories; 1-4 qubits."),
 "C08": ("online model checker of recorded histories (list with one saved state), entries read back after every operation",
         "Random histories and the four-step histories over short starts (a fifth of them quick, all thorough)."),
 "C09": ("reference-model monitor of combine and inverse over sequences with histories, before and after further edits",
         "Entries and both reported and recomputed products; aliasing through later edits of sources and results."),
 "C10": ("isolation monitor: byte-wise fingerprints of caller data around every public call, and mutation of handed-in and handed-out data",
         "Covers the objects named in the property; aliasing by reference of parameter dictionaries is out of scope."),
 "C11": ("trace monitor of compilations recovered state by state by prefix re-execution of the same random stream",
         "Stopping and costs judged at every step; states within 1e-10 of a threshold are not judged for stopping."),
 "C12": ("trace monitor decoding every entry of every intermediate compiled state, with extreme random draws injected",
         "Entry matrices recomputed from name, parameters and qubits."),
 "C13": ("online statistical trace checker of accept/reject and end choices on instrumented cost landscapes",
         "Impossible outcomes fail at once; frequencies at |z|>7, so a bias must exceed the resolution reported in the evidence."),
 "C14": ("statistical monitors over recorded random choices (frequencies, uniformity, independence, Haar moments)",
         "Frequencies at |z|>7; impossible choices fail at once."),
 "C15": ("trace checker of product-formula entries against exponentials of terms, and an analytic error-bound oracle",
         "1-3 qubits, 1-13 terms, 1-300 steps, times of both signs."),
 "C16": ("trace checker and statistical monitor of QDRIFT entries, labels and mean effect",
         "1-13 terms, 1-400 repetitions; term identity, step and label exact per entry; frequencies at |z|>7."),
 "C17": ("trace checker decoding every STOQ/RAV entry from its label and recomputing it, with cost and threshold oracles",
         "1-3 (rarely 9-13) terms on 1-2 qubits (small systems, because each compilation is stochastic and long)."),
 "C18": ("trace monitor of RAV/XEB runs recovered state by state by prefix re-execution",
         "Every intermediate state of short runs and the end of runs with the default step limit."),
 "C19": ("round-trip oracle: exported texts parsed back and the circuit rebuilt from text alone",
         "Values to their printed precision. One known finding: inverse markings are missing from QASM and JAQAL."),
 "C20": ("record/replay comparison of all random routines from one seed across objects, histories and processes, with generator-state monitors",
         "Thirteen routines; results compared by names, qubits, parameters and costs."),
 "C21": ("fault injection of malformed inputs at every public entry point and inside histories, with state monitors",
         "Any ordinary exception counts as rejection; state compared with the model after each rejected edit."),
}
checks = [dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"VERIF_TIER=thorough ./check {p}",
               evidence_file=f"evidence/{p}.json", technique=RM + t, level="exploration",
               level_note=note + " Assurance extends to the executions observed; trusts numpy and the reference mathematics in rv/ref.py.")
          for p, (t, note) in sorted(T.items())]
doc = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, sys; assert sys.version_info >= (3, 12)'", checks=checks, not_applicable=[],
           notes="Pure Python, no hooks in /repo: the checks import the library from /repo's working tree and instrument it from outside.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
