#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation, seeded search over "
COMMON = (" The library is the real code compiled from /repo; its callers' threads, locks, hash seeds, clocks and scalar arithmetic are simulated, one seed is one exactly repeatable run, "
          "and a violation is minimised and written to a file that ./replay.sh reproduces. Interleavings are explored by random search, sequentially consistent, at basic-block granularity.")
C = {
 "C01": ("thread interleavings, each compared with the same calls run alone",
  "Every call of every interleaved run must return what the reference model says and what the same call returned when run alone (digest over all arrays), with deadlock and endless-call detection. Eigenpairs are compared by residual and spectrum, not bits."),
 "C02": ("panics, thread deaths, solver failures and refused requests, each compared with the run in which they never happened",
  "One to three calls of a run are made to fail at a scalar operation or solver call chosen by the seed; every other call must agree with the undisturbed run and the model, operands must be untouched, half-done in-place operations must leave valid storage."),
 "C03": ("histories of updates with failing arithmetic and concurrent callers, against a map model",
  "Every operation on a dictionary matrix is checked against an exact ordered-map model after each step, including failed ones."),
 "C04": ("hash seeds, process pasts and caller orders, each compared with a fresh process",
  "The same program is run in two processes with different hash seeds (getrandom is simulated), one of them after an unrelated past; all results must be bit-identical except dictionary order and eigenpairs. Address-space layout is fixed, so address-dependent results are only seen through hashing or allocation order."),
 "C05": ("conversion histories under interleaving and failures, against an exact reference model",
  "Shape, entries, order and repeated entries of every conversion are compared with the model. Shapes from 0x0 to 65536x65536 and (64-bit indices) 2^40, mostly below 70x70; up to 20,000 entries."),
 "C06": ("histories of in-place operations interrupted and interleaved, against an exact reference model",
  "The storage after every sort, duplicate summation, pruning and predicate is compared with the model, under locks when shared."),
 "C07": ("operand pairs, histories and failures, against an exact reference model", "All elementwise results are compared entry by entry in exact integer (or exactly representable float) arithmetic."),
 "C08": ("operand pairs, histories and failures, against an exact reference model", "All products are compared entry by entry in exact integer (or exactly representable float) arithmetic."),
 "C09": ("selections, histories and failures, against an exact reference model", "All selected, sliced, diagonal and single elements are compared with the model."),
 "C10": ("block shapes, histories and failures, against an exact reference model", "All stacked and composed matrices are compared with the model; grids whose rows have equal total width but different cuts are left open."),
 "C11": ("complex operands, histories and failures, against an exact reference model", "Two complex type combinations (exact ring elements and Complex64 with small integers)."),
 "C12": ("graphs, histories and schedules, against an independent component computation", "Partition, label range and count are compared with reachability closures computed by the model. The flag variant is only run on symmetric patterns."),
 "C13": ("graphs, start nodes, histories and schedules, against a checker of depth-first orders", "The order is accepted exactly if some depth-first search could give it and predecessors match; not tied to one implementation's child order (C04 pins repeatability)."),
 "C14": ("operation histories and failures, structural invariants after every call", "Every matrix handed out or edited is checked for pointer arrays, lengths and index ranges after every call of every run."),
 "C15": ("malformed requests placed in histories, with every other call checked for side effects", "Requests the model knows to be impossible must be refused in the right way (error or panic) and change nothing. Preconditions the API leaves open (e.g. unrepresentable sizes) are not tried."),
 "C16": ("rendered operands, failing formatters and histories, against parsed text", "Lines and cells are parsed back and compared with the stored entries; number formatting itself is C21."),
 "C17": ("interleavings of concurrent solver computations at every reverse-communication step, checked by residual and known spectrum", "Matrices of up to 130x130, in any storage, are built with a known spectrum, separated by factors of 1.3 or two; real ARPACK. Tolerances 1e-5 (values) and 1e-8 (residuals), relative to the largest."),
 "C18": ("solver failure statuses, malformed operands and panics at chosen solver steps, with all other computations checked", "The failing computation must not return eigenpairs; concurrent and later ones must succeed with correct results."),
 "C19": ("array-level routines along histories, against the same reference model as the matrix types", "Every exported routine that has a correct specification on valid arrays is called on the arrays of live matrices, with dirty accumulators where it accumulates."),
 "C21": ("rendered floating-point matrices over histories, failed calls and concurrent callers, against the stored values",
  "Cells of single, double and complex matrices at magnitudes from 2^-1000 to 2^600 are parsed back and compared with the stored value to half a unit of the sixth digit, with no more than six digits shown and the imaginary sign right. Special values (infinities, NaN) are not tried."),
 "C22": ("floating-point histories of sums and products that do round, against the exact value and the error bound of each element",
  "Elements are compared with their exact value in 128-bit integers; allowed is (terms+4) units of rounding times the sum of the terms' magnitudes (terms counted three times for products, for complex ones). Operands span up to 52 bits of magnitude; no overflow or underflow; rounded results are not used as operands of later calls."),
 "C23": ("histories over operands from tiny to very large, each call bounded in simulated steps and bytes",
  "Bounded progress in simulated time: every call must end within 400 simulated steps (basic-block edges), 500 bytes held and 2500 bytes allocated, copied or filled per unit of operand, result and multiplication count; some fifteen times what any call takes now, so smaller constant-factor losses pass."),
 "C20": ("editing histories with interleavings and failures, against an exact reference model", "Every object is compared with its model after every edit and again at the end of the run, so that aliasing or loss shows."),
}
checks = [{
  "property": k,
  "quick_cmd": f"./check.sh {k}",
  "thorough_cmd": f"./check.sh {k} thorough",
  "technique": SIM + t,
  "level": "exploration",
  "level_note": n + COMMON,
} for k, (t, n) in C.items()]
NA = [
]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
     "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "No hooks in /repo: all seams are interposed symbols, link-time wraps, the public scalar traits and compiler-inserted edge callbacks. `fix:` commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
