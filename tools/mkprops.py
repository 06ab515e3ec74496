#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One place to edit the property texts.
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

UNIT = "The 29 unit tests call each operation once, on one thread, on 3x3 to 6x6 literals with distinct entries; "

p("C01", "Concurrent callers never influence each other's results",
  "Any number of threads may call the library at the same time, on shared read-only operands or on separate data, eigenvalue solver included. Whatever the interleaving of the calls' internal steps, every call ends and returns what it returns when it is run alone with the same arguments (eigenpairs: up to rounding), and shared operands come out unchanged. No internal cache, scratch space, counter or lock may let one caller's call be seen in another's.",
  ["schedules", "programs", "histories"],
  "all interleavings, at basic-block granularity, of 2-4 caller threads each running a generated program of library calls on shared and private matrices",
  UNIT + "no test ever has two calls in flight, so no schedule is exercised at all.",
  ["src/eigen/real.rs", "src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/dok/dok.rs", "src/graph.rs"],
  [("All scratch space of a call is a local of that call", "src/row.rs (csr_matmat, csr_binop_csr_general, csr_sort_indices, csr_select), src/graph.rs"),
   ("A process-wide mutex serialises the non-reentrant Fortran solver", "src/eigen/real.rs MUTEX")],
  [("solver lock", "held while the Fortran solver's saved state belongs to one computation", "src/eigen/real.rs"),
   ("Fortran SAVE variables", "state of the reverse-communication iteration in flight", "arpack-ng dnaupd/dnaup2/dnaitr/dgetv0")],
  ["the return value of every public call, compared with the same call in a one-thread run"])

p("C02", "A call that fails leaves no trace in any other call",
  "A call may fail part-way: by returning an error, or by a panic raised in the caller's own scalar arithmetic, comparison or formatting, by index overflow, or by malformed operands. Afterwards its read-only operands are unchanged, and every other call, on any thread, during or after the failure, returns what it would have returned had the failed call never been made; nothing stays locked, poisoned or half-initialised. A matrix whose in-place operation failed part-way remains structurally valid.",
  ["fault_sequences", "schedules", "programs"],
  "all placements of scalar panics, thread deaths, malformed operands, solver failures and refused requests inside generated multi-threaded call histories",
  UNIT + "no test makes a call fail and then goes on using the library.",
  ["src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/dok/dok.rs", "src/eigen/real.rs", "src/csr/table.rs"],
  [("Results are built in fresh local buffers and only returned when complete", "src/row.rs, src/csr/csr.rs, src/csc/csc.rs"),
   ("In-place sort and merge write each slot before the pointer that exposes it", "src/row.rs csr_sort_indices, csr_sum_duplicates"),
   ("Validation before mutation", "src/dok/dok.rs set, src/csr/csr.rs select")],
  None, ["every call after an injected failure, compared with the fault-free run"])

p("C03", "A dictionary-of-keys matrix is an exact, atomic map of its updates",
  "After any history of set, add and sub on a dictionary-of-keys matrix, reading a position returns zero if nothing is stored there and otherwise exactly the value implied by the successful updates in order, and the number of stored entries, the iteration over them, the dense form, the text form and every conversion agree with that. An entry whose value becomes zero is no longer stored. An update out of range is refused with an error, and an update that fails for any reason changes nothing.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "all histories of updates and reads by several callers sharing one matrix under a lock, with injected failures inside updates, for wide and narrow index types",
  UNIT + "the only dictionary-of-keys tests convert one fixed matrix; no update history, overwrite, cancellation to zero or failed update is tried.",
  ["src/dok/dok.rs"],
  [("range check, then insert or remove as one map operation", "src/dok/dok.rs DoK::set"), ("add and sub are read-modify-set", "src/dok/dok.rs DoK::add, DoK::sub")],
  [("values", "coordinate to nonzero value", "src/dok/dok.rs")],
  ["get, nnz, deref iteration, to_dense, to_coo, to_csr, to_csc, to_string after each step"])

p("C04", "Results never depend on hash seeds or on the process's past",
  "Repeating the same calls on the same arguments gives the same result in every process and at every point of a process's life: same array contents, same storage order, same text, same component labels and same visiting order, whatever the random seeds of the hash tables used internally and whatever ran before. The only exceptions are the order in which a dictionary-of-keys matrix lists its entries and the low-order digits of the eigenvalue solver.",
  ["configurations", "histories", "programs"],
  "all hash seeds and all prefixes of other work, for every deterministic operation",
  UNIT + "the hash seed is drawn once per test process and a run is never compared with another one.",
  ["src/row.rs", "src/csr/table.rs", "src/dok/dok.rs", "src/graph.rs"],
  [("hash tables are only probed, never iterated, when an ordered result is produced", "src/row.rs csr_select, csr_count_diagonals, src/csr/table.rs"),
   ("conversion out of the dictionary format is canonicalised", "src/dok/dok.rs to_csr, to_csc")],
  None, ["full contents of every result, compared across runs with different hash seeds and different histories"])

p("C05", "Format conversions and transposes preserve the matrix",
  "Converting between dense, triplet, compressed-row, compressed-column and dictionary forms, and transposing, in any sequence, yields the same matrix (respectively its transpose), with the same shape, for every shape including empty ones. Triplets to compressed sums repeated coordinates and gives sorted, duplicate-free storage; between compressed formats and back to triplets every stored entry is kept, including repeated ones and explicit zeros, and a row/column conversion lists them in index order; from dense stores exactly the nonzeros.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all chains of conversions over generated matrices (unsorted, repeated, explicit zeros, 0-sized, up to several hundred rows, narrow index types), under concurrent callers and failing scalars",
  UNIT + "conversion tests use one small matrix per pair of formats, never repeated/unsorted input, empty shapes or chains.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/dok/dok.rs", "src/row.rs", "src/col.rs", "src/coord.rs"],
  [("counting sort by row/column pointer", "src/row.rs csr_tocsc, src/coord.rs coo_tocsr"), ("pointer expansion", "src/row.rs expandptr, csr_tocoo")],
  None, ["arrays and dense form of every converted matrix against the reference model"])

p("C06", "In-place canonicalisation keeps the matrix and reaches its form",
  "Sorting indices in place reorders each row's (column's) entries and nothing else; summing duplicates leaves sorted storage with each coordinate at most once holding the sum of its entries; dropping explicit zeros removes exactly the entries that are zero. None of them changes the matrix represented, and repeating one changes nothing. The sortedness and canonical-form predicates answer exactly whether the storage has that form, for every valid matrix.",
  ["inputs", "histories", "fault_sequences", "schedules"],
  "all histories interleaving in-place canonicalisation, value edits and reads on generated storage, with failures inside the in-place step",
  UNIT + "one test sums duplicates of one literal; empty rows, unsigned narrow indices, idempotence and interrupted steps are not tried.",
  ["src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs"],
  [("per-row stable sort through a scratch buffer", "src/row.rs csr_sort_indices"), ("two-pointer compaction", "src/row.rs csr_sum_duplicates, csr_eliminate_zeros"), ("predicates", "src/row.rs csr_has_sorted_indices, csr_has_canonical_format")],
  [("rowptr/colidx/values", "the storage compacted in place", "src/csr/csr.rs")],
  ["arrays before and after each in-place call; predicates on every matrix of the history"])

p("C07", "Addition, subtraction, negation and comparison are elementwise exact",
  "The sum, difference and negation of sparse matrices in every format, and the elementwise product, quotient, comparison, minimum and maximum building blocks, equal the elementwise operation on the matrices represented, whatever the order or repetition of stored entries in either operand. The compressed result of combining two compressed matrices holds each coordinate at most once and no entry that came out zero, and is sorted when both operands were canonical; the compressed sum of two triplet matrices is canonical. Operands are left unchanged.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all generated pairs of operands (canonical or not, with cancellation, one empty, one matrix with itself) along call histories with concurrent callers and failing scalars",
  UNIT + "addition is tested on one canonical pair; the general (non-canonical) path, cancellation, CSC subtraction and the comparison kernels are never run.",
  ["src/row.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/csc/csc.rs", "src/coo/std_ops.rs"],
  [("merge of two canonical rows, or linked-list accumulation", "src/row.rs csr_binop_csr_canonical, csr_binop_csr_general")],
  None, ["result arrays against the elementwise model"])

p("C08", "Products and scaling are exact on the matrices represented",
  "Matrix-vector, matrix-matrix and scalar products in every format, row and column scaling, and the accumulating and multi-vector building blocks equal the mathematical result for the matrices represented, whatever the order or repetition of stored entries. A compressed matrix product holds each coordinate at most once and no entry that cancelled to zero. Operands and input vectors are left unchanged.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all generated operand chains (rectangular, empty, repeated entries, cancelling products, dense rows) along call histories with concurrent callers and failing scalars",
  UNIT + "the product tests use one small canonical pair each; repeated entries, cancellation, empty dimensions, CSC scaling and multi-vector kernels are never run.",
  ["src/row.rs", "src/col.rs", "src/coord.rs", "src/util.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
  [("two-pass linked-list sparse product", "src/row.rs csr_matmat_maxnnz, csr_matmat"), ("axpy over rows/columns", "src/util.rs axpy, src/col.rs csc_matvecs")],
  [("next/sums", "per-call linked list and accumulator, cleared after every row", "src/row.rs csr_matmat")],
  ["result arrays/vectors against the model"])

p("C09", "Selections, slices, diagonals and element reads return exactly what is stored",
  "Selecting rows and columns by index lists (any order, repeats allowed, either list omitted) gives at each position the element of the source at the selected row and column, in the requested order; the same holds for submatrix, row-list, row-slice and column-list building blocks. The main (or offset) diagonal, the upper triangle and single-element reads agree with the matrix represented, repeated entries being summed. Selection refuses non-canonical storage with an error.",
  ["inputs", "histories", "schedules", "fault_sequences", "configurations"],
  "all generated index lists and matrices along call histories, with hash seeds, concurrent callers and failures varied",
  UNIT + "one selection without repeats and one diagonal are tested; repeated or empty index lists, rectangular shapes and repeated stored entries are not.",
  ["src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs"],
  [("per-row hash of stored columns", "src/row.rs csr_select"), ("scan of one row", "src/row.rs csr_diagonal, src/csr/csr.rs get")],
  None, ["result arrays against the model"])

p("C10", "Stacking and block composition place every block where it belongs",
  "Stacking two or three matrices horizontally or vertically, and composing 2x2 or 3x3 blocks, in every format that offers it, gives the matrix whose blocks are exactly the inputs at the right offsets, with the summed dimensions, including blocks with no rows, columns or entries and blocks used more than once. Blocks of unequal height side by side, and rows of blocks of unequal total width, are refused with an error and the inputs are left unchanged.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all generated block shapes and contents along call histories, valid and mismatched, under concurrent callers",
  UNIT + "stacking is tested on one pair of 3x3 literals; uneven, empty, repeated-entry and mismatched blocks are not.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs"],
  [("index shift by the sizes of earlier blocks", "src/coo/coo.rs v_stack, h_stack, compose"), ("shape checks first", "src/coo/coo.rs")],
  None, ["dense form of the result against the model"])

p("C11", "Complex parts, conjugates and adjoints are consistent",
  "Real part, imaginary part, conjugate and conjugate transpose of complex matrices in every format, and complex matrices built from real or imaginary parts, agree elementwise with the matrix they come from, keep its stored pattern (repeated entries and explicit zeros included), and can be recombined into it. Multiplying by a complex scalar scales every element.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all generated complex matrices along call histories, including user-defined complex scalars that fail",
  UNIT + "two fixed complex matrices are tested in row format only; triplet and column formats and user-defined complex types are not.",
  ["src/coo/ccoo.rs", "src/csr/ccsr.rs", "src/csc/ccsc.rs", "src/traits.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
  [("element map over a copied pattern", "src/csr/ccsr.rs, src/csc/ccsc.rs, src/coo/ccoo.rs")],
  None, ["result arrays against the model"])

p("C12", "Connected components are exactly the graph's components",
  "Labelling weak, strong or undirected components of a square matrix read as a graph (stored entries are edges) numbers the components 0..k-1 and gives two nodes the same label exactly when they are connected in that sense, for every graph, including no nodes, no edges, loops and repeated edges. The flag-vector variant does so for symmetric patterns, marking nodes without edges as belonging to none. A non-square matrix is refused with an error.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all generated graphs, up to several hundred nodes with long paths, nested cycles and forests, along call histories with concurrent callers",
  UNIT + "four fixed graphs of at most 6 nodes are tested; depth, nested cycles, empty graphs and repeated edges are not.",
  ["src/graph.rs", "src/csr/csr.rs"],
  [("Pearce's strong-components algorithm on shared stacks", "src/graph.rs connected_components_directed"), ("flood fill over A and its transpose", "src/graph.rs connected_components_undirected"), ("wavefront labelling", "src/graph.rs cs_graph_components")],
  [("labels/ss/stack_b", "node states doubling as lowlinks and stacks", "src/graph.rs")],
  ["component count and labels against a reachability model"])

p("C13", "Depth-first order is a true depth-first traversal",
  "From any start node, the traversal lists exactly the nodes reachable from it, each once, starting with it, in an order some depth-first search could visit them, and gives every other listed node the predecessor from which it was discovered and every unlisted node and the start none. Undirected traversal also follows entries backwards. A non-square matrix is refused with an error.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all generated graphs and start nodes along call histories with concurrent callers",
  UNIT + "depth-first order has no test at all.",
  ["src/graph.rs"],
  [("explicit node stack, children tried in storage order", "src/graph.rs depth_first_directed, depth_first_undirected")],
  [("root_list", "the path from the start to the current node", "src/graph.rs")],
  ["node list and predecessors, replayed against a depth-first stack"])

p("C14", "Every matrix handed out is structurally well formed",
  "Given valid operands, every matrix the library returns or updates in place has pointer arrays of the right length that start at zero, never decrease and end at the stored count, index and value arrays of exactly the stored count, and all indices within the shape, so that every accessor and every later operation agrees on what is stored. Constructors accept only array lengths consistent with this and do not let surplus array elements become entries.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "all results along generated histories, including constructor arrays longer than needed and in-place operations that failed",
  UNIT + "results are compared with a literal dense form; lengths, ranges and surplus storage are not looked at.",
  ["src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/row.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
  [("length checks in constructors", "src/csr/csr.rs CSR::new, src/csc/csc.rs CSC::new, src/coo/coo.rs Coo::new"), ("pruning after compaction", "src/csr/csr.rs prune, src/csc/csc.rs prune")],
  None, ["accessor arrays of every matrix of the history, after every step"])

p("C15", "Requests that make no sense are refused, and change nothing",
  "Arrays of inconsistent lengths, dense rows of unequal lengths, operands of incompatible shape, vectors of the wrong length, selection or update indices out of range (negative ones included), slices with step zero, non-canonical selection, non-square graphs or eigenproblems, and impossible numbers of eigenvalues are always refused, never answered with a matrix or vector: operations that return a result type return an error, operators panic. The refusal has no side effect: operands, shared state and later calls are unaffected.",
  ["inputs", "fault_sequences", "histories"],
  "all kinds of invalid request at any point of a generated history, boundary values in particular, on every format and index type",
  UNIT + "no test passes an invalid request.",
  ["src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/coo/std_ops.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/dok/dok.rs", "src/graph.rs", "src/eigen/real.rs"],
  [("argument checks at the head of each operation", "src/csr/csr.rs new, mat_vec, mat_mat, select; src/csc/csc.rs; src/coo/coo.rs stack; src/dok/dok.rs set; src/graph.rs validate_graph; src/eigen/real.rs eigs")],
  None, ["outcome of every invalid request; state of all operands afterwards"])

p("C16", "Text renderings list exactly the stored entries",
  "The string form of a triplet, row- or column-compressed or dictionary matrix has one line per stored entry giving its row, column and value, in storage order (any order for the dictionary), and nothing else. The table form of a canonical matrix has one line per row with one cell per column, holding the value where an entry is stored and a dash elsewhere. A failure while formatting a value affects no other rendering.",
  ["inputs", "histories", "fault_sequences", "schedules", "configurations"],
  "all matrices of generated histories, with failing formatters, hash seeds and concurrent callers varied",
  UNIT + "renderings of one or two literals are compared; empty shapes, wide tables, failing formatters and repeated entries are not.",
  ["src/csr/csr.rs", "src/csr/table.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/dok/dok.rs"],
  [("one line per entry", "src/csr/csr.rs to_string, src/csc/csc.rs to_string, src/coo/coo.rs to_string"), ("per-row column lookup and tab alignment", "src/csr/table.rs csr_table")],
  None, ["the text, parsed back and compared with the model"])

p("C17", "The eigenvalue solver returns true eigenpairs, whoever else is calling",
  "When the solver succeeds, every eigenvalue it returns comes with a nonzero vector satisfying the eigenvalue equation to solver accuracy, complex ones in conjugate pairs, and the eigenvalues are those of largest magnitude, as many as were asked for (one more when that completes a conjugate pair). On well-separated spectra it succeeds. This holds for any number of concurrent and successive calls on any matrices.",
  ["schedules", "inputs", "histories"],
  "all interleavings of 1-4 threads running generated eigenproblems (real and complex spectra, symmetric and not) at every reverse-communication step",
  UNIT + "the solver has no test; its Fortran state is process-wide, so only interleavings and call sequences can break it in ways a single call cannot show.",
  ["src/eigen/real.rs", "src/csc/csc.rs"],
  [("reverse-communication loop around matrix-vector products", "src/eigen/real.rs eigs"), ("process-wide solver lock", "src/eigen/real.rs MUTEX")],
  [("ido/ipntr/workd", "position of the iteration and where the next product is read and written", "src/eigen/real.rs")],
  ["eigenvalues and vectors: residuals and comparison with the constructed spectrum"])

p("C18", "Solver failures are reported and contained",
  "When an eigenvalue computation cannot be completed (the numerical library reports an error or no convergence, the matrix is malformed, or the product panics part-way) the caller gets an error or a panic, never made-up eigenpairs. Other computations in progress and all later ones, on any thread, still succeed with correct results; in particular no lock stays held or poisoned.",
  ["fault_sequences", "schedules", "histories"],
  "all placements of solver error codes, non-convergence, malformed matrices and panics at any solver step of histories with 1-4 calling threads",
  UNIT + "the solver has no test and no failure of it is ever provoked.",
  ["src/eigen/real.rs"],
  [("status checked after each phase", "src/eigen/real.rs eigs"), ("solver lock released on every path", "src/eigen/real.rs MUTEX")],
  [("solver lock", "poisoned if a panic unwinds through it", "src/eigen/real.rs")],
  ["outcome of the failing call and of all other solver calls of the run"])

p("C19", "The exported building blocks agree with each other and with the matrix types",
  "The exported array-level routines for row, column and triplet data give, on any valid arrays, the same matrix or vector as the corresponding operation of the matrix types: the canonical and general elementwise paths agree, single- and multi-vector products agree, row and column variants agree through transposition, accumulating routines add to what the output already holds, and counting routines predict the number of entries and the number of distinct diagonals.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all valid arrays generated along call histories (surplus output capacity, repeated/unsorted entries), under concurrent callers and failing scalars",
  UNIT + "almost none of the exported routines is called by a test.",
  ["src/row.rs", "src/col.rs", "src/coord.rs"],
  [("shared row kernels reused for columns with swapped dimensions", "src/col.rs"), ("canonical fast path", "src/row.rs csr_binop_csr")],
  None, ["output arrays against the model and against the sibling routine"])

p("C20", "Building and editing a matrix has exactly the requested effect",
  "A triplet matrix holds, in order, exactly the entries it was created with followed by those pushed or appended; writing through the mutable value view of any format changes exactly that stored value; negation, cloning, transposition and conversion produce independent matrices, so later edits of one never show in another. Diagonal, identity, empty and dense constructors give the matrix they describe.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all edit histories by several callers on shared (locked) and private matrices, with failures in between",
  UNIT + "no test edits a matrix after creating it.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs"],
  [("parallel growth of three arrays", "src/coo/coo.rs push, extend"), ("owned arrays, no sharing", "src/coo/coo.rs, src/csr/csr.rs, src/csc/csc.rs")],
  [("rowidx/colidx/values", "triplets in insertion order", "src/coo/coo.rs")],
  ["arrays of every live matrix after every edit"])

p("C21", "Number formatting in tables shows the right digits",
  "Numbers printed in the table form are the decimal rendering of the value rounded to six significant digits, with the sign of the imaginary part shown for complex values, in every build of the scalar type (single, double, complex) and after any history of operations and failed calls, and however many renderings are in flight.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all floating-point matrices of generated histories, at magnitudes from 1e-300 to 1e200, with callers and failures varied",
  UNIT + "tables of a few literals are compared.",
  ["src/traits.rs", "src/util.rs", "src/csr/table.rs"], [("shortest-digits library with a fixed configuration", "src/util.rs DEFAULT_FLOAT_CONFIG, src/traits.rs pretty_string")],
  None, ["the number in the cell parsed back and compared with the stored value to half a unit of its sixth digit"])

p("C22", "Floating-point rounding of sums and products stays within the usual bounds",
  "Sums and products of floating-point matrices (repeated entries summed, elementwise sums, differences and products, matrix-vector and matrix-matrix products, scalings, accumulating building blocks), real and complex, single and double precision, differ from the exact result by no more than the standard rounding-error bound for recursive summation of the terms that make up that one element, in any order: never by an amount set by other rows, other columns or earlier calls, however far apart the magnitudes. No entry is dropped unless its computed value is zero, and none is kept that is zero.",
  ["inputs", "histories"], "all finite floating-point operands without overflow or underflow",
  UNIT + "only exactly representable values are used.",
  ["src/row.rs", "src/util.rs", "src/coord.rs", "src/col.rs", "src/csr/csr.rs", "src/csc/csc.rs"], [("plain left-to-right accumulation, one accumulator per element", "src/row.rs, src/util.rs")],
  None, ["every element against the exact sum of its terms in 128-bit integers, with the sum of the terms' magnitudes as the yardstick"])

p("C23", "Work and memory are proportional to the stored entries",
  "Every call other than an eigenvalue computation ends within a number of steps, and holds an amount of memory, proportional (with small constants, up to a logarithm) to the rows, columns and stored entries of its operands and result; for products also to the scalar multiplications done, for the dense form to its size, and for selections by lists to the pairs asked for. Never to rows times columns, nor to the square of anything else. Failed calls cost no more than that either, and no history of earlier calls makes a call dearer.",
  ["inputs", "histories", "fault_sequences"], "all sizes up to 70000 rows and columns, 20000 entries and path graphs of 40000 nodes, after any history",
  UNIT + "sizes are tiny and nothing is measured.",
  ["src/row.rs", "src/coord.rs", "src/col.rs", "src/graph.rs", "src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/dok/dok.rs"],
  [("counting sort and linked-list accumulation", "src/row.rs"), ("explicit stacks", "src/graph.rs")],
  None, ["basic-block steps and peak bytes of each call in the simulator's clock and allocator"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
