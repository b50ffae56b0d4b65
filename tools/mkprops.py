"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Work is divided completely, in order and evenly",
  "For any list of tasks, any non-negative task weights and any number of workers, the assignment has exactly one entry per worker and, read worker after worker, lists every task exactly once in the original order, the last worker taking whatever is left. "
  "Each earlier worker in turn takes the non-empty run of consecutive remaining tasks whose total weight is closest to an equal share of the remaining weight among the remaining workers, so with equal weights the numbers of tasks differ by at most one. "
  "The answer is the same on every worker, and an assignment is reported as containing an empty worker exactly when some worker has no tasks.",
  ["inputs", "configurations"],
  "all task lists (empty, shorter than, equal to, longer than the number of workers), all weights including zeros and very uneven ones, all worker counts",
  "The tests try one list length per run and only the worker counts 1 and 3; they never give zero weights, trailing tiny weights or fewer tasks than workers with weights.",
  ["modred/parallel.py"],
  [("find_assignments greedy split", "modred/parallel.py:find_assignments"), ("check_for_empty_tasks", "modred/parallel.py:check_for_empty_tasks")],
  ["return value on every worker"])

prop("C02", "Inner-product arrays are exact for every distribution of the work",
  "For any lists of row and column vectors, any number of workers and nodes and any memory limit, the computed array has one row per row vector and one column per column vector and element (i, j) is the inner product of row vector i with column vector j, with the row vector as the first argument, including complex data, more rows than columns and vectors of mixed numeric type. "
  "Every worker returns the same array.",
  ["inputs", "configurations", "schedules"],
  "all row/column counts >= 1, worker counts, node counts, memory limits, vector and handle types, message schedules",
  "Tests use one serial and one 3-worker layout with a few fixed counts; chunk boundaries, idle workers, transposed and complex cases with small memory limits combine in far more ways.",
  ["modred/vectorspace.py", "modred/parallel.py"],
  [("ring pass of column vectors", "modred/vectorspace.py:VectorSpaceHandles.compute_inner_product_array"), ("final sum over workers", "modred/reductions.py:Intracomm.allreduce")],
  ["return value on every worker"])

prop("C03", "Symmetric inner-product arrays equal the full pairwise array",
  "For any list of vectors, worker and node count and memory limit, the symmetric computation returns on every worker the square array whose element (i, j) is the inner product of vector i with vector j, Hermitian, including complex data, zero inner products and vectors of mixed numeric type.",
  ["inputs", "configurations", "schedules"],
  "all vector counts >= 1, worker counts (odd and even, more or fewer than vectors), node counts, memory limits, message schedules",
  "The triangle / pair-exchange / rectangle decomposition has different cases for odd and even numbers of active workers, partial last chunks and idle workers; tests cover 1 and 3 workers only.",
  ["modred/vectorspace.py"],
  [("triangles, pair exchange among active workers, ring for rectangles, symmetrisation", "modred/vectorspace.py:VectorSpaceHandles.compute_symm_inner_product_array")],
  ["return value on every worker"])

prop("C04", "Linear combinations put exactly the requested sums",
  "For any basis vectors, coefficient array (2D, or 1D for a single sum or a single basis vector) and choice of columns in any order with repetitions, output handle k receives the sum over all basis vectors of coefficient times basis vector for the k-th requested column, whatever the worker count, node count and memory limit. "
  "No handle other than the given output handles is written, and basis vectors are never altered.",
  ["inputs", "configurations", "schedules"],
  "all basis and sum counts, coefficient shapes, column selections, worker counts, node counts, memory limits, schedules",
  "Tests compute a handful of random sums with 1 and 3 workers; selections with repeats or permutations, partial chunks and idle workers are not enumerated.",
  ["modred/vectorspace.py"],
  [("layers summed around the ring", "modred/vectorspace.py:VectorSpaceHandles.lin_combine"), ("column slicing", "modred/vectorspace.py:VectorSpaceHandles.lin_combine")],
  ["vectors given to put on the output handles", "files written"])

prop("C05", "Distributed operations never deadlock and match every message",
  "Every distributed operation terminates on every worker under every message schedule, whether or not the message-passing layer buffers sends: no set of workers can end up waiting for each other, all workers take part in the same collective calls in the same order, and no message is left undelivered. "
  "The results do not depend on the schedule.",
  ["schedules", "configurations"],
  "all interleavings of workers, buffered and unbuffered sends, worker counts, vector counts, memory limits, over inner products, linear combinations, derivatives, reductions and whole decompositions",
  "A test run exhibits one schedule chosen by the MPI library, which buffers small messages; an unbuffered-send deadlock or a message race never shows up with tiny test vectors.",
  ["modred/vectorspace.py", "modred/reductions.py", "modred/parallel.py"],
  [("non-blocking send, receive, wait, barrier", "modred/vectorspace.py:VectorSpaceHandles"), ("point-to-point reduction tree", "modred/reductions.py:Intracomm.reduce"), ("collective broadcast", "modred/parallel.py:call_and_bcast")],
  ["termination of every worker", "messages in flight at return"])

prop("C06", "Outputs are complete when a distributed call returns",
  "When a distributed computation of sums, modes or time derivatives returns on any worker, every output vector has already been put, exactly once over all workers, so it can be read back by any worker. "
  "When a call that saves an array returns on any worker, the array has been written exactly once, by worker zero only.",
  ["schedules", "configurations"],
  "all worker speeds and schedules, worker counts, output counts, every saving method of every decomposition and model class",
  "With one fast machine the other workers have practically always finished when one returns, so a missing final synchronisation is invisible to tests.",
  ["modred/vectorspace.py", "modred/pod.py", "modred/bpod.py", "modred/dmd.py", "modred/ltigalerkinproj.py"],
  [("barrier before return", "modred/vectorspace.py:VectorSpaceHandles.lin_combine"), ("rank-zero put then barrier", "modred/pod.py:PODHandles.put_eigvals and siblings"), ("barrier after derivatives", "modred/ltigalerkinproj.py:compute_derivs_handles")],
  ["order of put calls and returns over all workers"])

prop("C07", "The vector memory budget is respected",
  "While computing inner products or linear combinations, the number of vectors a worker holds at any instant never exceeds its share of the configured per-node limit (limit times nodes divided by workers, rounded down, and never less than three) by more than the few (at most three) temporaries of a single vector operation, no matter how many vectors are processed. "
  "A limit too small for three vectors per worker is raised to three per worker.",
  ["inputs", "configurations"],
  "all vector counts, memory limits, node counts and worker counts",
  "Tests check results, never how many vectors are alive; a change that loads everything at once passes them all.",
  ["modred/vectorspace.py"],
  [("chunk sizes from max_vecs_per_proc", "modred/vectorspace.py:VectorSpaceHandles.__init__"), ("chunked loops", "modred/vectorspace.py")],
  ["live vector objects per worker", "the per-node and per-worker limits of the vector space object"])

prop("C08", "Reductions equal the rank-ordered fold of all contributions",
  "For any number of workers, any associative operation (commutative or not) and any root, the custom reduce returns on the root, and only there, the contributions of all workers combined in rank order, allreduce returns it on every worker, scan returns on worker r the combination of contributions 0..r and exclusive scan that of 0..r-1 (none on worker 0). "
  "Minimum/maximum-with-location return the extreme value together with the lowest rank holding it, no worker's contribution is altered, and successive reductions never mix.",
  ["inputs", "configurations", "schedules"],
  "all worker counts (also not powers of two), roots, operations, contribution types, schedules, sequences of reductions",
  "Only allreduce(SUM) with 3 workers is exercised indirectly; other roots, sizes, non-commutative operations, scan and exscan are untested.",
  ["modred/reductions.py"],
  [("binomial tree over rank bits", "modred/reductions.py:Intracomm.reduce"), ("hypercube exchange", "modred/reductions.py:Intracomm.scan, exscan")],
  ["return value on every worker"])

prop("C09", "Worker-zero helpers act once and every worker agrees",
  "A function handed to call-on-worker-zero helpers runs exactly once, on worker zero, with the given arguments; the broadcasting helpers return its result (or the value worker zero supplied) on every worker, the non-broadcasting helper returns nothing elsewhere, and printing helpers print once to the requested channel. "
  "Loading any saved array into a decomposition object calls the user's loader once, on worker zero, and leaves all workers with identical values; worker count, rank and node queries are consistent with the actual layout; without mpi4py everything works as on a single worker.",
  ["inputs", "configurations", "schedules"],
  "all arguments and results, all worker/node layouts, every loading method of every class",
  "Tests run with one node and at most three workers and do not count calls or compare workers for most loading methods.",
  ["modred/parallel.py", "modred/pod.py", "modred/bpod.py", "modred/dmd.py", "modred/vectorspace.py"],
  [("rank test plus broadcast", "modred/parallel.py:call_and_bcast, bcast, call_from_rank_zero"), ("node identification", "modred/parallel.py:get_num_nodes")],
  ["calls made per worker", "return values per worker", "text printed per worker"])

prop("C10", "Vector handles return scale times (stored minus base), always current",
  "For any sequence of gets and puts made through vector handles (in memory, text file or pickle file), reading a handle returns the most recently put vector, minus the current value of its base handle if it has one (itself read through its own base and scale), times its scale if it has one. "
  "This stays true when handles share, alternate, nest or overwrite base vectors, and, for vectors in files in a distributed run, when different workers put and read them one after another; reading never changes what is stored.",
  ["histories", "inputs"],
  "all interleaved histories of get and put over several handles by one or several workers with shared, different, nested and overwritten base handles and scales",
  "Tests read each handle once with one base vector; the process-wide base cache only misbehaves after particular sequences of reads and writes over several handles and workers.",
  ["modred/vectors.py"],
  [("base vector cache shared by all handles", "modred/vectors.py:VecHandle.get"), ("invalidation on put", "modred/vectors.py:VecHandle.put")],
  ["vectors returned by get"],
  [("cached base vector", "last base vector read, and its handle", "modred/vectors.py:VecHandle")])

prop("C11", "Saved arrays are read back unchanged",
  "Any 1D or 2D numeric array (real, complex, integer, single precision, any memory order, strided or sliced, any delimiter) saved as text is read back with the same values and shape, 1D arrays as a column, when loaded with the matching real/complex setting and delimiter; vectors put through text or pickle handles read back equal. "
  "The text holds one line per row, complex entries as adjacent real and imaginary numbers; loading as complex a file with an odd number of columns, and saving more than two dimensions, raise errors.",
  ["inputs"],
  "all shapes, dtypes, memory layouts, magnitudes (including subnormal, huge and infinite values) and delimiters",
  "Tests round-trip a few C-ordered random double arrays.",
  ["modred/util.py", "modred/vectors.py"],
  [("interleaved view as floats", "modred/util.py:save_array_text, load_array_text")],
  ["file contents", "values returned by load"])

prop("C12", "A decomposition can be saved and resumed elsewhere",
  "For POD, balanced POD, DMD and total-least-squares DMD objects, every array saved by an object and loaded by a fresh one has the same values, and modes, projection coefficients and spectra computed by the fresh object equal those of the original, for any number of modes including one, real or complex data and any worker count. "
  "Each saving method writes the quantity it is named for to the destination it was given.",
  ["histories", "inputs", "configurations"],
  "all save/load/compute orders over the four decomposition classes, single- and multi-mode decompositions, real and complex data, worker counts",
  "Tests never load a one-mode decomposition and compare only the attributes they just set, not what is computed afterwards by a fresh object.",
  ["modred/pod.py", "modred/bpod.py", "modred/dmd.py"],
  [("get_decomp / put_decomp and single-array methods", "modred/pod.py:PODHandles, modred/bpod.py:BPODHandles, modred/dmd.py:DMDHandles, TLSqrDMDHandles")],
  ["arrays handed to the user's put function", "modes and coefficients computed after loading"])

prop("C13", "POD yields the orthonormal, energy-ordered modes of the data",
  "For any real or complex data and inner-product weights, the POD eigenvalues are those of the weighted correlation array, positive and in descending order, truncated exactly at the absolute and relative tolerances; the modes are orthonormal in the weighted inner product, eigenvalue k being the energy along mode k, and modes times projection coefficients reproduce the data (its best approximation when truncated). "
  "The array snapshot method, the array direct method and the handle-based computation agree (modes up to a unit factor), and mode selections return exactly the selected modes in the requested order.",
  ["inputs", "configurations"],
  "all data shapes (tall, wide, rank deficient, single vector), real and complex, no/1D/2D weights, tolerances and mode selections; all worker counts for handles",
  "The array-function tests do not even run with current numpy; the others use random full-rank data with default tolerances.",
  ["modred/pod.py", "modred/util.py", "modred/vectorspace.py"],
  [("eigendecomposition of the correlation array", "modred/pod.py:compute_POD_arrays_snaps_method, PODHandles.compute_decomp"), ("weighted SVD", "modred/pod.py:compute_POD_arrays_direct_method")],
  ["returned arrays", "modes put"])

prop("C14", "Balanced POD yields bi-orthogonal modes and Hankel singular values",
  "For impulse-response snapshots of any linear system with any numbers of inputs and outputs (real or complex, any weights), the Hankel array equals the inner products of adjoint with direct snapshots, its singular values are returned in descending order truncated at the tolerances, and direct and adjoint modes are bi-orthonormal. "
  "Projecting the system on the modes gives a reduced model which reproduces the impulse response when no nonzero singular value is dropped; the array and handle versions agree and mode selections are honoured.",
  ["inputs", "configurations"],
  "all linear systems, input/output counts, snapshot counts, weights, tolerances and mode selections; all worker counts for handles",
  "The array version has no running test; handle tests use fixed sizes with one tolerance.",
  ["modred/bpod.py", "modred/util.py"],
  [("block-Hankel assembly from first and last snapshots", "modred/bpod.py:compute_BPOD_arrays, BPODHandles.compute_decomp"), ("Hankel_chunks", "modred/util.py:Hankel_chunks")],
  ["returned arrays", "modes put"])

prop("C15", "DMD recovers the linear map behind the data",
  "For data advanced by a linear map (sequential, or as pairs of data and advanced data; real or complex; any weights), the DMD eigenvalues are the eigenvalues of the map restricted to the data, exact and projected modes are corresponding eigenvectors, adjoint modes are bi-orthonormal to the projected modes, projection coefficients reproduce the data and the advanced data, and spectral coefficients are the magnitudes of the first snapshot's coefficients. "
  "Tolerances and the maximum number of eigenvalues limit the decomposition to the leading correlation eigenvalues, mode selections are honoured, and the array snapshot method, array direct method and handle version agree.",
  ["inputs", "configurations"],
  "all linear maps, sequential and paired data, weights, tolerances, eigenvalue caps and mode selections; all worker counts for handles",
  "The array-function test does not run with current numpy; handle tests use one random system, default tolerances and no eigenvalue cap variations.",
  ["modred/dmd.py", "modred/util.py"],
  [("low-order map from correlation arrays", "modred/dmd.py:compute_DMD_arrays_snaps_method, compute_DMD_arrays_direct_method, DMDHandles")],
  ["returned arrays", "modes put"])

prop("C16", "Total-least-squares DMD recovers the map and projects symmetrically",
  "For data advanced by a linear map, total-least-squares DMD returns the map's eigenvalues with corresponding exact and projected modes, adjoint modes bi-orthonormal to the projected ones, and spectral and projection coefficients that reproduce the projected data and advanced data. "
  "With noise it equals DMD of data and advanced data projected on the leading eigenvectors of the sum of the two correlation arrays, with tolerances and eigenvalue caps applied to both; array snapshot, array direct and handle versions agree.",
  ["inputs", "configurations"],
  "all linear maps, noisy data, sequential and paired data, weights, tolerances, caps and mode selections; all worker counts for handles",
  "Tests compare against a re-implementation for one random data set per run; complex, truncated and capped combinations are barely covered.",
  ["modred/dmd.py"],
  [("projection by summed correlation eigenvectors", "modred/dmd.py:compute_TLSqrDMD_arrays_snaps_method, compute_TLSqrDMD_arrays_direct_method, TLSqrDMDHandles")],
  ["returned arrays", "modes put"])

prop("C17", "Results depend only on the current inputs, not on past use",
  "Whatever sequence of decompositions, mode and coefficient computations, saves, loads and reductions is performed on one decomposition, model-reduction or vector-space object, each result equals what a fresh object given the current data would produce. "
  "Replacing the data (including going from paired to sequential data, other sizes, or other worker counts of handles) leaves no trace of earlier data, and two objects never influence each other.",
  ["histories"],
  "all histories of public calls on POD, balanced POD, DMD, total-least-squares DMD, ERA and Galerkin-projection objects and over several objects at once",
  "Each test uses one fresh object for one decomposition.",
  ["modred/pod.py", "modred/bpod.py", "modred/dmd.py", "modred/era.py", "modred/ltigalerkinproj.py", "modred/vectors.py"],
  [("stored handles and arrays overwritten by each decomposition", "modred/dmd.py:DMDHandles.compute_decomp"), ("remembered projection array", "modred/ltigalerkinproj.py:_get_proj_array"), ("ERA defaults", "modred/era.py:ERA.compute_model")],
  ["results of each call compared with a fresh object"],
  [("stored vector handles, decomposition arrays", "data of the last decomposition", "modred/pod.py, modred/bpod.py, modred/dmd.py")])

prop("C18", "ERA models reproduce the impulse response",
  "For the impulse response of any discrete-time linear system, with any numbers of inputs and outputs and any admissible Hankel sizes, the Hankel arrays hold Markov parameters i+j and i+j+1 in their blocks, the singular values are those of the Hankel array, and a model of full order reproduces every Markov parameter. "
  "Hankel sizes given to the object or to the call are honoured, defaults are equal and maximal, converting samples 0,1,2,3,... duplicates them as 0,1,1,2,2,3,..., and data with unequal spacing or too few samples is rejected with an error.",
  ["inputs", "histories"],
  "all systems, input/output counts, series lengths, Hankel sizes, one- to three-dimensional Markov arrays, real and complex",
  "Tests use stored systems with default Hankel sizes and long responses.",
  ["modred/era.py"],
  [("Hankel assembly from interleaved samples", "modred/era.py:ERA._assemble_Hankel"), ("make_sampled_format", "modred/era.py:make_sampled_format")],
  ["returned model arrays", "stored Hankel arrays", "errors raised"])

prop("C19", "OKID recovers Markov parameters from input/output data",
  "For noise-free data of a discrete-time linear system at rest initially, whose observer can be made deadbeat within the requested number of Markov parameters, and sufficiently rich inputs, OKID returns the direct term followed by the system's Markov parameters in order, indexed by time, output and input. "
  "Mismatched numbers of input and output samples are rejected.",
  ["inputs"],
  "all systems, numbers of inputs and outputs, sample counts, numbers of Markov parameters, row or flat signals",
  "Tests load a few stored data sets and compare with loose tolerances.",
  ["modred/okid.py"],
  [("least-squares observer Markov parameters and recursion", "modred/okid.py:OKID")],
  ["returned Markov parameters"])

prop("C20", "Galerkin projection gives the projected system",
  "For any basis and adjoint basis (orthonormal or not, any weights, real or complex), the reduced arrays are (adjoint* W basis)^-1 adjoint* W times A applied to the basis and B applied to the standard basis, and C applied to the basis; with orthonormal bases declared the inverse factor is the identity. "
  "Array and handle versions agree for any worker count, and time derivatives of vectors are (advanced - current)/dt for each vector.",
  ["inputs", "configurations"],
  "all systems and bases, orthonormal or not, with or without adjoint basis, weights, worker counts, dt",
  "Tests use random data of fixed size with 1 and 3 workers.",
  ["modred/ltigalerkinproj.py"],
  [("inner products with adjoint basis and inverse projection array", "modred/ltigalerkinproj.py:LTIGalerkinProjectionArrays, LTIGalerkinProjectionHandles"), ("compute_derivs", "modred/ltigalerkinproj.py:compute_derivs_handles, compute_derivs_arrays")],
  ["reduced arrays on every worker", "derivative vectors put"])

prop("C21", "Simulation and impulse response follow the state recursion",
  "For any discrete-time system, simulated outputs are y(n) = C x(n) with x(n+1) = A x(n) + B u(n) from the given (or zero) initial condition, one output row per input row, and the impulse response lists C B, C A B, C A^2 B, ... indexed by time, output and input, with exactly the requested number of steps.",
  ["inputs"],
  "all system sizes including single input/output and nilpotent systems, input sequences, initial conditions and step counts",
  "Tests use stable random systems with one initial condition and fixed lengths.",
  ["modred/util.py"],
  [("wrapping of scipy simulation", "modred/util.py:lsim, impulse")],
  ["returned outputs"])

prop("C22", "Hankel arrays have constant skew diagonals",
  "A Hankel array built from a first column and last row has element (i, j) equal to entry i+j of the column continued by the row (the row's first entry ignored, zeros when no row is given), for any lengths; the block version has the same structure at block level for blocks of any shape.",
  ["inputs"],
  "all column and row lengths (including one), element types, block shapes and numbers of blocks",
  "Tests use a few fixed sizes.",
  ["modred/util.py"],
  [("index sums and block rows", "modred/util.py:Hankel, Hankel_chunks")],
  ["returned array"])

prop("C23", "Matrix decompositions are correct and truncated exactly at the tolerances",
  "The singular value and Hermitian eigenvalue wrappers return factors that satisfy their defining equations, sorted by descending magnitude, keeping exactly the values larger than the absolute tolerance and whose ratio to the largest exceeds the relative tolerance; when positive definiteness is declared no negative value is kept and every value above the largest negative magnitude and the tolerances is. "
  "The bi-orthogonal eigenvalue wrapper returns eigenvalues with right and left eigenvectors normalised so that left* right is the identity, scaling only the side requested.",
  ["inputs"],
  "all shapes, ranks, real and complex arrays, tolerances (none, absolute, relative, both, exactly at a value), indefinite arrays, scale choices",
  "Tests use random arrays and one tolerance setting each; combined tolerances, boundaries and missing tolerances are not covered.",
  ["modred/util.py"],
  [("sorting and counting against tolerances", "modred/util.py:svd, eigh"), ("scale factors", "modred/util.py:eig_biorthog")],
  ["returned factors"])

prop("C24", "Signal files are read as time plus channels, consistently",
  "Loading a signal file returns its first column as time and all further columns as signals in order; loading several files returns their signals indexed by file, time and channel in the given order, and fails if time values differ between files or a file has no signal column.",
  ["inputs"],
  "all numbers of files, channels and rows (including a single row), delimiters, and inconsistent inputs",
  "Tests load a few files of one shape.",
  ["modred/util.py"],
  [("load_signals, load_multiple_signals", "modred/util.py:load_signals, load_multiple_signals")],
  ["returned arrays", "errors raised"])

prop("C25", "Invalid requests are refused before any output is written",
  "Mismatched numbers of handles, coefficients or data vectors, missing inner products or vector handles, unusable weights and scale choices, array-based methods called in a distributed run, and unavailable methods raise an error of the documented kind on every worker instead of returning, hanging or writing partial output. "
  "A request that is valid is never refused.",
  ["inputs", "configurations", "histories"],
  "all public entry points, kinds of invalid arguments and states of the object, worker counts",
  "Tests check a few of these errors, serially, and never that nothing was written or that all workers raise.",
  ["modred/vectorspace.py", "modred/pod.py", "modred/bpod.py", "modred/dmd.py", "modred/ltigalerkinproj.py", "modred/util.py"],
  [("explicit checks at entry", "modred/vectorspace.py, modred/dmd.py, modred/bpod.py, modred/ltigalerkinproj.py")],
  ["exceptions per worker", "put calls before the exception"])

prop("C26", "Balanced truncation balances the discrete-time system",
  "For a stable discrete-time system, balanced truncation returns a model whose controllability and observability Gramians are equal and diagonal with the Hankel singular values in descending order, which at full order has the same impulse response as the original system; the order argument keeps exactly that many leading states.",
  ["inputs"],
  "all stable systems, input/output counts, orders, with and without singular values returned",
  "The test checks one property of one random system with loose tolerances.",
  ["modred/util.py"],
  [("Gramians, SVDs and balancing transformations", "modred/util.py:balanced_truncation")],
  ["returned arrays"])

prop("C27", "Weighted inner products and combinations of array data are exact",
  "Array inner products equal v1* W v2 for no, 1D or 2D weights (diagonal weights giving the same result as the corresponding 2D array), conjugating the first argument; the trapezoidal inner product equals the trapezoidal-rule integral of conj(v1) v2 over any grids in dimension order, and both are conjugate-symmetric and linear in the second argument. "
  "Linear combinations of array data equal data times the selected coefficient columns.",
  ["inputs"],
  "all dimensions, grids (uneven, descending), weights of any size including one element, real and complex data, column selections",
  "Tests use a few random arrays; single-element weights, column weights, several dimensions with different grids are not all covered.",
  ["modred/vectorspace.py", "modred/vectors.py"],
  [("weighted products", "modred/vectorspace.py:VectorSpaceArrays"), ("nested trapezoidal sums", "modred/vectors.py:InnerProductTrapz")],
  ["returned values"])

prop("C28", "Computations leave their inputs untouched",
  "No public computation modifies the arrays, lists, vectors or handles given to it as input, and results handed out earlier do not change when further computations are made.",
  ["inputs", "histories"],
  "every public function and method, all argument types (arrays in any memory order, lists, handles), repeated and chained calls",
  "Tests never compare inputs before and after, and never re-check earlier results.",
  ["modred/util.py", "modred/vectorspace.py", "modred/pod.py", "modred/bpod.py", "modred/dmd.py", "modred/era.py", "modred/okid.py", "modred/ltigalerkinproj.py", "modred/vectors.py", "modred/reductions.py"],
  [("defensive copies and out-of-place arithmetic", "throughout modred")],
  ["inputs and earlier results before and after each call"])

prop("C29", "The sanity check accepts exactly the well-behaved vectors",
  "The sanity check of every handle-based class passes for any vector whose inner product is consistent with its addition and scalar multiplication and whose operations leave their operands unchanged, of any magnitude, real or complex. "
  "It raises an error when the inner product of twice the vector, of the vector plus itself or of twice the vector plus itself is inconsistent with that of the vector (beyond rounding: 1e-12, relative for inner products above one), "
  "or when scaling or adding alters the original vector so that its inner product with itself changes; a missing inner product is reported.",
  ["inputs"],
  "all vector classes, correct or with a faulty operation, magnitudes, real or complex, worker counts",
  "Tests try four faulty vectors of order one.",
  ["modred/vectorspace.py"],
  [("seven inner-product comparisons", "modred/vectorspace.py:VectorSpaceHandles.sanity_check")],
  ["exception or normal return"])

prop("C30", "Every route from data to a model leads back to the system",
  "For a stable, minimal linear system, the models obtained at the order of the system by ERA from its impulse response, by OKID and ERA from input/output data, by Galerkin projection onto balanced POD modes (bi-orthogonal, arrays or handles, any inner-product weights) or onto POD modes spanning the state space, and by balanced truncation all have the impulse response of the system. "
  "Below that order ERA and projection onto the same number of balanced POD modes of the corresponding snapshots give the same model up to a change of coordinates. DMD and total-least-squares DMD of states and their successors have the eigenvalues of the system.",
  ["inputs", "configurations"],
  "all stable minimal systems, real or complex, numbers of inputs and outputs, snapshots, weights, orders; arrays, handles on any number of workers and files",
  "No test connects two parts of the library: each is tested on random arrays of its own.",
  ["modred/era.py", "modred/okid.py", "modred/bpod.py", "modred/pod.py", "modred/dmd.py", "modred/ltigalerkinproj.py", "modred/util.py", "modred/vectorspace.py", "modred/vectors.py"],
  [("conventions shared between the parts: order of snapshots, blocks and indices, conjugation, sampling, scaling of modes", "modred/era.py, okid.py, bpod.py, pod.py, dmd.py, ltigalerkinproj.py")],
  ["models and eigenvalues returned by each route"])

prop("C31", "The elementary helpers mean what they say",
  "Two vector handles, vector spaces or values are equal exactly if they are of the same type and have the same path, contents, weights, or inner product and verbosity, with arrays compared by shape and by every element, and unequal otherwise. "
  "Arrays are made two-dimensional as rows or columns without changing elements; lists are flattened and summed element by element in order, and lists of different lengths are refused; a single object becomes a one-element list and an iterable is returned as it is. "
  "Files are listed exactly by the ending of their names, data members of an object are exactly its non-callable attributes, random state-space systems have the requested dimensions and real stable eigenvalues, and vectors subtract and scale consistently with their addition and multiplication; the block inner product holds the inner product of every pair, and a script runs in the namespaces it is given or in those of its caller.",
  ["inputs"],
  "all types, shapes, lengths, names and dimensions",
  "Tests try one or two values for some of the helpers, none for others.",
  ["modred/util.py", "modred/vectors.py", "modred/vectorspace.py"],
  [("small helper functions and equality methods", "modred/util.py, modred/vectors.py, modred/vectorspace.py:__eq__")],
  ["returned values"])

prop("C32", "Distributed work is shared at the documented cost",
  "The work of one distributed operation on vector handles is divided over the workers as documented, not repeated by each of them. With n_r rows, n_c columns, n_p workers and a share of max vectors per worker: "
  "an array of inner products costs each worker at most about n_r n_c / ((max-2) n_p^2) + n_r / n_p reads of vectors (the shorter list stays, the longer one travels) and n_r n_c / n_p inner products, "
  "and all workers together take every inner product once; a symmetric array takes only one triangle, apart from the pairs of blocks of opposite workers; "
  "n_s linear combinations of n_b basis vectors cost each worker at most about n_s n_b / ((max-2) n_p^2) reads and n_s n_b / n_p scalings and additions. "
  "All numbers are rounded up to whole vectors and groups, and a worker may do up to four operations more for timing and for determining data types.",
  ["inputs", "configurations", "schedules"],
  "all numbers of vectors, workers and nodes, memory limits, and vectors that occur repeatedly",
  "Tests check the arrays, never how they were come by: every worker could read everything and compute everything and all tests would pass.",
  ["modred/vectorspace.py"],
  [("documented numbers of reads, inner products and scalings", "modred/vectorspace.py:compute_inner_product_array, compute_symm_inner_product_array, lin_combine"),
   ("ring exchange of column or basis vectors", "modred/vectorspace.py"), ("assignment of rows and columns to workers", "modred/parallel.py:find_assignments")],
  ["reads of vectors, inner products, scalings and additions counted per worker"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
