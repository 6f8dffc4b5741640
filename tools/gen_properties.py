#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are written here so that they
can be reviewed as text)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Task assignment is an order-preserving partition of the tasks',
  "For every list of tasks, every non-negative weighting of them and every number of workers, the assignment gives each worker a (possibly empty) run of consecutive tasks, and the runs put end to end, in worker order, are exactly the task list: nothing is lost, repeated or reordered. "
  "Each worker but the last takes the non-empty run from the first unassigned task whose weight is closest to an even share of the remaining weight among the remaining workers, the last takes everything left, and workers are empty only when no task is left, so empty workers always come last. "
  "The caller's task list and weights are not modified.",
  ['inputs', 'configurations'], 'all task lists, all non-negative weights (zero and tiny ones included), all worker counts',
  'The tests assign seven and four tasks to five, two and four workers; partition and balance must hold for every length, weighting and worker count.',
  ['modred/parallel.py'], [('find_assignments', 'modred/parallel.py')])

p('C02', 'Inner product arrays of vector handles have the right entry everywhere',
  "For all non-empty collections of row and column vectors, any memory limit per node and any number of workers, the array of inner products has, at row i and column j, the inner product of row vector i with column vector j (first argument conjugated), whichever collection is longer. "
  "Every worker receives the same complete array, and a single vector may be given instead of a collection. "
  "Nothing is put into any handle and no vector obtained from a handle is modified.",
  ['inputs', 'configurations', 'schedules'], 'all numbers of row and column vectors, all per-node memory limits, all worker counts, all real or complex inner products satisfying the documented axioms',
  'Tests use a few vector counts, one or three processes and one or two memory limits; chunking, transposition and ring exchange depend on divisibility relations among all four numbers.',
  ['modred/vectorspace.py', 'modred/parallel.py', 'modred/util.py'],
  [('VectorSpaceHandles.compute_inner_product_array', 'modred/vectorspace.py'), ('find_assignments', 'modred/parallel.py'), ('Intracomm.allreduce', 'modred/reductions.py')])

p('C03', 'Symmetric inner product arrays are complete, Hermitian and right everywhere',
  "For every non-empty collection of vectors, any memory limit and any number of workers, the symmetric inner product array has the inner product of vector i with vector j at row i, column j for all i and j, including both triangles and the diagonal, and it equals its own conjugate transpose. "
  "It agrees with the general inner product array of the collection with itself, and every worker receives the same complete array.",
  ['inputs', 'configurations', 'schedules'], 'all numbers of vectors, memory limits and worker counts, all real or complex inner products satisfying the documented axioms (entries that are zero included)',
  'The half-table algorithm skips and duplicates entries depending on the parity of the number of active workers, the chunk sizes and the remainder; the tests reach a handful of combinations on 1 or 3 processes.',
  ['modred/vectorspace.py', 'modred/parallel.py'],
  [('VectorSpaceHandles.compute_symm_inner_product_array', 'modred/vectorspace.py')])

p('C04', 'Linear combinations of vector handles are exact and each put exactly once',
  "For every collection of basis vectors, every coefficient array, every optional selection (or reordering, or repetition) of its columns, every memory limit and worker count, the k-th output handle receives exactly one put, of the sum over all basis vectors of (coefficient of that basis vector in the k-th selected column) times that vector. "
  "No other handle is written, the basis vectors and the coefficient array are unchanged, and inconsistent numbers of basis vectors, coefficients or outputs are refused with an error before anything is put.",
  ['inputs', 'configurations', 'schedules'], 'all numbers of bases and sums, coefficient arrays, column selections, memory limits and worker counts',
  'Tests check a few sizes; that no term is lost or counted twice depends on how chunks, ranks and ring passes tile the basis set for every size and limit.',
  ['modred/vectorspace.py', 'modred/parallel.py'],
  [('VectorSpaceHandles.lin_combine', 'modred/vectorspace.py')])

p('C05', 'Distributed reductions combine contributions in rank order, exactly once each',
  "For any number of workers and any associative (not necessarily commutative) operation, a distributed reduce delivers to the root, and an all-reduce to every worker, the combination of all workers' contributions in rank order, each used exactly once; a reduce delivers nothing to the other workers. "
  "An inclusive scan delivers to each worker the ordered combination of its own and all lower ranks' contributions, an exclusive scan that of strictly lower ranks (nothing on rank zero). "
  "Every message sent is received by its addressee, so none of these can deadlock or leave messages behind.",
  ['inputs', 'configurations', 'schedules'], 'all worker counts and ranks, all roots, all associative operations and contributions',
  'Tests run on 1 and 3 processes with sums of arrays; the binomial tree and hypercube exchange patterns differ for every worker count.',
  ['modred/reductions.py'],
  [('Intracomm.reduce', 'modred/reductions.py'), ('Intracomm.allreduce', 'modred/reductions.py'), ('Intracomm.scan', 'modred/reductions.py'), ('Intracomm.exscan', 'modred/reductions.py')])

p('C06', 'Rank-zero work runs once, on rank zero, and its result reaches every worker',
  "Calling a function through the broadcast helper runs it with the given positional and keyword arguments once, on rank zero only, and returns its result on every worker; broadcasting a value returns rank zero's value on every worker. "
  "The rank-zero-only call runs the function with its arguments on rank zero, returning its result there and nothing elsewhere. "
  "Without MPI, or with a single worker, all of these behave as the plain call or value.",
  ['configurations', 'inputs'], 'all worker counts and ranks, all functions, argument lists and values',
  'Tests observe one or three processes and a few argument lists.',
  ['modred/parallel.py'],
  [('call_and_bcast', 'modred/parallel.py'), ('bcast', 'modred/parallel.py'), ('call_from_rank_zero', 'modred/parallel.py')])

p('C07', 'Array inner products and linear combinations implement the weighted formulas',
  "For vectors stored as the columns of arrays, the inner product array is the conjugate transpose of the first times the weights times the second, where the weights are the identity when none are given, the diagonal array of a 1D weighting, or a full 2D weighting; the symmetric version is the same with both collections equal. "
  "A linear combination is the array of vectors times the coefficient array, restricted to the selected columns of coefficients, in the given order, if a selection is given. "
  "This holds for real and complex data and leaves the inputs unchanged.",
  ['inputs'], 'all array shapes (single vectors and vectors of length one included), real and complex data, no/1D/2D weights, all column selections',
  'Tests compare sample random arrays; the formulas must hold for every shape, data type and kind of weighting.',
  ['modred/vectorspace.py'],
  [('VectorSpaceArrays', 'modred/vectorspace.py')])

p('C08', 'Truncated decompositions keep exactly the significant part, consistently sorted',
  "The singular value decomposition, the Hermitian eigendecomposition and the biorthogonal eigendecomposition return matching values and vectors: orthonormal singular vectors satisfying A V = U S and A^* U = V S, orthonormal eigenvectors satisfying A V = V E, and right and left eigenvectors satisfying A R = R E, L^* A = E L^* and L^* R = I, the side chosen by the caller being rescaled and the other left at unit norm. "
  "Values come in decreasing order of magnitude, and exactly those are kept whose magnitude exceeds the absolute tolerance (if any) and, relative to the largest, the relative tolerance (if any). "
  "When the array is declared positive definite, eigenvalues no larger in magnitude than the most negative one are dropped as well, so every kept eigenvalue is positive.",
  ['inputs', 'configurations'], 'all arrays in the domain of the underlying LAPACK routine, all tolerances (including none), both scale choices',
  'Tests use random arrays with one or two tolerances; which entries are kept must be right for every spectrum and every combination of tolerances.',
  ['modred/util.py'], [('svd', 'modred/util.py'), ('eigh', 'modred/util.py'), ('eig_biorthog', 'modred/util.py')])

p('C09', 'POD modes are orthonormal and reproduce the projected data, by every method',
  "For all snapshots (real or complex) and any inner product, the snapshot, direct and handle-based methods give modes that are orthonormal in that inner product, that equal snapshots times eigenvectors times eigenvalues to the power -1/2, and whose projection coefficients equal the inner products of the modes with the snapshots; requested mode indices select and order the modes. "
  "The reported eigenvalues and eigenvectors are those of the snapshots' correlation array, which the snapshot and handle-based methods also report, and the caller's tolerances select which are kept. "
  "The mode vectors of the handle-based method are the ones put into the given mode handles.",
  ['inputs', 'configurations', 'histories'], 'all snapshot sets, real/complex, weights none/1D/2D or inner product functions, tolerances, mode selections',
  'The array tests of the suite do not even run on current numpy; the handle tests use random samples with one weighting.',
  ['modred/pod.py', 'modred/util.py', 'modred/vectorspace.py'],
  [('compute_POD_arrays_snaps_method', 'modred/pod.py'), ('compute_POD_arrays_direct_method', 'modred/pod.py'), ('PODHandles', 'modred/pod.py')])

p('C10', 'BPOD modes are biorthogonal and balance the Hankel array',
  "When the direct and adjoint snapshots come from impulse responses, so that the inner products of adjoint and direct snapshots have block Hankel structure, the Hankel array that balanced POD builds from first inputs and last outputs equals all inner products of adjoint with direct snapshots. "
  "The direct and adjoint modes are biorthonormal in the inner product, are snapshots times right (left) singular vectors times singular values to the power -1/2, and their projection coefficients are singular values to the power 1/2 times the conjugate-transposed right (left) singular vectors, namely the inner products of adjoint modes with direct snapshots and of direct modes with adjoint snapshots. "
  "This holds for the array and the handle-based methods, for any numbers of inputs and outputs, real or complex data, any weighting and any mode selection.",
  ['inputs', 'configurations'], 'all impulse-response snapshot sets, numbers of inputs and outputs, weights, tolerances, mode selections',
  'The array tests do not run on current numpy, and the handle tests sample a few sizes; block indexing must be right for every number of inputs, outputs and snapshots.',
  ['modred/bpod.py', 'modred/util.py'],
  [('compute_BPOD_arrays', 'modred/bpod.py'), ('BPODHandles', 'modred/bpod.py'), ('Hankel_chunks', 'modred/util.py')])

p('C11', 'DMD eigenvalues, modes, and coefficients satisfy the DMD relations',
  "For sequential data and for paired data, real or complex, any inner product and any truncation, the DMD eigenvalues and low-order eigenvectors are those of the low-order map E^-1/2 U^* X^*WY U E^-1/2 (E, U the kept eigenvalues and eigenvectors of X^*WX), the projected, exact and adjoint modes are X U E^-1/2 R, Y U E^-1/2 R Lambda^-1 and X U E^-1/2 L, and the adjoint modes are biorthonormal to both the projected and the exact modes. "
  "The projection coefficients are the inner products of the adjoint modes with the snapshots and the advanced snapshots, and the spectral coefficients are the magnitudes of the first projection coefficients. "
  "The snapshot, direct and handle-based methods all satisfy this, mode selections pick and order modes, and the caller's tolerances and maximum number of eigenvalues are honoured.",
  ['inputs', 'configurations', 'histories'], 'all data sets (sequential and paired), real/complex, weights, tolerances, maximum eigenvalue counts, mode selections, repeated use of one object',
  'The array tests do not run on current numpy, and the handle tests fix sizes, tolerances and one usage sequence.',
  ['modred/dmd.py', 'modred/util.py', 'modred/vectorspace.py'],
  [('compute_DMD_arrays_snaps_method', 'modred/dmd.py'), ('compute_DMD_arrays_direct_method', 'modred/dmd.py'), ('DMDHandles', 'modred/dmd.py')])

p('C12', 'Total-least-squares DMD is DMD of the data projected on the joint row space',
  "For sequential and paired data, real or complex, total-least-squares DMD gives the DMD eigenvalues, exact, projected and adjoint modes, spectral and projection coefficients of both data sets projected onto the kept eigenvectors of the sum of their two correlation arrays. "
  "The snapshot, direct and handle-based methods all satisfy this, with the caller's tolerances and maximum number of eigenvalues applied to both eigendecompositions, and mode selections picking and ordering modes.",
  ['inputs', 'configurations', 'histories'], 'all data sets (sequential and paired), real/complex, weights, tolerances, maximum eigenvalue counts, mode selections',
  'Tests sample one size with one tolerance; no test separates the two projections or exercises complex spectral coefficients for the snapshot method.',
  ['modred/dmd.py'],
  [('compute_TLSqrDMD_arrays_snaps_method', 'modred/dmd.py'), ('compute_TLSqrDMD_arrays_direct_method', 'modred/dmd.py'), ('TLSqrDMDHandles', 'modred/dmd.py')])

p('C13', 'Galerkin projection gives the oblique projection of the system operators',
  "For any basis and adjoint basis and any inner product, the reduced A and B are the inverse of the inner products of adjoint basis with basis vectors, times the inner products of adjoint basis vectors with the operator applied to the basis vectors (to the standard basis for B); with no adjoint basis given the basis is its own adjoint, and for a basis declared orthonormal the inverse factor is omitted. "
  "The reduced C is the output operator applied to each basis vector, one column per basis vector, and calling the reductions again or in any order gives the same arrays. "
  "Time derivatives are the differences of advanced and original vectors divided by the time step, one per pair.",
  ['inputs', 'configurations', 'histories'], 'all bases, operators, weights or inner products, time steps, orders of calls, worker counts',
  'Tests use one random system per variant.',
  ['modred/ltigalerkinproj.py'],
  [('LTIGalerkinProjectionArrays', 'modred/ltigalerkinproj.py'), ('LTIGalerkinProjectionHandles', 'modred/ltigalerkinproj.py'), ('compute_derivs_arrays', 'modred/ltigalerkinproj.py'), ('compute_derivs_handles', 'modred/ltigalerkinproj.py')])

p('C14', 'ERA builds the right Hankel arrays and a realization of the Markov parameters',
  "From Markov parameters in sampled format, block (i, j) of the two Hankel arrays is the Markov parameter at sample 2(i+j) and at sample 2(i+j)+1 respectively, for the requested (by default equal and maximal) Hankel dimensions; the reduced model is the balanced one obtained from the kept singular values and vectors. "
  "If the Markov parameters are those of a system C A^k B, the reduced model is an oblique projection of that system, and with enough states it reproduces the Markov parameters of the data. "
  "Converting an equally spaced time series to sampled format interleaves each Markov parameter with its successor, with the matching time steps, and refuses unequal spacing.",
  ['inputs', 'configurations'], 'all Markov parameter sequences, numbers of inputs/outputs/samples, Hankel dimensions and model orders',
  'Tests use two or three system sizes with default Hankel dimensions.',
  ['modred/era.py', 'modred/util.py'],
  [('ERA.compute_model', 'modred/era.py'), ('ERA._assemble_Hankel', 'modred/era.py'), ('make_sampled_format', 'modred/era.py')])

p('C15', 'OKID solves the observer least-squares problem and recovers Markov parameters',
  "The observer Markov parameters are the least-squares solution that explains each output sample by the current input and the inputs and outputs of the preceding requested number of samples (zero before the start), and the returned Markov parameters follow from them by the recursion M[0] = direct term, M[k] = input part k plus the sum over i = 1..k of output part i times M[k-i]. "
  "Hence, for data of a linear system that satisfies such an input-output relation exactly and excites it sufficiently, the returned values are that system's true Markov parameters. "
  "Single-channel 1D signals are treated as one row, inputs are not modified, and signals of different lengths are refused.",
  ['inputs'], 'all real input/output signals, numbers of channels, lengths, and numbers of Markov parameters',
  'Tests check one generated data set with loose tolerance.',
  ['modred/okid.py'], [('OKID', 'modred/okid.py')])

p('C16', 'Hankel arrays are constant along anti-diagonals, entrywise and blockwise',
  "A Hankel array built from a first column and a last row has as entry (i, j) element i+j of the column followed by the row without its first element, with a zero row when none is given. "
  "The block version does the same with equally sized blocks, for any number of block rows and block columns. "
  "Neither modifies its arguments.",
  ['inputs'], 'all column and row lengths, all block shapes and counts',
  'Tests sample a few sizes.',
  ['modred/util.py'], [('Hankel', 'modred/util.py'), ('Hankel_chunks', 'modred/util.py')])

p('C17', 'Linear system utilities obey the discrete-time state-space equations',
  "Balanced truncation of a stable discrete-time system returns an oblique projection of it in which, up to the requested order, both Gramians of the transformed system are diagonal and equal to the returned Hankel singular values. "
  "The simulated response satisfies x[k+1] = A x[k] + B u[k], y[k] = C x[k] from the given initial state, and the impulse response at step k is C A^k B. "
  "Generated random systems have the requested dimensions and stable dynamics.",
  ['inputs'], 'all stable systems, real or complex where supported, orders, inputs, initial states and numbers of steps',
  'Tests check shapes for the simulation and a loose match of impulse responses at full order.',
  ['modred/util.py'], [('balanced_truncation', 'modred/util.py'), ('lsim', 'modred/util.py'), ('impulse', 'modred/util.py'), ('drss', 'modred/util.py'), ('rss', 'modred/util.py')])

p('C18', 'Arrays and signals saved as text are loaded back unchanged',
  "Saving any 1D or 2D real, integer or complex array as text and loading it with the matching data kind and delimiter gives back the same values in the same layout, a 1D array coming back as one column; more dimensions, and complex loading of an odd number of columns, are refused. "
  "Loading a signal file gives its first column as times and the rest as signals, and loading several gives one slab per file, in order, and refuses files whose times disagree.",
  ['inputs'], 'all array values, shapes, memory layouts, number types and delimiters; all signal files',
  'Tests save a few random double-precision arrays.',
  ['modred/util.py'], [('save_array_text', 'modred/util.py'), ('load_array_text', 'modred/util.py'), ('load_signals', 'modred/util.py'), ('load_multiple_signals', 'modred/util.py')])

p('C19', 'A vector handle returns the stored vector, shifted and scaled as declared',
  "Getting a vector from a handle returns the vector last put to it (or its file), minus the current vector of its base handle if it has one, times its scale factor if it has one. "
  "This holds whatever was got or put through other handles before, including other handles with equal contents, another scale factor or their own base, and after the base vector has been put anew. "
  "Getting does not modify any stored vector.",
  ['inputs', 'histories'], 'all vectors, base handles, scale factors and sequences of gets and puts through several handles',
  'Tests get each handle once or twice with two distinct bases; the cached base vector makes results depend on history.',
  ['modred/vectors.py'], [('VecHandle.get', 'modred/vectors.py'), ('VecHandle.put', 'modred/vectors.py')],
  state=[('cached base vector', 'the base vector most recently loaded by any handle, shared by all handles', 'VecHandle.cached_base_vec')])

p('C20', 'The trapezoidal inner product is the tensor-product trapezoidal rule',
  "On any number of one-dimensional grids, uniform or not, the inner product of two vectors of the grid shape is the multi-dimensional trapezoidal-rule sum of conj(first) times second, each dimension weighted by its own grid. "
  "It is therefore linear in the second argument, conjugate symmetric, and invariant under consistent reordering of the dimensions. "
  "Vectors whose shape does not match the grids, missing grids and grids that are not arrays are refused.",
  ['inputs'], 'all numbers of grids, grid sizes and spacings, real and complex vectors',
  'The test checks convergence order for one 2D integrand.',
  ['modred/vectors.py'], [('InnerProductTrapz', 'modred/vectors.py')])

p('C21', 'Decompositions, arrays and models are stored and restored faithfully',
  "Every put operation of the POD, BPOD, DMD, total-least-squares DMD, ERA and Galerkin objects passes exactly the named array to the user's put function with exactly the given destination, once, and only on rank zero when run in parallel. "
  "Every get operation reads each array from its own source and restores it on every worker, so that an object restored from a stored decomposition (single-mode ones included) computes the same modes, spectra and coefficients as the object that stored it.",
  ['inputs', 'configurations', 'histories'], 'all decompositions (any number of kept values, one included), destinations, worker counts, and store/restore sequences',
  'Tests round-trip some of the arrays through files of one size; a swapped destination of equal shape, or a single-mode decomposition, is not noticed.',
  ['modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/era.py', 'modred/ltigalerkinproj.py', 'modred/parallel.py'],
  [('put_* / get_* methods', 'modred/pod.py'), ('put_* / get_* methods', 'modred/bpod.py'), ('put_* / get_* methods', 'modred/dmd.py'), ('put_model, put_decomp', 'modred/era.py'), ('put_model', 'modred/ltigalerkinproj.py')])

p('C22', 'Computations never modify the data passed to them',
  "No array-based computation (POD, BPOD, DMD, total-least-squares DMD, ERA, OKID, Galerkin projection, decompositions, Hankel and state-space utilities, text output) modifies an array, list of arrays, weighting, index list or coefficient array passed by the caller. "
  "Calling it again with the same arguments therefore starts from the same data.",
  ['inputs', 'histories'], 'all arguments of all array-based entry points, real and complex, including arrays that are views of one another',
  'Tests rarely compare the inputs after the call, and the code scales eigenvectors in place.',
  ['modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/era.py', 'modred/okid.py', 'modred/util.py', 'modred/ltigalerkinproj.py', 'modred/vectorspace.py'],
  [('np.array copies on entry', 'modred/*.py'), ('in-place rescaling on fresh arrays only', 'modred/util.py')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))
