_T = 'deductive verification of contracts on the real code: path-wise symbolic execution of the current Python AST, obligations discharged by z3 and by certified ideal membership over matrix polynomials; run-time contracts search for a failing input'
_LIB = 'NumPy/SciPy calls satisfy the contracts written in pyvc/npmodel.py (elementwise arithmetic, products, transposes, indexing, views)'
_ARITH = 'floating point is treated as exact real/complex arithmetic in the proof; the run-time contracts use tolerances'
_MPI = 'collective operations are those specified under C05/C06; the proof of this property takes their contracts'


def _p(note, extra=(), **kw):
    return dict(note=note, technique=_T, assumptions=[_LIB, _ARITH] + list(extra), **kw)


PROOF = {
    'C02': _p('compute_inner_product_array is executed on an arbitrary worker of any number of workers, for any numbers of vectors and any limit on vectors in memory: loops by the rule "one arbitrary iteration", the ring exchange by the invariant "in pass k this worker holds what worker (rank-k) mod P held at first" (checked inductive); every write is the inner product of that row and column by the worker that has the row; every message is received in its round, collective operations agree among workers; and for every entry there are iterations of the loops in which it is computed. find_assignments enters by its contract (C01), allreduce by its (C05/C06).', [_MPI, 'messages are received by the recv with their source and tag, in order; isend does not wait', 'products, quotients and remainders of integers enter the solver by instances of their laws']),
    'C03': _p('compute_symm_inner_product_array on an arbitrary worker of any number of workers, for any number of vectors and any limit on vectors in memory, with the loop rules of C02: every write is the inner product of its row and column by the one worker that has the row; for every pair of vectors (same worker, different workers of a part, later part) there are iterations in which one of its two entries is computed; from that, after the sum over workers, the masking and triangle steps give the inner product in every entry on every worker; messages match and collective operations agree.', [_MPI, 'messages are received by the recv with their source and tag, in order; isend does not wait', 'a condition that is true of the first workers only is counted by the number of its true entries', 'products, quotients and remainders of integers enter the solver by instances of their laws', 'the inner product is conjugate symmetric (documented axiom)']),
    'C04': _p('VectorSpaceHandles.lin_combine on an arbitrary worker of any number of workers, for any numbers of basis vectors and sums, any limit on vectors in memory, 1D and 2D coefficients, all columns or selected ones (array, list or number, negative ones included): every term added has the coefficient of its basis vector and of the column of its sum, goes to that sum and is added in exactly one iteration of the loops; every handle receives its own complete sum in exactly one iteration, by one worker, and nothing else is put; every term is added and every sum put (coverage); arguments that do not fit are refused with ValueError before anything is put. C07 decides the array counterpart.', [_MPI, 'messages are received by the recv with their source and tag, in order; isend does not wait', 'products, quotients and remainders of integers enter the solver by instances of their laws', 'selected column numbers are in range']),
    'C07': _p('All obligations are generated from the current source of vectorspace.VectorSpaceArrays and the weight helpers and hold for every number of rows, columns, selected columns, real or complex data. NumPy semantics and exact arithmetic are assumed.'),
    'C08': _p('util.svd, util.eigh, util.eig_biorthog for every array size, every combination of tolerances and the positive-definite flag: vectors and values match, order, and a value is kept if and only if it exceeds the tolerances. NumPy/SciPy decompositions enter by their contracts; the array is nonzero when a relative tolerance is given.', ['the array is not zero when a relative tolerance is given; eigenvalues of the argument of eig_biorthog are distinct and left and right eigenvectors at unit norm (scipy.linalg.eig)']),
    'C09': _p('All three POD entry points are executed symbolically for every size, tolerance and index selection; util.eigh/util.svd and (for handles) VectorSpaceHandles enter by their contracts, which C08 and C02-C04 decide.', [_MPI]),
    'C10': _p('BPOD.compute_* and both direct entry points (and both sets of default weight arguments), for every size, tolerance, truncation and index selection; util.svd and VectorSpaceHandles enter by their contracts (C08, C02-C04).', [_MPI]),
    'C11': _p('All three DMD entry points, sequential and paired, for every size, tolerance, truncation and index selection; util.svd/eigh/eig_biorthog and VectorSpaceHandles enter by their contracts (C08, C02-C04). Assumes nonzero distinct eigenvalues of the low-order map.', [_MPI, 'the low-order map has distinct nonzero eigenvalues']),
    'C12': _p('All three total-least-squares DMD entry points, sequential and paired, for every size, tolerance, truncation and index selection; util.svd/eigh/eig_biorthog and VectorSpaceHandles enter by their contracts (C08, C02-C04). Assumes nonzero distinct eigenvalues of the low-order map.', [_MPI, 'the low-order map has distinct nonzero eigenvalues']),
 
    'C16': _p('util.Hankel and util.Hankel_chunks for every length, block shape and block count, with and without a last row; arguments (lists included) unchanged.'),
    'C13': _p('Both projection classes and both derivative functions, for every size, weighting, adjoint basis, orthonormality flag, worker count and rank; every sequence of up to three reductions is checked and the object state is shown to repeat after two calls, so longer sequences add nothing. VectorSpaceHandles and find_assignments enter by their contracts (C02-C04, C01).', [_MPI, 'the array of inner products of adjoint basis and basis is invertible (numpy.linalg.inv contract)']),
    'C17': _p('balanced_truncation, lsim, impulse, drss and rss are executed symbolically for every system size, order, signal length and initial state: all array identities are proved, and that A, B, C, inputs and initial state reach the simulation unchanged.', ['scipy.signal.dlsim, dimpulse and StateSpace compute the discrete-time recursion of their documentation; scipy.linalg.solve_discrete_lyapunov solves its equation; numpy.linalg.inv inverts', 'Gramians of a stable system are positive semidefinite; singular values below 1e-13 are treated as zero']),
    'C14': _p('compute_ERA_model, ERA.compute_model, assemble_Hankel, make_sampled_format and make_sampled_impulse-side helpers, executed symbolically for every number of samples, inputs, outputs, block counts and model order: Hankel blocks, sampled format and the realised model are exactly the formulas of the property.', ['the requested number of Hankel blocks does not exceed the sampled data (2(mo+mc-1) <= samples)', 'util.svd enters by its contract, which C08 decides']),
    'C15': _p('OKID for every number of samples, inputs, outputs, Markov parameters and cutoff: the regression rows, the recursion (by its course-of-values invariant) and the returned parameters.', ['numpy.linalg.lstsq returns a solution of the normal equations']),
    'C06': _p('Parallel: every method in every configuration (no mpi4py, one worker, any number of workers, any rank), with arbitrary user functions.', ['mpi4py: bcast, Barrier, Get_size, Get_rank as documented']),
    'C20': _p('InnerProductTrapz for any number of grids of any length (loop invariant: as many axes as iterations are integrated, each with its own grid) and, redundantly, for 1 to 4 grids; refusal of wrong shapes, missing grids and non-arrays at any position.', ['numpy.trapz is the trapezoidal rule over the last axis']),
    'C21': _p('Every put and get method of every class: rank zero and an arbitrary other rank of an arbitrary number of workers are executed together, arrays of every size (single-mode ones included), stores that return the array itself or, as text does, a 1D array as one column.', [_MPI, "a user's get function returns what was put at that source (1D arrays possibly as one column); C18 decides this for the default text functions"]),
    'C19': _p('All three handle classes: get and put from every state of the shared cache that satisfies its invariant (nothing cached, or some handle with its current vector), which get and put are shown to restore; hence for every history of operations. Base handles are arbitrary, or handles of the library with bases of their own.', ['vectors are not changed behind the back of the handles (assigning handle.vec or rewriting a file without put)', 'util.save_array_text/load_array_text (C18), open, pickle.dump and pickle.load store and give back a vector']),
    'C18': _p('save_array_text, load_array_text, load_signals, load_multiple_signals for every shape, number kind, memory layout (contiguous or not), delimiter, and number of files: what is saved comes back entry by entry, refusals at any position of the list of files.', ['numpy.savetxt and loadtxt write and read numbers exactly at 17 or more digits, with a delimiter that is no part of a number; ndarray.view reinterprets pairs of columns and needs a contiguous last axis', 'integers are small enough to be exact as double precision numbers']),
    'C05': _p('reduce, allreduce, scan and exscan of the library\'s communicator for any number of workers, any worker, any root and any associative operation (the pair-building MINLOC/MAXLOC branch included): a round is executed on an arbitrary worker and on the worker it exchanges with, both in the state of the loop invariant; every message is matched in its round, values are the ordered combinations. Invariants are selected from templates by dropping non-inductive ones, then proved.', ['mpi4py: send, recv, sendrecv and bcast as documented; worker numbers are integers with unique binary digits', 'the combination of consecutive runs is again a combination of a run (proved by induction from associativity, unit lemma)']),
    'C01': _p('find_assignments for every number of tasks and workers and every weighting (none, array or list): the loop over the workers is proved against the invariant that the first f tasks are assigned, in order, in one run per worker; every iteration appends tasks f .. f\'-1, non-empty while tasks are left, whose weight is closest to an even share; the last worker ends at the last task.', ['numpy argmin, cumsum and builtin sum as documented; sums exact']),
    'C22': _p('Every unit of C01, C07-C18 and C20 that calls an array-based entry point is executed once more, over every path (refusals included); every write is checked against the buffers and lists the caller owns. Views are tracked: a write through a view of an input counts.', ['LAPACK-backed NumPy/SciPy routines do not write into their arguments (documented defaults overwrite_a=False)']),
}
