"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

VS = 'modred/vectorspace.py'
prop('C01', 'Work distribution gives every task to exactly one worker, in order',
     'Distributing a list of tasks over any number of workers, with default or arbitrary non-negative weights, gives every worker one consecutive (possibly empty) share, and the shares joined in worker order are exactly the task list; all workers compute the same distribution. '
     'Equal tasks are spread so that share sizes differ by at most one, and with positive weights no share exceeds an even share of the total by more than the heaviest task. '
     'The check for empty shares reports true exactly when some share is empty.',
     ['inputs', 'configurations'], 'all numbers of workers, numbers of tasks and non-negative weight vectors (zeros included)',
     'The tests use a handful of fixed lists with 1 or 3 workers; the choice of cut points depends on comparisons between sums of arbitrary real weights, and on ties and zeros that they never produce.',
     ['modred/parallel.py'], [('find_assignments: nearest cumulative weight', 'modred/parallel.py:find_assignments'), ('check_for_empty_tasks', 'modred/parallel.py:check_for_empty_tasks')])
prop('C02', 'Handle-based inner product arrays hold exactly the right inner products',
     'For any lists of row and column vector handles, the computed array has one row per row handle and one column per column handle, its entry (i, j) is the inner product of row vector i with column vector j (first argument the row vector; conjugate-symmetric inner products), and every worker receives the same full array. '
     'This holds for every number of workers and nodes and every memory limit, for real, complex or integer inner products in any mixture, and for single handles given instead of lists.',
     ['inputs', 'configurations'], 'all vectors, numbers of rows and columns (more rows than columns included), workers, nodes, and limits on vectors in memory',
     'Tests fix a few sizes, 1 or 3 workers and random data with one type; chunk boundaries, uneven work shares, idle workers and the transposed evaluation depend on the combination of all of them.',
     [VS, 'modred/parallel.py', 'modred/reductions.py'], [('chunk loops and ring exchange', VS + ':VectorSpaceHandles.compute_inner_product_array'), ('sum of partial arrays', 'modred/reductions.py:Intracomm.allreduce')])
prop('C03', 'Symmetric inner product arrays equal the full ones',
     'For any list of vector handles and a conjugate-symmetric inner product, the symmetric computation returns, on every worker, the square array whose entry (i, j) is the inner product of vectors i and j, for all i and j including zeros, equal vectors and complex values. '
     'This holds for every number of workers, nodes and every memory limit.',
     ['inputs', 'configurations'], 'all vectors, numbers of vectors, workers, nodes, and limits on vectors in memory',
     'The triangular, square and rectangular pieces are split differently for every combination of sizes, and values that happen to be zero are treated specially; tests sample a few random arrays without zeros.',
     [VS, 'modred/parallel.py', 'modred/reductions.py'], [('triangle/square/rectangle decomposition', VS + ':VectorSpaceHandles.compute_symm_inner_product_array'), ('mask and symmetrisation', VS + ':VectorSpaceHandles.compute_symm_inner_product_array')])
prop('C04', 'Handle-based linear combinations put exactly the right sums',
     'For any basis handles, output handles and coefficients, each output handle receives exactly one vector, the sum over all basis vectors of basis vector times the coefficient in its row and in the selected column, in the order of the selected column indices; one-dimensional coefficients act as a column, or as a row when there is a single basis vector. '
     'Mismatched numbers of handles and coefficients raise an error before anything is put. '
     'This holds for every number of workers, nodes and every memory limit.',
     ['inputs', 'configurations'], 'all vectors (real/complex mixed), coefficient arrays, column index lists (repeated, reordered), workers, nodes, memory limits',
     'Tests use random coefficients with few shapes; index arithmetic over chunks, ring passes and column subsets depends on every combination.',
     [VS, 'modred/parallel.py'], [('chunk loops, ring exchange and sums', VS + ':VectorSpaceHandles.lin_combine')])
prop('C05', 'Parallel computations never deadlock or mix up messages',
     'When all workers make the same calls, every parallel operation (inner product arrays, linear combinations, derivatives, saving and loading results, reductions) terminates on every worker under every interleaving and whether or not the message layer buffers sends; every message sent is received, by the receive it is meant for, and workers always meet at the same collective operation.',
     ['schedules', 'configurations'], 'all interleavings of the workers, all choices of buffered or synchronous sends, all numbers of workers (more workers than vectors included) and problem sizes',
     'The MPI tests run one interleaving on one machine with 3 workers and eager (buffered) small messages, which hides receive-order and rendezvous deadlocks.',
     [VS, 'modred/parallel.py', 'modred/reductions.py'], [('isend/recv/Wait rings and barriers', VS), ('binary-tree reductions', 'modred/reductions.py')])
prop('C06', 'Reductions over workers combine all contributions in worker order',
     'Reduce, allreduce, inclusive scan and exclusive scan over any number of workers return the operation applied to the contributions in worker order (all of them, or those up to or before the worker), each contribution used exactly once, also for non-commutative associative operations and any root. '
     'Reduce gives the result to the root only (others get nothing), allreduce to everybody; the first worker of an exclusive scan gets nothing; min/max-with-location operations report the value and the worker it comes from.',
     ['configurations', 'inputs'], 'all numbers of workers (powers of two or not), roots, values and associative operations',
     'Tests never call the scans and only reduce numpy sums over 1 or 3 workers with root 0.',
     ['modred/reductions.py'], [('binary tree reduce', 'modred/reductions.py:Intracomm.reduce'), ('hypercube scan/exscan', 'modred/reductions.py:Intracomm.scan')])
prop('C07', 'Broadcast calls run once, on the first worker, and agree everywhere',
     'Calling a function through the broadcasting wrapper evaluates it exactly once, on the first worker, with the first worker\'s arguments (positional and keyword), and returns its result on every worker; the non-broadcasting wrapper returns the result on the first worker and nothing elsewhere; broadcasting a value gives every worker the first worker\'s value. '
     'Rank, worker count, node count, distributed status, first-worker status and printing are consistent with the communicator on every worker.',
     ['inputs', 'configurations'], 'all values, functions, worker counts and assignments of workers to hosts',
     'Only 1 or 3 workers on a single host are ever run, so e.g. several hosts are never seen.',
     ['modred/parallel.py'], [('bcast, call_and_bcast, call_from_rank_zero', 'modred/parallel.py'), ('node count from host names', 'modred/parallel.py')])
prop('C08', 'The number of vectors in memory respects the configured limit',
     'During inner product and linear combination computations through handles, no worker ever holds more vectors at the same time than its share of the configured per-node limit, (limit x nodes) / workers rounded down and at least three, apart from a fixed number of vectors in transit or under construction (two for inner products, four for linear combinations), however many vectors there are. '
     'The share is what is reported as vectors per worker, and a limit below three per worker is raised to it, never lowered.',
     ['inputs', 'configurations'], 'all limits (arbitrary integers), numbers of vectors, workers and nodes',
     'No test observes memory; the bound is a safety property over all chunk schedules.',
     [VS], [('max_vecs_per_proc and chunk sizes', VS + ':VectorSpaceHandles.__init__')], [('max_vecs_per_proc', 'vectors each worker may hold', VS)])
prop('C09', 'Results do not depend on clocks, verbosity or progress messages',
     'For every behaviour of the system clock (standing still, jumping, running backwards, different on each worker), verbosity level and print interval, handle-based computations give the same results, the same puts and the same messages between workers. '
     'With verbosity zero nothing is printed, and with verbosity only the first worker prints.',
     ['inputs', 'configurations', 'schedules'], 'all clock readings (arbitrary reals at each call), verbosity values and print intervals',
     'Tests run with one clock and verbosity 0, so progress code is never executed.',
     [VS], [('time() based progress reports', VS), ('print_msg', VS + ':VectorSpaceHandles.print_msg')])
prop('C10', 'A vector handle returns (stored vector - base vector) x scale, always',
     'Getting a vector through a handle returns the most recently put vector, minus the current value of its base vector if it has one (itself read through its own handle, base and scale), times the scale factor if it has one (zero included). '
     'This holds for every history of gets and puts through any number of handles, whichever handles share or have equal base vectors, and a get changes neither what is stored nor what other handles return.',
     ['histories', 'inputs'], 'all sequences of get and put operations over handles with arbitrary base and scale settings, in memory, text or pickle files',
     'Tests do a few gets on fresh handles; the base vector cache is global state whose staleness needs particular interleavings of handles.',
     ['modred/vectors.py'], [('base vector cache', 'modred/vectors.py:VecHandle.get'), ('scaling', 'modred/vectors.py:VecHandle')], [('cached_base_vec', 'base vector shared by all handles of the process', 'modred/vectors.py:VecHandle')])
prop('C11', 'Saving and loading text arrays preserves shape and values',
     'Saving any one- or two-dimensional array of real (integer, single or double precision) or complex numbers, in any memory layout (transposed, sliced, Fortran order), and loading it with the matching type and delimiter gives the same values with the same two-dimensional shape (one-dimensional data as a column, a scalar column or a single row kept two-dimensional). '
     'The file has one line per row, and complex entries as adjacent real and imaginary parts. '
     'Arrays of more than two dimensions, and loading an odd number of columns as complex, raise an error.',
     ['inputs'], 'all shapes, layouts, element types, delimiters and values',
     'Tests round-trip a few contiguous random arrays of doubles.',
     ['modred/util.py'], [('view as float / view as complex', 'modred/util.py:save_array_text, load_array_text')])
prop('C12', 'The trapezoidal inner product is the trapezoidal rule on any grid',
     'For any number of grid dimensions and any (non-uniform) grid points, the grid inner product of two arrays is the tensor-product trapezoidal rule applied to conj(first) x second: it is linear in the second vector, conjugate-symmetric, and non-negative for a vector with itself on increasing grids. '
     'Vectors whose shape differs from the grid, missing grids and grids that are not arrays raise an error.',
     ['inputs'], 'all grids, dimensions, sizes and real or complex vectors',
     'Tests compare a few random samples.',
     ['modred/vectors.py'], [('InnerProductTrapz', 'modred/vectors.py:InnerProductTrapz.inner_product')])
prop('C13', 'Array inner products and combinations follow the weighted definition',
     'For vectors stored as array columns, the inner product array is X* Y without weights, X* diag(w) Y with one-dimensional weights (lists and single-element vectors included), and X* W Y with two-dimensional weights; the symmetric version is the same with Y = X. '
     'Linear combinations multiply by the coefficients of the selected columns, in the selected order. '
     'Two such spaces are equal exactly when their weights are.',
     ['inputs'], 'all real or complex vectors, coefficient arrays, column selections, and weights (Hermitian 2D weights may be complex)',
     'Tests sample a few random real arrays.',
     [VS], [('VectorSpaceArrays', VS + ':VectorSpaceArrays')])
prop('C14', 'The sanity check accepts correct vectors and rejects inconsistent ones',
     'The sanity check of vector handles accepts every vector object of any magnitude whose addition, scaling and inner product obey the vector space rules and leave their operands unchanged. '
     'It raises an error when the inner product of a scaled, an added, or a scaled and added vector with itself is wrong by more than the tolerance, or when scaling or adding modifies the original vector, and when no inner product is given.',
     ['inputs'], 'all vectors (any norm) and all of the listed kinds of faulty vector objects, with arbitrary error sizes',
     'Tests use three hand-written faulty classes and one random vector.',
     [VS], [('sanity_check', VS + ':VectorSpaceHandles.sanity_check')])
prop('C15', 'Truncated SVD keeps exactly the singular values above the tolerances',
     'The SVD wrapper returns factors with orthonormal columns and positive descending singular values such that U diag(S) V* is the array restricted to the kept triplets; a triplet is kept exactly when its singular value exceeds the absolute tolerance (if any) and its ratio to the largest exceeds the relative tolerance (if any). '
     'Without tolerances nothing is dropped and the product reproduces the array; the input is not modified.',
     ['inputs'], 'all arrays (any shape, rank-deficient, real or complex) and all tolerances (including None, values equal to a singular value)',
     'Tests check a few random arrays and two tolerances.',
     ['modred/util.py'], [('svd', 'modred/util.py:svd')])
prop('C16', 'Hermitian eigendecomposition is sorted by magnitude and truncated exactly',
     'The Hermitian eigendecomposition wrapper returns eigenvalues in descending order of magnitude with matching orthonormal eigenvectors; a pair is kept exactly when its magnitude exceeds the absolute tolerance (if any) and its ratio to the largest magnitude exceeds the relative tolerance (if any). '
     'When the array is declared positive definite, the absolute tolerance is raised, if needed, to the magnitude of the most negative eigenvalue, so that only positive eigenvalues are returned.',
     ['inputs'], 'all Hermitian arrays (indefinite, repeated or zero eigenvalues) and all tolerances including None',
     'Tests use a few random positive arrays and tolerances.',
     ['modred/util.py'], [('eigh', 'modred/util.py:eigh')])
prop('C17', 'Biorthogonal eigendecomposition: A R = R D, A* L = L D*, L* R = I',
     'For every diagonalisable array with distinct eigenvalues, the returned right eigenvectors satisfy A R = R diag(eigenvalues), the left ones A* L = L diag(conj(eigenvalues)), and L* R is the identity. '
     'The vectors that are not chosen for scaling keep unit norm, choice names are case-insensitive, and any other name raises an error.',
     ['inputs'], 'all real and complex diagonalisable arrays and both scaling choices',
     'Tests sample random arrays of one size.',
     ['modred/util.py'], [('eig_biorthog', 'modred/util.py:eig_biorthog')])
prop('C18', 'Hankel arrays are constant along skew diagonals with the given borders',
     'The Hankel array built from a first column and last row has that first column, that last row after its first element (the corner is taken from the column), and constant skew diagonals; without a last row zeros are used. '
     'The chunk version has the same structure for blocks of any shape.',
     ['inputs'], 'all real or complex columns, rows and block lists of any length',
     'Tests compare integer patterns of a few sizes.',
     ['modred/util.py'], [('Hankel', 'modred/util.py:Hankel'), ('Hankel_chunks', 'modred/util.py:Hankel_chunks')])
prop('C19', 'Simulation obeys x(k+1) = A x(k) + B u(k), y(k) = C x(k)',
     'The simulated output of a real discrete-time system is, at each time step, C times the state obtained by the recursion from the initial condition (zero by default) and the inputs. '
     'The impulse response at step i is C A^i B, indexed [step, output, input], with the requested number of steps.',
     ['inputs'], 'all real systems, input histories, initial conditions and step counts',
     'The tests of the simulation only check shapes.',
     ['modred/util.py'], [('lsim', 'modred/util.py:lsim'), ('impulse', 'modred/util.py:impulse')])
prop('C20', 'Loading signals separates the time column and keeps all samples in order',
     'Loading a signal file returns its first column as times and all other columns, in order, as a two-dimensional signal array (single signals and single samples included); several files are stacked in the given order. '
     'A file without signal columns, or files whose times differ by more than the closeness tolerance, raise an error.',
     ['inputs'], 'all file contents, delimiters and numbers of files, signals and samples',
     'Tests load a few random files.',
     ['modred/util.py'], [('load_signals', 'modred/util.py:load_signals'), ('load_multiple_signals', 'modred/util.py:load_multiple_signals')])
prop('C21', 'Balanced truncation balances the discrete-time Gramians',
     'For a stable discrete-time system (real or complex), the balanced realisation at full order reproduces the impulse response, its controllability and observability Gramians are both the diagonal array of the returned Hankel singular values, and these are the square roots of the eigenvalues of the product of the original Gramians. '
     'A lower requested order returns the leading block of that realisation.',
     ['inputs'], 'all stable, controllable and observable systems (real, complex) and orders',
     'Tests compare impulse responses of random systems with positive real eigenvalues at full order only.',
     ['modred/util.py'], [('balanced_truncation', 'modred/util.py:balanced_truncation')])
prop('C22', 'POD of arrays: orthonormal modes that reproduce the data',
     'For any data array and inner product weights (none, positive 1D, or Hermitian positive definite 2D), both POD methods return eigenvalues and eigenvectors of the correlation array X* W X above the tolerances in descending order, modes that are W-orthonormal combinations of the data, and projection coefficients modes* W X, so that modes times coefficients is the data whenever nothing is truncated. '
     'Requested mode indices select those modes in the requested order; both methods agree up to the phase of each mode.',
     ['inputs'], 'all real or complex data, weights, index lists and tolerances',
     'The array POD tests cannot run with the installed numpy, and would sample random data.',
     ['modred/pod.py'], [('compute_POD_arrays_snaps_method', 'modred/pod.py:compute_POD_arrays_snaps_method'), ('compute_POD_arrays_direct_method', 'modred/pod.py:compute_POD_arrays_direct_method')])
prop('C23', 'POD with handles gives the same results as with arrays',
     'POD through vector handles returns the eigendecomposition of the correlation array of inner products, puts orthonormal modes for the requested indices into the given handles in that order (for the decomposed or newly given vector handles), and projection coefficients equal to the inner products of modes with vectors. '
     'Every worker gets the same results for every number of workers.',
     ['inputs', 'configurations'], 'all vectors, inner products, index lists, tolerances and worker counts',
     'Tests sample random data and index lists.',
     ['modred/pod.py'], [('PODHandles', 'modred/pod.py:PODHandles')])
prop('C24', 'BPOD of arrays: biorthogonal modes balancing the Hankel array',
     'For impulse-response data of any linear time-invariant system with any numbers of inputs and outputs, array BPOD returns the Hankel array Y* W X, its singular value decomposition above the tolerances, direct modes X V E^(-1/2) and adjoint modes Y U E^(-1/2) for the requested indices, biorthonormal under the weights, and the projection coefficients of direct and adjoint data onto them.',
     ['inputs'], 'all systems, numbers of inputs, outputs and time steps (different for direct and adjoint data), weights, index lists and tolerances',
     'The array BPOD test cannot run with the installed numpy.',
     ['modred/bpod.py'], [('compute_BPOD_arrays', 'modred/bpod.py:compute_BPOD_arrays')])
prop('C25', 'BPOD with handles gives the same results as with arrays',
     'BPOD through vector handles returns the Hankel array of inner products of adjoint with direct vectors and its singular value decomposition, puts the direct and adjoint modes of the requested indices into the given handles in that order (for the decomposed or newly given vectors), and gives projection coefficients equal to the biorthogonal projections. '
     'Asking for modes without vectors raises an error; every worker gets the same results for every number of workers.',
     ['inputs', 'configurations'], 'all impulse-response data, input/output counts, index lists and worker counts',
     'Tests sample random systems and few shapes.',
     ['modred/bpod.py'], [('BPODHandles', 'modred/bpod.py:BPODHandles')])
prop('C26', 'DMD of arrays: modes and eigenvalues of the best-fit linear map',
     'For any sequential or non-sequential data and weights, both array DMD methods return the eigenvalues of the least-squares linear map between the (optionally rank-truncated) data: exact modes are its eigenvectors, projected modes their projections onto the data, adjoint modes biorthogonal to the projected ones. '
     'Projection coefficients and spectral coefficients (magnitudes for the first vector, one-dimensional) are the biorthogonal projections of the data; requested mode indices select modes in order, and a limit on the number of eigenvalues or tolerances truncate the basis.',
     ['inputs'], 'all real or complex data whose reduced map is diagonalisable, weights, index lists, tolerances and eigenvalue limits',
     'The array DMD tests cannot run with the installed numpy and would sample random data.',
     ['modred/dmd.py'], [('compute_DMD_arrays_snaps_method', 'modred/dmd.py:compute_DMD_arrays_snaps_method'), ('compute_DMD_arrays_direct_method', 'modred/dmd.py:compute_DMD_arrays_direct_method')])
prop('C27', 'DMD with handles gives the same results as with arrays',
     'DMD through vector handles computes the same correlation arrays, eigenvalues, eigenvectors, spectral and projection coefficients as the definition, honouring both tolerances and the eigenvalue limit, and puts the exact, projected and adjoint modes of the requested indices, for sequential and non-sequential data. '
     'Inconsistent numbers of vectors raise a value error; recomputing the eigendecomposition from existing correlation arrays gives the same as computing it at once; every worker gets the same results.',
     ['inputs', 'configurations', 'histories'], 'all data, index lists, tolerances, limits and worker counts',
     'Tests sample random data; relative tolerances and error paths are never exercised.',
     ['modred/dmd.py'], [('DMDHandles', 'modred/dmd.py:DMDHandles')])
prop('C28', 'Total-least-squares DMD of arrays is DMD of the jointly projected data',
     'For any sequential or non-sequential data and weights, both array methods of total-least-squares DMD equal DMD applied to data and advanced data projected onto the dominant right singular subspace of the stacked data, for modes, eigenvalues, spectral and projection coefficients, with both tolerances and the eigenvalue limit honoured. '
     'The two methods agree with each other.',
     ['inputs'], 'all real or complex data, weights, truncation levels and index lists',
     'Tests sample random real data with one truncation level.',
     ['modred/dmd.py'], [('compute_TLSqrDMD_arrays_snaps_method', 'modred/dmd.py:compute_TLSqrDMD_arrays_snaps_method'), ('compute_TLSqrDMD_arrays_direct_method', 'modred/dmd.py:compute_TLSqrDMD_arrays_direct_method')])
prop('C29', 'Total-least-squares DMD with handles gives the same results as with arrays',
     'Total-least-squares DMD through vector handles computes the same correlation arrays, eigenvalues, eigenvectors, spectral and projection coefficients as the array version, honouring both tolerances and the eigenvalue limit, and puts the requested exact, projected and adjoint modes, for sequential and non-sequential data, on every number of workers.',
     ['inputs', 'configurations'], 'all data, index lists, tolerances, limits and worker counts',
     'Tests sample random real data; relative tolerances are never exercised.',
     ['modred/dmd.py'], [('TLSqrDMDHandles', 'modred/dmd.py:TLSqrDMDHandles')])
prop('C30', 'Everything put into files or memory is got back unchanged',
     'For each decomposition object (POD, BPOD, DMD, total-least-squares DMD), putting its decomposition, correlation or Hankel arrays, coefficients and single members and getting them into a fresh object restores every one of them with the same shape and values under the right name, also for a single mode, and modes computed from the restored object equal those of the original. '
     'Each array is put exactly once, by the first worker, to its own destination; ERA and Galerkin models put each of their arrays to its own destination.',
     ['inputs', 'configurations', 'histories'], 'all array values, numbers of modes (one included) and worker counts',
     'Tests round-trip one random instance with several modes.',
     ['modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/era.py', 'modred/ltigalerkinproj.py'], [('put_* and get_* methods', 'modred/pod.py, modred/bpod.py, modred/dmd.py')])
prop('C31', 'Reusing an object gives the same results as a fresh one',
     'After any sequence of earlier computations on other data (different sizes, sequential or not, other truncations), each decomposition, model reduction or identification object computes for new data exactly what a fresh object would; requesting modes, spectra or coefficients in any order or repeatedly does not change results.',
     ['histories', 'inputs'], 'all sequences of up to a few computations on one object',
     'Tests create a fresh object per case, or repeat the same computation.',
     ['modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/era.py', 'modred/ltigalerkinproj.py'], [('object attributes overwritten by each computation', 'modred/dmd.py:DMDHandles.compute_decomp')])
prop('C32', 'Galerkin projection gives the model of the projected dynamics',
     'For any basis and adjoint basis with invertible inner product array, the reduced arrays are A_r = (Psi* W Phi)^(-1) Psi* W (A Phi), B_r = (Psi* W Phi)^(-1) Psi* W B and C_r = C Phi, the inverse being left out exactly when the user declares the bases biorthonormal; without adjoint basis the basis itself is used. '
     'The array and handle versions agree on every number of workers, and mismatched bases raise an error.',
     ['inputs', 'configurations'], 'all real or complex bases, systems, weights, worker counts',
     'Tests sample random systems.',
     ['modred/ltigalerkinproj.py'], [('reduce_A, reduce_B, reduce_C', 'modred/ltigalerkinproj.py')])
prop('C33', 'Time derivatives and standard basis are what their names say',
     'The time derivative of each vector is (advanced vector - vector) / time step, for arrays (integers included) and for handles, where each output handle receives exactly its own derivative once, on any number of workers; unequal numbers of handles raise an error. '
     'The standard basis of dimension n is the list of the n unit vectors.',
     ['inputs', 'configurations'], 'all vectors, time steps, numbers of vectors, worker counts and dimensions',
     'Tests sample random vectors.',
     ['modred/ltigalerkinproj.py'], [('compute_derivs_handles, compute_derivs_arrays, standard_basis', 'modred/ltigalerkinproj.py')])
prop('C34', 'ERA realises the given Markov parameters',
     'From Markov parameters of any linear system of order at most the model order (real or complex, any numbers of inputs and outputs, any sampling interval), ERA returns a model whose Markov parameters at the sampled times equal the data, using Hankel arrays whose blocks are the right Markov parameters; a model with fewer states is the truncation to the largest Hankel singular values. '
     'The block dimensions are the ones given to the constructor or the call (the call wins), by default equal and the largest the data allow; data too short for requested dimensions raise a value error; odd-length data lose the last sample; 1D and 2D data mean one output/input or one input.',
     ['inputs', 'configurations'], 'all Markov parameter sequences, block dimensions, model orders and data lengths',
     'Tests use one stored system and default block dimensions.',
     ['modred/era.py'], [('compute_model', 'modred/era.py:ERA.compute_model'), ('_assemble_Hankel', 'modred/era.py:ERA._assemble_Hankel')])
prop('C35', 'Sampled-format conversion duplicates the right samples',
     'Converting uniformly sampled Markov parameters to the paired format returns the integer time steps [0 1 1 2 2 3 ...] and the samples at exactly those steps (real or complex), whatever the time origin and time step. '
     'Times that are not uniform beyond the tolerance, or of a different length than the data, raise an error.',
     ['inputs'], 'all uniform time arrays, tolerances, data values and lengths',
     'Tests convert one sequence.',
     ['modred/era.py'], [('make_sampled_format', 'modred/era.py:make_sampled_format')])
prop('C36', 'OKID recovers the Markov parameters of a linear system',
     'For real input and output data of a linear system that is identifiable with the requested number of Markov parameters (sufficiently rich data, deadbeat or decayed memory), OKID returns its Markov parameters D, CB, CAB, ... indexed [time, output, input]; one-dimensional data mean a single input or output. '
     'Input and output with different numbers of samples raise an error.',
     ['inputs'], 'all systems of the stated kind, input histories, numbers of inputs, outputs and parameters',
     'Tests use a few stored data sets.',
     ['modred/okid.py'], [('OKID', 'modred/okid.py:OKID')])
prop('C37', 'Equality and small array utilities behave as documented',
     'Vector handles are equal exactly when they have the same type and the same location (or equal stored vectors for in-memory handles); array-aware equality is true exactly for equal types, shapes and all elements. '
     'Vector spaces with handles are equal when inner product and verbosity agree. '
     'Row/column promotion, list flattening, list and array sums and file listing by extension do what their names say for all inputs.',
     ['inputs'], 'all pairs of values and shapes',
     'Tests sample a few cases.',
     ['modred/util.py', 'modred/vectors.py', VS], [('smart_eq and __eq__ methods', 'modred/util.py:smart_eq'), ('atleast_2d_row, atleast_2d_col, make_iterable, flatten_list, sum_lists, get_file_list', 'modred/util.py')])
prop('C38', 'Computations never modify the data handed to them',
     'No decomposition, projection, simulation, identification, vector space or file operation changes the arrays, lists, weights or vectors that the caller passes in or that input handles hold; only output handles and result attributes change.',
     ['inputs', 'configurations'], 'all inputs of every public computation, on every number of workers',
     'Tests rarely compare inputs before and after.',
     ['modred/util.py', VS, 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', 'modred/era.py', 'modred/okid.py', 'modred/ltigalerkinproj.py'], [('np.array copies of inputs', 'modred/pod.py, modred/dmd.py, modred/bpod.py'), ('out-of-place vector operations', VS)])
prop('C39', 'Random systems have the requested sizes and stable real spectra',
     'For all random draws, the discrete-time random system generator returns arrays of the requested sizes whose state array has real eigenvalues inside the unit circle, and the continuous-time generator one with real non-positive eigenvalues.',
     ['inputs'], 'all random draws (invertible eigenvector arrays), numbers of states, inputs and outputs',
     'Tests check sampled draws.',
     ['modred/util.py'], [('drss', 'modred/util.py:drss'), ('rss', 'modred/util.py:rss')])
prop('C40', 'Floating-point results are accurate to rounding',
     'In floating-point arithmetic, all decompositions satisfy their defining equations up to a small multiple of machine precision times the condition number of the data, the direct methods being more accurate than the snapshot methods.',
     ['inputs'], 'all double-precision inputs',
     'Tests sample random well-conditioned arrays with fixed tolerances.',
     ['modred/util.py', 'modred/pod.py', 'modred/dmd.py'], [('LAPACK through numpy and scipy', 'modred/util.py')])
prop('C41', 'The example scripts of the tutorial run and reproduce their figures',
     'Every example script shipped with the documentation runs from start to end, in serial and in parallel, with the vectors and handles it defines.',
     ['configurations'], 'all installations and worker counts',
     'The test of the examples is skipped by the project itself.',
     ['modred/examples'], [('tutorial examples', 'modred/examples')])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
