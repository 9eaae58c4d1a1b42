A = 'mpnum/mparray.py'
L = 'mpnum/linalg.py'
S = 'mpnum/mpsmpo.py'


def define(P):
    P('C08', 'SVD compression obeys its rank and error bounds and reports its overlap',
      'Compressing an array with the SVD method, in any direction, with a rank bound, a relative error bound or both, returns '
      'an array of the same shape whose ranks respect the bound; the returned overlap is the inner product of the result with '
      'the original and equals the squared norm of the result; the squared error is at least the largest and at most the sum '
      'of the discarded squared singular values over the cuts. Where the largest squared singular values are unambiguous for a '
      'product of two-site states the result is exactly the truncated state. Without effective bounds nothing is lost. '
      'Unknown methods, directions or bounds out of range are rejected.',
      ['inputs', 'configurations', 'histories'],
      'all arrays (any legs, ranks above/below the maximum, all canonical forms) x direction x rank x relerr x svd function',
      'Tests compare against a fixed list of sizes with left/right direction on fresh random arrays; the bounds hold for '
      'spectra with degeneracies, rank-deficient arrays and objects with any history.',
      [A, 'mpnum/utils/extmath.py'],
      [('SVD sweeps', A + ':MPArray._compress_svd_l/_compress_svd_r'), ('choice of kept values', A + ':_compress_svd_*')],
      ['MPArray.compress(method="svd")', 'MPArray.compression'],
      'Bpp.tla: exact truncation semantics for states with known spectra; Compression.tla: relations for generic input; '
      'every recorded call judged by TLC')

    P('C09', 'Variational compression returns the stated overlap and never gets worse',
      'Variational compression of any array, for every start vector or requested rank, number of sweeps and number of sites '
      'optimised together, returns an array of the same shape within the rank bound together with its overlap with the '
      'original, which is real, positive and equals the squared norm of the result. With one or two sites at a time the '
      'overlap is never below that of the (optimally scaled) start vector and does not decrease with further sweeps; it never '
      'exceeds the best truncation over any single cut, and it is exact if the rank suffices. Original and start vector stay '
      'as they were. Contradictory or incomplete arguments are rejected.',
      ['inputs', 'configurations', 'histories'],
      'all arrays x start vectors x ranks x sweeps x var_sites (also more than there are sites)',
      'Tests compare a few sizes with the SVD result to a tolerance; monotonicity, overlap identities and borders of '
      'var_sites hold for every input and cannot be settled by samples of uniform shape.',
      [A], [('variational sweeps', A + ':MPArray._compress_var'), ('local update', A + ':_adapt_to_many'),
            ('environment vectors', A + ':_adapt_to_add_l/_adapt_to_add_r')],
      ['MPArray.compress(method="var")', 'MPArray.compression(method="var")'],
      'Compression.tla relations over growing numbers of sweeps; every recorded run judged by TLC')

    P('C10', 'Singular values and norms are those of the dense tensor',
      'For every array in every internal state, the singular values reported for each cut of the chain are those of the dense '
      'tensor cut there (up to zeros), in a vector of non-negative numbers, and the norm is the norm of the dense tensor. '
      'Computing them, also repeatedly and between other operations, changes neither the represented tensor nor any other '
      'object.',
      ['inputs', 'histories'], 'all arrays (unequal legs, legless sites, rank-deficient, zero) x canonical forms',
      'Tests compute them once on fresh random arrays of uniform shape with full rank.',
      [A], [('sweep of SVDs', A + ':MPArray.singularvals'), ('norm from canonical form', A + ':norm')],
      ['MPArray.singularvals', 'norm'],
      'states with prescribed squared singular values (Bpp.tla) and power sums of the Gram matrices of integer tensors '
      '(Heap.tla: CutPowers); every recorded call judged by TLC')

    P('C11', 'Conversions between MPS, PMPS and MPO and reductions keep the state',
      'Converting a vector to a purification, a purification or vector to a density matrix, and back to a vector, and reducing '
      'states to any blocks of sites (by width, by start sites and width, by start and stop sites, by lists or iterators) or '
      'to any set of sites, yields exactly the density matrices (vectors) of the represented state, in the requested order, '
      'for all local dimensions, ancilla dimensions and ranks. The results are independent objects: using or changing one in '
      'place affects neither the state nor the other results. A purification with a non-trivial ancilla is not accepted as a '
      'vector.',
      ['inputs', 'configurations', 'histories'],
      'all states x all block specifications, followed by in-place use of results and operands',
      'Tests check uniform dimensions and fixed widths; overlapping, repeated and unordered blocks, site dimensions that '
      'differ and later in-place use are not sampled.',
      [S, A], [('reductions', S + ':reductions_mpo/reductions_pmps/reductions_mps_as_mpo'), ('supports', S + ':pmps_reduction'),
               ('conversion', S + ':mps_to_pmps, pmps_to_mpo, mps_to_mpo, pmps_to_mps')],
      ['mpnum.mpsmpo'], 'exact integer density matrices in TLA+ (MPA.tla: Rho, RedO, RedSet); every recorded call judged by TLC')

    P('C12', 'Eigenvalue search stays within the spectrum and never gets worse',
      'Searching an extremal eigenvalue of a Hermitian operator given as MPO, or as a sum of MPOs and projectors onto vectors, '
      'returns a real value within the spectrum together with a normalized vector of the right shape and rank whose energy '
      'is that value. Every local problem solved on the way is Hermitian with spectrum within that of the operator, for '
      'single-site steps each step is at least as good as the one before and as the start vector, and with maximal ranks the '
      'true extremal eigenvalue is found, for smallest, largest algebraic and largest magnitude. Searching a sum gives the '
      'same as searching the explicit sum. Operators and start vector stay as they were, and equal random state gives equal '
      'results.',
      ['inputs', 'configurations', 'histories'],
      'all Hermitian operators x start vectors or ranks x sites per step x sweeps x which eigenvalue',
      'Tests compare converged values for a few random operators; stale environments or a wrong gauge still converge there.',
      [L], [('sweep', L + ':eig, eig_sum'), ('environments', L + ':_eig_leftvec_add/_eig_rightvec_add'),
            ('local problem', L + ':_eig_minimize_locally')],
      ['mpnum.linalg.eig', 'mpnum.linalg.eig_sum'],
      'Eig.tla: relations of variational steps, recorded at the eigensolver interface; diagonal integer operators exactly')

    V = 'mpnum/povm/mppovm.py'
    P('C13', 'Outcome probabilities are tr(element * state), however they are computed',
      'For every measurement given as matrix-product POVM and every state (vector, purification, density matrix, detected '
      'automatically or named), in every internal form and for all local dimensions and numbers of outcomes (also sites with '
      'a single outcome), the probabilities, computed as matrix-product array, dense array, dense arrays of blocks of sites '
      'or lists of POVMs, with and without efficiency choices, are exactly tr(element * state) in the order of the outcomes: '
      'real, and summing to the trace of the state. Expectation values and elements agree with the same definition. The '
      'arguments are not changed.',
      ['inputs', 'configurations', 'histories'],
      'all POVMs x states x representations x blocks x efficiency flags',
      'Tests compare three representations of uniform qubit chains with Pauli-like POVMs; unequal outcomes per site, '
      'correlated POVMs, non-symmetric complex elements and non-contiguous or legless sites are not sampled.',
      [V, S], [('contraction with the state', V + ':MPPovm.pmf'), ('dense contraction', V + ':MPPovm.pmf_as_array, _pmf_as_array_pmps_ltr/_symm'),
               ('blocks', V + ':MPPovm.pmfs_as_array/block_pmfs_as_array'), ('lists', V + ':MPPovmList.pmf')],
      ['MPPovm.pmf', 'MPPovm.pmf_as_array', 'MPPovm.block_pmfs_as_array', 'MPPovm.expectations', 'MPPovmList.pmf_as_array'],
      'integer POVMs and states, probabilities as exact rationals in TLA+ (Povm.tla, MPA.tla:PmfO); every recorded call '
      'judged by TLC')

    P('C14', 'Samples follow the outcome probabilities; packing and counting lose nothing',
      'Samples drawn from any POVM and state, directly or site group by site group, one or many at a time, packed or not, are '
      'independent and distributed exactly as the outcome probabilities: outcomes of probability zero never occur and every '
      'other one has its exact probability. Packing samples into integers is one-to-one and inverted by unpacking, and '
      'counting packed or unpacked samples gives every outcome its exact number of occurrences (or relative frequency), for '
      'any numbers of outcomes per site.',
      ['inputs', 'configurations', 'schedules'],
      'all decision sequences of the random generator x POVMs x states x methods x group sizes x sample sets',
      'Sampling tests compare frequencies of a few thousand draws with wide tolerances; the exact distribution is a sum over '
      'all random decisions.',
      [V], [('conditional sampling', V + ':MPPovm._sample_cond/_sample_cond_single'), ('direct sampling', V + ':MPPovm._sample_direct'),
            ('packing', V + ':MPPovm.pack_samples/unpack_samples'), ('counting', V + ':MPPovm.est_pmf')],
      ['MPPovm.sample', 'MPPovm.pack_samples', 'MPPovm.unpack_samples', 'MPPovm.est_pmf', 'MPPovmList.sample'],
      'the decision tree of the sampler is enumerated through a scripted random source and its leaf probabilities are compared '
      'with exact probabilities by TLC; with a real generator forbidden outcomes and rates are judged (Povm.tla)')

    P('C15', 'Outcome probabilities of one POVM are estimated from samples of others',
      'Given samples of one or several other POVMs, for every POVM and every placement of either on the chain, the estimate of '
      'each outcome is what the relation between the POVM elements implies: an outcome is estimated iff one of the others '
      'contains a proportional element (a unique one per outcome), scaled by the factor of proportionality; the remaining '
      'outcomes are marked as not available. The number of samples used per outcome is reported correctly and combining '
      'several sources weighs them by the samples used, however samples are stored and in whatever internal form the POVMs '
      'are.',
      ['inputs', 'configurations', 'histories'],
      'all pairs/lists of POVMs x embeddings x samples',
      'Tests use Pauli-type POVMs with a handful of fixed supports; matching of elements with unequal weights, partial overlaps '
      'and sources of unequal size are not covered.',
      [V], [('matching', V + ':MPPovm.match_elems'), ('estimation', V + ':MPPovm.est_pmf_from, _elemsum_identity'),
            ('several sources', V + ':MPPovm.est_pmf_from_mpps')],
      ['MPPovm.match_elems', 'MPPovm.est_pmf_from', 'MPPovm.est_pmf_from_mpps', 'MPPovmList.est_pmf_from'],
      'matching relation and rational estimates in TLA+ (PovmEst.tla); every recorded call judged by TLC')

    P('C16', 'Linear functions of outcomes: exact means, variances and estimates',
      'For every function of outcomes given by real coefficients or callables, the mean and variance computed from a state are '
      'the exact ones of the outcome distribution; estimates from samples are the sample mean and the estimated variance of '
      'that mean, whatever the order or encoding of the samples; for lists of POVMs contributions, weights and numbers of '
      'samples combine linearly; functions of one list expressed by outcomes of another give the same mean wherever that '
      'is possible, and it is reported when it is not.',
      ['inputs', 'configurations'],
      'all POVMs (lists) x states x coefficients x samples x weights',
      'Tests compare with large-sample averages to a few standard deviations; the sample formulas are identities for all samples.',
      [V], [('exact', V + ':MPPovm.lfun'), ('estimates', V + ':MPPovm.est_lfun'), ('lists', V + ':MPPovmList.lfun/est_lfun'),
            ('transfer', V + ':MPPovm._mppl_lfun_estimator, MPPovmList.lfun_from/est_lfun_from')],
      ['MPPovm.lfun', 'MPPovm.est_lfun', 'MPPovmList.lfun', 'MPPovmList.est_lfun',
       'MPPovmList.lfun_from', 'MPPovmList.est_lfun_from'],
      'rational means and variances in TLA+ (PovmFun.tla); every recorded call judged by TLC')

    F = 'mpnum/factory.py'
    P('C17', 'Arrays stored in files come back exactly as they were when written',
      'After any interleaving of writing arrays to HDF5 files or groups, overwriting, changing the arrays in memory and '
      'reading, what is read is the array last written to that location: the same site tensors (values and element types), '
      'shapes, ranks, canonical form and class as asked for. Writing one location does not affect another group of the file, '
      'writing does not change the array in memory, and objects read are independent of the file, of each other and of the '
      'object written. Any number of sites (also more than ten) keeps its order.',
      ['histories', 'inputs'],
      'all sequences of dump, load, in-place change over files, groups and objects; all arrays and classes',
      'Tests round-trip a single array through one file once; overwriting, groups next to each other, later changes of the '
      'written object and canonical forms are histories.',
      [A], [('writing', A + ':MPArray.dump'), ('reading', A + ':MPArray.load')], ['MPArray.dump', 'MPArray.load'],
      'Store.tla: complete state space of the storage model; its behaviours are replayed on real files in scratch '
      'directories and every observation is judged by TLC (Heap.tla)')

    P('C18', 'Factory functions produce what their parameters say',
      'Identities, zeros, diagonal operators and random arrays have exactly the requested sites, legs, dimensions and element '
      'type for every way of specifying them (one number, one tuple, one tuple per site, iterators), ranks as requested (and '
      'never more than is possible, unless forced), the exact ones have the exact value; random states are normalized, random density '
      'operators positive with trace one, random hermitian operators hermitian, local Hamiltonians hermitian sums of '
      'independent nearest-neighbour terms. The same random state always gives the same array without touching the global '
      'one, different draws are different, and entries are standard normal.',
      ['inputs', 'configurations'], 'all sizes, dimension and rank specifications, element types and random states',
      'Tests draw arrays of a handful of uniform sizes mainly as input for other tests.',
      [F], [('random local tensors', F + ':_generate, random_mpa'), ('exact ones', F + ':eye, zero, diagonal_mpa'),
            ('states', F + ':random_mps, random_mpo, random_mpdo, random_local_ham')],
      ['random_mpa', 'random_mps', 'random_mpo', 'random_mpdo', 'random_local_ham', 'eye', 'zero', 'diagonal_mpa'],
      'exact factories are operations of Heap.tla, random ones are judged by the guarantees in Factory.tla; every recorded '
      'call judged by TLC')

    P('C19', 'Dense helpers: leg order, traces, products, projections, truncated SVD',
      'The helpers for dense arrays do what is documented for every shape, axis choice (also negative), element type and '
      'memory layout: conversion between global and local leg order and back, partial traces, products over chosen axes, '
      'Kronecker products, block-diagonal sums, arrays with named axes. The projections onto non-negative numbers or '
      'probabilities accept exactly what is within the tolerances, cut at the given threshold and renormalise, in place as '
      'documented; truncated and randomized singular value decompositions return orthonormal '
      'singular vectors with values in order and are exact if the rank suffices. Otherwise arguments are left as they are; impossible '
      'requests are rejected.',
      ['inputs', 'configurations'], 'all arrays, axes, layouts, ranks',
      'Tests sample a few shapes; ties in projections, degenerate and rank-deficient matrices, non-contiguous input, negative '
      'and repeated axes are not enumerated.',
      ['mpnum/utils/array_transforms.py', 'mpnum/utils/extmath.py', 'mpnum/utils/pmf.py', 'mpnum/_named_ndarray.py'],
      [('leg order', 'mpnum/utils/array_transforms.py'), ('products and SVDs', 'mpnum/utils/extmath.py'),
       ('projections', 'mpnum/utils/pmf.py'), ('named axes', 'mpnum/_named_ndarray.py')],
      ['global_to_local', 'local_to_global', 'partial_trace', 'matdot', 'mkron', 'block_diag', 'truncated_svd', 'randomized_svd',
       'project_nonneg', 'project_pmf', 'named_ndarray'],
      'exact semantics in TLA+ (Utils.tla); thresholds of projections and SVD identities; every recorded call '
      'judged by TLC')

    H = 'mpnum/utils/physics.py'
    P('C20', 'Cyclic Hamiltonians and the XY model have the documented terms and energy',
      'For all numbers of sites, dimensions, ranks and local terms, the cyclic nearest-neighbour Hamiltonian built as sparse '
      'matrix or as matrix-product operator is the sum of the terms at their positions, with the last one closing the chain '
      'on the first and last site, and the terms are left unchanged. The local terms of the cyclic XY model are those of the '
      'model for every asymmetry, and the closed-form ground state energy is the smallest eigenvalue of that Hamiltonian for '
      'every admissible number of sites (others are rejected) and asymmetry up to one.',
      ['inputs', 'configurations'], 'all term lists, sizes and asymmetries',
      'Tests compare one random Hamiltonian per size with a second implementation and the energy for a few sizes.',
      [H], [('sparse', H + ':sparse_cH'), ('matrix-product operator', H + ':mpo_cH'), ('XY model', H + ':cXY_local_terms, cXY_E0')],
      ['sparse_cH', 'mpo_cH', 'cXY_local_terms', 'cXY_E0'],
      'exact semantics in TLA+ (Physics.tla); energies compared with bounds and eigenvalues; every recorded call judged by TLC')

    V = 'mpnum/povm/mppovm.py'
    W = 'mpnum/povm/localpovm.py'
    P('C21', 'Constructed POVMs have the documented elements and sum to the identity',
      'The local X, Y, Z and Pauli POVMs of every dimension, weighted combinations of POVMs and POVMs from vectors have '
      'exactly the documented elements in the documented order; the probability map gives tr(M rho), the inversion map is its '
      'pseudo-inverse, and Pauli POVMs are informationally complete. Matrix-product POVMs made by products, embedding, '
      'placing on all blocks, repetition (also partial, in any internal form) or as Pauli products have exactly the elements '
      'of the tensor products at the stated positions and order, report their dimensions correctly, and their elements sum to '
      'the identity. Inconsistent dimensions, lengths or positions are rejected.',
      ['inputs', 'configurations', 'histories'], 'all dimensions, positions, numbers of sites, lists of POVMs, canonical forms',
      'Tests use the ready-made POVMs at few sizes and uniform dimensions; unequal dimensions, cuts inside a repeated POVM and '
      'POVMs that have been canonicalised are not covered.',
      [V, W], [('local POVMs', W), ('placement', V + ':MPPovm.embed, block, repeat'), ('lists', V + ':MPPovmList.block, repeat'),
               ('Pauli products', V + ':pauli_mpp, pauli_mpps')],
      ['x_povm', 'y_povm', 'z_povm', 'pauli_povm', 'pauli_parts', 'POVM', 'concat', 'MPPovm.from_local_povm', 'MPPovm.eye',
       'MPPovm.embed', 'MPPovm.block', 'MPPovm.repeat', 'MPPovmList.block', 'MPPovmList.repeat', 'pauli_mpp', 'pauli_mpps',
       'MPPovm.outdims/hdims/nsoutdims/nsoutpos/elements/probability_map'],
      'exact elements over the Gaussian integers in TLA+ (PovmCons.tla, Heap.tla); every recorded call judged by TLC')
