"""What each property's check is made of: harness sources, value types, flags."""
ALL = [0, 1, 2, 3]  # double, float, complex<double>, complex<float>
FP = ['floating-point tolerances are multiples of eps*cond measured with a long double reference; problems too ill-conditioned '
      'to be judged are counted as illcond labels, not as successes']
CHECKS = {
    'P01': dict(bins=[dict(src=['p01'], vts=ALL)],
                rule='structured sparse square matrices (11 families, n<=40) x configurations with dropping disabled x {CRS,CCS} x '
                     '{nonsymmetric,symmetric,definite,partially symmetric}; non-trivial: n>=3 and a well enough conditioned '
                     'solve was compared with the long double inverse', assumptions=FP),
    'P02': dict(bins=[dict(src=['p02'], vts=ALL)],
                rule='structured sparse square matrices (n<=26) x configurations with and without dropping x storage x symmetry; '
                     'the product and the solve are turned into dense matrices by unit vectors; non-trivial: n>=3, more than n '
                     'entries, full rank and conditioning low enough to be judged', assumptions=FP),
    'P03': dict(bins=[dict(src=['p03'], vts=ALL)],
                rule='structured sparse square matrices x configurations x requested ranks x vectors and scalars; non-trivial: '
                     'n>=3 and judged (bound below the signal)', assumptions=FP),
    'P04': dict(bins=[dict(src=['p04'], vts=ALL)],
                rule='structured sparse square matrices (regular and singular families) x configurations x leading blocks; every '
                     'exposed level, statistic and query is examined and a solve is compared with the multilevel formula '
                     'evaluated densely from the factors; non-trivial: n>=3 and at least one entry in the factors', assumptions=FP),
    'P05': dict(bins=[dict(src=['p05'], vts=ALL)],
                rule='structured sparse square matrices (regular and singular) x configurations x 1..8 right-hand sides x requested '
                     'ranks x preceding uses of the object, incl. vectors of the wider precision; non-trivial: n>=3 and at least two '
                     'columns compared with single solves', assumptions=FP),
    'P06': dict(bins=[dict(src=['p06'], vts=ALL, flags=['-fopenmp'])],
                rule='histories of operations on one object against a fresh object, thread settings 0..8 and repeated runs, and inputs kept aside bit for bit; non-trivial: n>=3 and at least one preceding operation or a thread count above one', assumptions=FP),
    'P07': dict(bins=[dict(src=['p07'], vts=ALL)],
                rule='the same generated matrix as row/column storage, wrapped/raw/owned, 32/64-bit indices and pointers, and single-precision factorizations of double data; non-trivial: n>=3 and at least two representations compared', assumptions=FP),
    'P08': dict(bins=[dict(src=['p08'], vts=ALL)],
                rule='factorizations (exact and with dropping) x operators (row, column, callback, perturbed matrix) x steps x bounds x ranks x transpose; non-trivial: n>=3, at least two steps and a rounding bound below 1e-3 of the solution', assumptions=FP),
    'P09': dict(bins=[dict(src=['p09'], vts=ALL)],
                rule='filters (constant ranges, callbacks, subclasses, invalid ranges) alone and in histories of attach/replace/detach between solves, products, multi-column solves and refinements; non-trivial: a filter really acted on n>=2 entries', assumptions=FP),
    'P10': dict(bins=[dict(src=['p10'], vts=ALL)],
                rule='singular square matrices of known rank (11 families: zero, repeated, low rank, Laplacians, structural, ...) x configurations; non-trivial: n>=2, singular, and factorized or rejected with every factor and result inspected', assumptions=FP),
    'P11': dict(bins=[dict(src=['p11'], vts=ALL)],
                rule='dense matrices with prescribed singular/eigen values (one clear gap, sizes 1..30) x thresholds x requested ranks x plain/transposed x 1..5 right-hand sides x input forms; non-trivial: n>=2, at least one kept direction and conditioning low enough to be judged', assumptions=FP),
    'P12': dict(bins=[dict(src=['p12'], vts=ALL)],
                rule='generated matrices x kernels (general, symmetric, partially symmetric, pivoting) x thresholds, fill factors and inverse-norm bounds, every level recomputed densely; plus direct calls of the dropping rules; non-trivial: n>=3, at least one entry really dropped or pivot deferred, and no decision within rounding of its threshold', assumptions=FP),
    'P22': dict(bins=[dict(src=['p22'], vts=ALL, flags=['-fopenmp'])],
                rule='random factors, off-diagonal blocks, permutations and scalings x drop sizes x 1..8 threads, kernels called directly; non-trivial: all blocks non-empty and the result has at least one entry', assumptions=FP),
    'P13': dict(bins=[dict(src=['p13'], vts=ALL)],
                rule='compressed storages of both orders built from random and degenerate shapes, wrapped or owned, under conversions, splits, pruning, scaling, assembling and structure checks incl. corrupted structures; non-trivial: at least two entries (conversions) or a structure really changed or corrupted', assumptions=FP),
    'P14': dict(bins=[dict(src=['p14'], vts=ALL, flags=['-fopenmp'])],
                rule='rectangular and square storages of both orders x mixed vector types x 1..several vectors x thread-parallel variants; non-trivial: a matrix of at least two entries, for solves at least two unknowns', assumptions=FP),
    'P15': dict(bins=[dict(src=['p15'], vts=ALL)],
                rule='histories of assembling, interchanging, deferring, copying and moving on both augmented storages; non-trivial: at least two interchanges or deferrals on at least four entries', assumptions=FP),
    'P16': dict(bins=[dict(src=['p16'], vts=ALL)],
                rule='histories of container operations with shared, wrapped, moved and failed buffers; non-trivial: writes seen through shared buffers or repeated growth (arrays), more than three entries (dense), repeated pushes and deletions (sparse vectors), fewer entries than the size (sorting), at least two changes on more than three elements (permutations)', assumptions=FP),
    'P17': dict(bins=[dict(src=['p17'], vts=ALL)],
                rule='random square patterns (full, permuted, missing, random diagonals, symmetric or not) x value ranges x leading block sizes x pre-scaling, matching and reordering variants; non-trivial: leading block of more than two rows (matching), scaled matrices with more entries than rows (scaling), more than three rows with off-diagonal entries (orderings)', assumptions=FP),
    'P18': dict(bins=[dict(src=['p18'], vts=ALL, repo_src=['libhifir/src/libhifir.cpp'])],
                rule='matrices of both orders and several index types, vectors, files of an independent writer (layout, case, comments, symmetric variants), malformed and byte-mutated files, failing allocations and writes; non-trivial: at least two entries, for faults an injected failure which happened', assumptions=FP),
    'P19': dict(bins=[dict(src=['p19'], vts=ALL, repo_src=['libhifir/src/libhifir.cpp']),
                      dict(src=['p19'], vts=[0, 3], flags=['-DLIBHIFIR_INT_SIZE=64'], repo_src=['libhifir/src/libhifir.cpp'])],
                rule='histories of up to 18 C calls over several matrix handles (with, without, with invalid data, 0- and 1-based, row/column major) and one preconditioner, incl. mixed precision; non-trivial: at least three successful operations', assumptions=FP),
    'P20': dict(bins=[dict(src=['p20'], vts=[0], repo_src=['libhifir/src/libhifir.cpp'])],
                rule='random option sets, texts (blank, truncated, garbage, several sets in a row), names (known, near misses, random) and verbose levels; non-trivial: stated per case', assumptions=FP),
    'P21': dict(bins=[dict(src=['p21'], vts=ALL)],
                rule='history: at least one factorization succeeded and at least one invalid matrix, wrong size or use of an empty object was rejected in the same history; structure: a corruption was applied; extremes: an extreme entry or option value was present', assumptions=FP),
    'P23': dict(bins=[dict(src=['p23'] + ['p23_' + c for c in 'base debug tight alpha nodrop keep high lu'.split()], vts=ALL)],
                rule='structured sparse square matrices (n<=24, some 60) x configurations of every kind, one program holding 8 builds of the library (default, HIF_DEBUG, HIF_RESERVE_FAC 1 and 0, HIF_NO_DROP_LE_UF with and without HIF_DISABLE_SPACE_DROP, HIF_HIGH_PRECISION_SOLVE, HIF_DENSE_MODE=0); non-trivial: n>=3, accepted, more entries than rows in the factors (accuracy comparisons: bound below the signal)', assumptions=FP),
    'P24': dict(bins=[dict(src=['p24'], vts=[1, 2], flags=['-fopenmp']), dict(src=['p24'], vts=[0, 3])],
                rule='flags: at least two selected flags print and at least 10 messages are compared; content: at least 3 Crout steps reported and deferrals, droppings or several levels; format: non-empty text', assumptions=FP),
}
