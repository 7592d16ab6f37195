T = 'contract-based deductive verification of the LLVM IR compiled from the real functions (VC generation, z3)'
OPN = ('Every instantiated operator function in local/var_op that the property depends on is verified against its contract for all orders, offsets and coefficient values (loops by inductive closed forms). '
       'Assumes exact real arithmetic, mathematical integers, arguments before results on the tape. The sweep dispatch and the rest of the system are replayed natively on random programs against an independent Taylor/adjoint oracle: bounded, not counted as proved.')
CLAIMS = {'C01': (T, 'proof', OPN), 'C02': (T, 'proof', OPN), 'C03': (T, 'proof', OPN)}
REC = ('Every recording operation on AD objects that the property depends on is verified against its contract for all operand values and operand kinds, with the recorder functions used by contract over a ghost tape. '
       'Assumes exact real arithmetic and the AD object invariant. Whole recordings are replayed natively on random programs against direct evaluation: bounded, not counted as proved.')
CLAIMS['C04'] = (T, 'proof', REC); CLAIMS['C12'] = (T, 'proof', REC)
CLAIMS['C05'] = (T, 'proof', 'One arbitrary iteration of sweep::dynamic is verified for every dynamic operator code (the defined parameter receives its defining expression, nothing else changes, argument and parameter positions advance), with loop invariants checked at entry and preserved. '
    'Assumes exact real arithmetic and the recorder contract on the argument vectors. The atomic call code and whole update histories are replayed natively against direct evaluation and fresh recordings: bounded, not counted as proved.')
CO = ' Assumes the allocator contract and no overflow of size computations. Whole operation histories are replayed natively against std:: containers: bounded, not counted as proved.'
CLAIMS['C07'] = (T, 'proof', 'Every member function of the bit packed vector of sets is verified against its set-theoretic contract for all sizes and contents (bit vector reasoning on the machine words, loops by closed forms). The shared sorted list representation and the iterators are replayed only.' + CO)
CLAIMS['C15'] = (T, 'proof', 'Every member function of CppAD::vector, vectorBool, pod_vector and pod_vector_maybe (element type double) is verified against its contract for all sizes, capacities and contents: element values, ownership of exactly one live block, nothing lost or shared.' + CO)
CLAIMS['C16'] = (T, 'proof', 'index_sort and every member function of sparse_rc are verified against their contracts for all sizes and contents (std::sort by its contract). sparse_rcv and the other sparse containers are replayed only.' + CO)
CLAIMS['C14'] = (T, 'proof', 'get_memory, return_memory, create_array, delete_array, free_available, thread_info, the counters and the capacity table are verified against contracts over a ghost set of live blocks and the lists of available blocks, from an arbitrary state. Assumes operator new and sequential use per thread.' + CO)
CLAIMS['C17'] = (T, 'proof', 'Poly (value and derivatives, loop invariants) and the integer power (by its own contract, with termination) are verified for all degrees, orders and exponents. LuFactor (n <= 2) and LuInvert (n <= 3, every pivot order) are verified for all real entries of that size: bounded, not counted as proved. Exact real arithmetic. Replayed natively for larger sizes: bounded.')
CLAIMS['C13'] = (T, 'proof', 'The load and store operator functions (forward zero, forward, reverse) and the recording of every kind of load and store on the tape (all kinds of vector, index and value) are verified against their contracts for all sizes, indices and values, with the recorder functions used by contract. Assumes exact real arithmetic and indices in range. Whole recordings are replayed natively against direct evaluation and finite models: bounded, not counted as proved.')
CLAIMS['C11'] = (T, 'proof', 'azmul of double and float is verified against its contract; the reverse operator functions of local/var_op are verified to contribute exactly nothing for a result with zero partials (whole result, and one order inside an arbitrary iteration) with arbitrary, possibly infinite or nan, Taylor coefficients and parameters; forward azmul operators and its recording keep the absolute zero. Assumes zero times a finite partial is zero. The sweep is replayed natively on functions with infinite and nan results: bounded, not counted as proved.')
CLAIMS['C19'] = (T, 'proof', 'Jacobian (forward, reverse and the choice between them), Hessian (component and weights), ForOne, RevOne, ForTwo and RevTwo are verified for all dimensions, points, index selections and weights, with Forward, Reverse and the vector classes used by contract; their loops by invariants that are inferred and checked. Assumes exact real arithmetic and symmetric second partials. Replayed natively on random functions: bounded, not counted as proved.')
CLAIMS['C09'] = (T, 'proof', 'get_op_usage, get_op_previous and the writing loop of optimize_run are verified for every operator code by an arbitrary iteration each (uses propagate to every variable argument, skipping conditions are sound for every user, stores to used vectors are kept, matches take over the uses, each kept operator is written with its arguments renumbered); match_op is verified to match only equal operators. Cumulative sums, conditional expression information, parameter usage and the usage of atomic calls are replayed only. Whole optimizations are replayed natively on random programs and options against direct evaluation: bounded, not counted as proved.')
CLAIMS['C06'] = (T, 'proof', 'One arbitrary iteration of each sparsity sweep (for_jac, rev_jac, for_hes, rev_hes) is verified for every operator code over abstract sets: the patterns grow by those of the arguments (or result), by every pair of arguments with a second derivative that can be non-zero, and through VecAD vectors; dependency includes discrete functions, signs, comparisons in conditional expressions and indices; loops over sets and cumulative sums by their union. Subgraphs are replayed only, atomic calls are in C18. Whole patterns are replayed natively against Taylor series over dual numbers: bounded, not counted as proved.')
CLAIMS['C08'] = (T, 'proof', 'color_general_cppad is verified for all patterns, requested entries and sizes: an arbitrary iteration of its main loop gives a row a color that no conflicting earlier row has, the loops before it are summarised, and every index is in range. sparse_jac_for, sparse_jac_rev and sparse_hes are verified to set each entry to the element of the derivative of exactly the columns (rows) of its color. color_symmetric_cppad, subgraph_jac_rev and the old interface are replayed only. Colorings of random patterns and sparse derivatives of random functions are replayed natively: bounded, not counted as proved.')
CLAIMS['C18'] = (T, 'proof', 'atomic_forward_any, atomic_forward_dir, atomic_reverse (sequential and subgraph iterators), atomic_for_jac, atomic_rev_jac, atomic_for_hes and atomic_rev_hes are verified for all numbers of arguments, results, orders and directions: the user function receives exactly the parameters, types and coefficients (partials, patterns) of its arguments, once per call, and exactly its results are stored, partials accumulated. call_atomic_* (all seven, for the three interfaces) are verified to call the registered object once with the arguments unchanged; the sparsity callbacks of atomic_three and atomic_four are verified to select what matters and to propagate every entry of the patterns that the user function returns. The iterators are used by contract. The recording of calls and the conversions of the oldest interface are replayed natively on random functions that call atomic functions of every interface, before and after optimization: bounded, not counted as proved. Assumes exact real arithmetic and a valid recording.')
NB = 'No contract within reach of the verifier has been built for this property yet.'
NA = {p: NB for p in ['C%02d' % i for i in range(4, 21)] if p not in CLAIMS}
NA['C20'] = 'The verifier reasons about sequential code; a property over thread interleavings needs a concurrent separation logic for C++ that is not available here.'
