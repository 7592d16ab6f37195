"""Writes properties.jsonl (kept in one place so that it stays in step with the checks)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'hook_needed': None}})
I = 'include/cppad/'
prop('C01', 'Forward mode returns the Taylor coefficients of the recorded function',
 'For every recorded function, every order, every capacity and every way of splitting a request into consecutive order ranges, single direction forward mode returns exactly the Taylor coefficients of the function composed with the given input expansion. Every elementary operation defines all of its result coefficients from its argument coefficients by the power series identity of that operation. Nothing outside the requested orders of the results is modified.',
 ['inputs', 'programs', 'histories'], 'all operations, all operand kinds (variable or parameter), all argument positions including aliased arguments, all orders p..q below the capacity, all coefficient values in the domain of the operation',
 'Tests sample a few functions at a few points and orders, usually up to order two or three; the recurrences must be right for every order and every split of orders.',
 [I + 'local/var_op', I + 'local/sweep/forward_any.hpp', I + 'local/sweep/forward_0.hpp', I + 'core/forward/forward.hpp'],
 [('operator recurrences', I + 'local/var_op/*_op.hpp: *_forward_any, *_forward_0'), ('dispatch of the operation sequence', I + 'local/sweep/forward_any.hpp, forward_0.hpp'), ('order bookkeeping', I + 'core/forward/forward.hpp, core/capacity_order.hpp')])
prop('C02', 'Multiple direction forward mode equals separate single direction sweeps',
 'For every recorded function, number of directions and order, multiple direction forward mode returns for each direction exactly the Taylor coefficients that a single direction sweep with that direction would return. Directions never influence each other, and lower orders and other directions are not modified.',
 ['inputs', 'programs', 'histories'], 'all operations, all numbers of directions, all orders, all coefficient values in the domain',
 'Tests use two or three directions and order at most two; a mix up of directions or a wrong index at a higher order is invisible there.',
 [I + 'local/var_op', I + 'local/sweep/forward_dir.hpp', I + 'core/forward/forward.hpp'],
 [('operator recurrences', I + 'local/var_op/*_op.hpp: *_forward_dir'), ('dispatch', I + 'local/sweep/forward_dir.hpp')])
prop('C03', 'Reverse mode is the exact adjoint of forward mode',
 'For every recorded function, order and weighting, reverse mode returns the derivative of the weighted sum of the Taylor coefficients of the results with respect to every Taylor coefficient of the independent variables. Partials that other operations have already accumulated for an argument are added to, never lost. Forward coefficients are not modified.',
 ['inputs', 'programs'], 'all operations, all orders, all partial derivative vectors, all coefficient values in the domain, aliased arguments included',
 'Tests check reverse mode for single operations where the argument has no other use, at low order; accumulation across uses and high orders are sampled sparsely.',
 [I + 'local/var_op', I + 'local/sweep/reverse.hpp', I + 'core/reverse.hpp'],
 [('operator adjoints', I + 'local/var_op/*_op.hpp: *_reverse'), ('dispatch in reverse order', I + 'local/sweep/reverse.hpp'), ('weights and result order', I + 'core/reverse.hpp')])
prop('C04', 'A recording computes the same function as the code that was recorded',
 'For every combination of constant, dynamic parameter and variable operands, each arithmetic operation, compound assignment and elementary function on recorded objects yields the value of the operation now, and the recording evaluated at any other point yields the value of the operation there. Simplifications made while recording (for example multiplication by a constant one or zero) never change that value. Operands of another recording are treated as constants.',
 ['inputs', 'programs'], 'all operations, all operand kind combinations, all operand values, in particular zero and one',
 'Tests replay a few recordings near the recording point; a wrong simplification or swapped operand only shows for particular operand kinds and special values.',
 [I + 'core/add.hpp', I + 'core/sub.hpp', I + 'core/mul.hpp', I + 'core/div.hpp', I + 'core/pow.hpp', I + 'core/add_eq.hpp', I + 'core/mul_eq.hpp', I + 'core/standard_math.hpp', I + 'core/azmul.hpp', I + 'local/record/recorder.hpp'],
 [('operator recording', I + 'core/{add,sub,mul,div}{,_eq}.hpp, pow.hpp, azmul.hpp, unary functions'), ('constant folding and identities', 'IdenticalZero / IdenticalOne branches in the same files'), ('tape storage', I + 'local/record/recorder.hpp')])
prop('C05', 'Changing dynamic parameters equals recording again with the new values',
 'After new values are set for the independent dynamic parameters, every dependent dynamic parameter equals its defining expression at the new values, and every evaluation of the function equals that of a function recorded afresh with those values. Dynamic parameters that depend on other dynamic parameters are updated in dependency order. Constants are never changed.',
 ['inputs', 'programs', 'histories'], 'all operations between dynamic parameters and constants, all new values, all sequences of updates',
 'Tests update a few parameters of a few functions; each operation and operand kind needs its own update rule and all of them must agree with recording.',
 [I + 'local/sweep/dynamic.hpp', I + 'core/new_dynamic.hpp', I + 'local/record/dyn_recorder.hpp', I + 'local/record/put_dyn_atomic.hpp'],
 [('dynamic sweep', I + 'local/sweep/dynamic.hpp'), ('recording of dynamic operations', I + 'local/record/dyn_recorder.hpp'), ('entry point', I + 'core/new_dynamic.hpp')])
prop('C06', 'Sparsity patterns contain every derivative that can be non-zero',
 'For every recorded function and every input pattern, the Jacobian and Hessian sparsity patterns computed by forward mode, reverse mode and by subgraphs contain every entry for which the derivative is non-zero at any point. The bool and set representations give the same patterns. Dependency patterns also contain entries whose derivative is identically zero but whose value depends on the input.',
 ['inputs', 'programs'], 'all operations, all patterns, all points; nonlinear and linear use of every argument combination',
 'A missing entry is only seen by a test that uses that operation, argument position and pattern at a point where the derivative is non-zero.',
 [I + 'local/sweep/for_jac.hpp', I + 'local/sweep/rev_jac.hpp', I + 'local/sweep/for_hes.hpp', I + 'local/sweep/rev_hes.hpp', I + 'core/for_jac_sparsity.hpp', I + 'core/subgraph_sparsity.hpp'],
 [('Jacobian pattern propagation', I + 'local/sweep/for_jac.hpp, rev_jac.hpp, local/sparse/*setvec.hpp'), ('Hessian pattern propagation', I + 'local/sweep/for_hes.hpp, rev_hes.hpp'), ('subgraphs', I + 'local/subgraph/*.hpp')])
prop('C07', 'The vector-of-sets containers implement mathematical sets',
 'Each of the two representations of a vector of sets that the library uses (bit packed, and sorted lists that may be shared) behaves as a vector of mathematical sets under resize, add, post, clear, copy, union, intersection, membership, count and ordered iteration. An operation on one set never changes another set, also when sets share storage. Elements are visited in increasing order and each exactly once.',
 ['inputs', 'histories'], 'all sequences of operations on all sizes',
 'The defects such code has appear for particular histories (shared lists, unprocessed posts, word boundaries) that fixed test sequences do not reach.',
 [I + 'local/sparse/pack_setvec.hpp', I + 'local/sparse/list_setvec.hpp', I + 'local/sparse/size_setvec.hpp'],
 [('bit packed sets', I + 'local/sparse/pack_setvec.hpp'), ('linked lists with sharing', I + 'local/sparse/list_setvec.hpp'), ('vectors with sharing', I + 'local/sparse/size_setvec.hpp')])
prop('C08', 'Sparse Jacobians and Hessians equal the dense derivatives',
 'For every function, pattern that contains the true pattern, requested subset and coloring method, the computed sparse Jacobian or Hessian entries equal the corresponding dense derivatives. Two rows or columns that share a non-zero column or row never receive the same color when their values are needed.',
 ['inputs', 'programs', 'configurations'], 'all patterns, all subsets, all coloring methods, all group sizes',
 'Colorings depend on the whole pattern; tests use a few small structured patterns.',
 [I + 'core/sparse_jac.hpp', I + 'core/sparse_hes.hpp', I + 'local/color_general.hpp', I + 'local/color_symmetric.hpp', I + 'core/subgraph_jac_rev.hpp', I + 'core/sparse_jacobian.hpp', I + 'core/sparse_hessian.hpp'],
 [('general coloring', I + 'local/color_general.hpp'), ('symmetric coloring', I + 'local/color_symmetric.hpp'), ('recovery of entries', I + 'core/sparse_jac.hpp, sparse_hes.hpp')])
prop('C09', 'Optimizing a recording does not change the function it computes',
 'After optimization, with any combination of options, function values, derivatives and dependence on dynamic parameters are the same as before at every point. Operations that any result depends on, directly or through vector element storage, conditional expressions or atomic calls, are never removed or skipped.',
 ['programs', 'inputs', 'configurations'], 'all operation sequences, all option combinations, all points after optimization',
 'Optimization combines usage analysis, hashing of common expressions, cumulative sums and conditional skips; tests cover some combinations only.',
 [I + 'local/optimize/optimize_run.hpp', I + 'local/optimize/get_op_usage.hpp', I + 'local/optimize/get_par_usage.hpp', I + 'local/optimize/match_op.hpp', I + 'local/optimize/get_cexp_info.hpp'],
 [('usage analysis', I + 'local/optimize/get_op_usage.hpp, get_par_usage.hpp'), ('common sub-expressions', I + 'local/optimize/match_op.hpp'), ('rewriting', I + 'local/optimize/optimize_run.hpp')])
prop('C10', 'Exported graphs reproduce the function when imported',
 'Converting a recorded function to a graph or text representation and back yields a function with the same values and derivatives at every point and every value of the dynamic parameters.',
 ['programs', 'inputs'], 'all operation sequences that the graph format supports', 'Every operator and operand combination must survive two translations and a text format.',
 [I + 'core/graph', I + 'local/graph'], [('export', I + 'core/graph/to_graph.hpp'), ('import', I + 'core/graph/from_graph.hpp')])
prop('C11', 'An absolute zero weight or factor removes any contribution, even infinite ones',
 'The absolute zero product of zero and any value, including infinity and nan, is exactly zero, and it equals the ordinary product otherwise. In reverse mode a result whose weights are zero contributes exactly nothing to any argument, even when the Taylor coefficients of the operation are infinite or nan.',
 ['inputs', 'programs'], 'all operations, all orders, all coefficient values including infinities and nan',
 'Each operation multiplies by possibly infinite terms in several places; tests exercise it for a few operations at one point and low order.',
 [I + 'local/var_op', I + 'core/azmul.hpp', I + 'core/base_double.hpp'],
 [('azmul', I + 'core/base_double.hpp, base_float.hpp, azmul.hpp'), ('use of azmul in reverse operators', I + 'local/var_op/*_op.hpp: *_reverse')])
prop('C12', 'Comparisons and conditional expressions follow the new values on replay',
 'A conditional expression selects, on every evaluation of a recording, the branch determined by the values at that evaluation, for values and all derivatives, for every comparison and every mix of operand kinds. The reported number of changed comparisons equals the number of recorded boolean comparisons whose outcome differs from the recorded outcome, and the reported first change is the first one.',
 ['inputs', 'programs'], 'all comparison operators, all operand kinds, both outcomes at recording and at replay',
 'Sixteen operand kind combinations times five comparisons times both outcomes at record and replay time; tests reach a part of them.',
 [I + 'core/cond_exp.hpp', I + 'local/record/cond_exp.hpp', I + 'local/var_op/cexp_op.hpp', I + 'core/compare.hpp', I + 'local/record/comp_op.hpp', I + 'local/var_op/compare_op.hpp'],
 [('conditional expression operators', I + 'local/var_op/cexp_op.hpp'), ('recording of comparisons', I + 'core/compare.hpp, local/record/comp_op.hpp'), ('comparison replay', I + 'local/var_op/compare_op.hpp')])
prop('C13', 'Recorded vector element loads and stores follow the index values on replay',
 'An element read from a recorded vector returns, on every evaluation of the recording, the value last stored at the element that the index selects at that evaluation, or its initial value, for values and for all derivatives. Stores to one vector never affect another vector. Elements that hold parameters and elements that hold variables may be mixed freely.',
 ['inputs', 'programs', 'histories'], 'all sequences of loads and stores, all index values in range, all operand kinds',
 'Behaviour depends on which stores precede a load at run time; tests use short fixed sequences.',
 [I + 'core/vec_ad/vec_ad.hpp', I + 'local/var_op/load_op.hpp', I + 'local/var_op/store_op.hpp', I + 'local/sweep/forward_0.hpp'],
 [('load and store operators', I + 'local/var_op/load_op.hpp, store_op.hpp'), ('recording', I + 'core/vec_ad/vec_ad.hpp'), ('element tables', I + 'local/sweep/forward_0.hpp: vec_ad2index, vec_ad2isvar')])
prop('C14', 'The memory allocator hands out disjoint blocks and accounts for them exactly',
 'Every block returned by the allocator is at least as large as requested, is aligned, and does not overlap any other block in use. The reported in-use and available byte counts equal the sums over the blocks in use and the blocks held for reuse. Returning a block makes exactly that block available again.',
 ['inputs', 'histories'], 'all sequences of requests and returns of all sizes', 'Accounting errors appear only for particular sequences of sizes and returns.',
 [I + 'utility/thread_alloc.hpp'], [('size classes', I + 'utility/thread_alloc.hpp: capacity_info'), ('get and return', I + 'utility/thread_alloc.hpp: get_memory, return_memory')])
prop('C15', 'Vector containers keep their elements through every operation',
 'Resizing, appending, assigning, swapping and copying the vector templates preserves exactly the elements that the operation documents, reports the right size, and never aliases the storage of two vectors. Packed boolean vectors store and return each bit independently.',
 ['inputs', 'histories'], 'all sequences of operations, all sizes and capacities', 'Capacity boundaries and aliasing depend on history; tests use a few sizes.',
 [I + 'utility/vector.hpp', I + 'local/pod_vector.hpp', I + 'utility/vector_bool.hpp'],
 [('vector', I + 'utility/vector.hpp'), ('pod_vector', I + 'local/pod_vector.hpp'), ('vectorBool', I + 'utility/vector_bool.hpp')])
prop('C16', 'Index sorting and sparsity index structures are permutations in order',
 'Sorting keys returns a permutation of the indices that puts the keys in non-decreasing order. The row major and column major orders of a sparsity pattern are permutations of its entries that are sorted by row (column) first. The union of two sets contains exactly the elements of either. Two patterns compare equal exactly when they have the same dimensions and the same entries, in whatever order these are stored.',
 ['inputs'], 'all key vectors including repeated keys, all patterns, all sets', 'Tests use a few short vectors, mostly without repeated keys.',
 [I + 'utility/index_sort.hpp', I + 'utility/sparse_rc.hpp', I + 'utility/sparse_rcv.hpp', I + 'utility/set_union.hpp'],
 [('index_sort', I + 'utility/index_sort.hpp'), ('row_major, col_major', I + 'utility/sparse_rc.hpp'), ('set_union', I + 'utility/set_union.hpp')])
prop('C17', 'Polynomial, integer power and linear solver utilities compute their definitions',
 'The polynomial evaluator returns the requested derivative of the polynomial for every degree and derivative order. Integer powers equal repeated multiplication for every exponent including zero and negative ones. The linear solver returns the solution of the equations and the sign and logarithm of the determinant, or reports singularity.',
 ['inputs'], 'all degrees, derivative orders, exponents, matrices', 'Tests use one polynomial, a few exponents and small matrices.',
 [I + 'utility/poly.hpp', I + 'utility/pow_int.hpp', I + 'utility/lu_factor.hpp', I + 'utility/lu_invert.hpp', I + 'utility/lu_solve.hpp'],
 [('Poly', I + 'utility/poly.hpp'), ('pow_int', I + 'utility/pow_int.hpp'), ('LU', I + 'utility/lu_factor.hpp, lu_invert.hpp, lu_solve.hpp')])
prop('C18', 'User defined atomic functions are called consistently with their use',
 'When a recorded function contains calls to a user defined function, every evaluation passes it exactly the argument coefficients at that evaluation and uses exactly the results it returns, for values, forward derivatives, reverse derivatives and sparsity. The chain rule is applied across the call.',
 ['programs', 'inputs'], 'all argument kinds and positions, all orders', 'Depends on the position of the call in the recording and on argument kinds.',
 [I + 'core/atomic', I + 'local/sweep/call_atomic.hpp'], [('atomic calls', I + 'local/sweep/call_atomic.hpp, forward_any.hpp, reverse.hpp')])
prop('C19', 'Derivative driver routines return the documented derivatives',
 'For every function and point the Jacobian, Hessian, first and second partial derivative drivers return exactly the partial derivatives they document, in the documented order, for every choice of the number of inputs and outputs. Choosing forward or reverse mode internally does not change the result.',
 ['inputs', 'programs'], 'all dimensions, all index selections, all weights', 'Tests use one function per driver with fixed dimensions; index layout errors hide when dimensions agree or partials are symmetric.',
 [I + 'core/jacobian.hpp', I + 'core/hessian.hpp', I + 'core/for_one.hpp', I + 'core/rev_one.hpp', I + 'core/for_two.hpp', I + 'core/rev_two.hpp'],
 [('drivers', I + 'core/{jacobian,hessian,for_one,rev_one,for_two,rev_two}.hpp')])
prop('C20', 'Results do not depend on the number of threads or their interleaving',
 'When recording and evaluation run on several threads according to the documented rules, each thread obtains the same results as in a single threaded run, for every interleaving.',
 ['schedules'], 'all interleavings of correctly initialised threads', 'A test sees one interleaving.',
 [I + 'utility/thread_alloc.hpp', I + 'core/parallel_ad.hpp', I + 'local/ad_tape.hpp'], [('per thread state', I + 'core/tape_link.hpp, utility/thread_alloc.hpp')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
