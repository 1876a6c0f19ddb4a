CLAIMS = {
 'C01': dict(note='All vector operations, all lengths (unbounded loops), all aliasing partitions, both precisions; floating point by IEEE axioms with uninterpreted operations. Trusted: opkv VC generator, z3, clang/opt front end, libc contracts.'),
 'C02': dict(note='Every refusal path of the vector, box, convex set and operator functions, all combinations of missing or foreign arguments; vector algebra functions require existing vectors (only membership of a space is checked there). Text sizes and index values unbounded.'),
 'C03': dict(note='Every constructor with every allocation outcome, operands with any number of other references, hold/drop/release in both orders. Numbers of variables unbounded; memory size of the limited-memory optimizer m <= 3 (those units counted as bounded, not proved). An allocation larger than half the address space is assumed to fail.'),
 'C04': dict(note='All 64 bound-kind pairs, unbounded length. import of scalar arrays into bound vectors via the C01 contract of opk_vimport. NaN inputs and unordered bounds excluded by precondition.'),
 'C05': dict(note='Bound kinds none/scalar/vector (other kinds are decoded to these by code under contract in C04), both orientations, all aliasing of destination; NaN excluded.'),
 'C06': dict(note='Exact extrema of the per-component hitting steps as ghost fold functions; feasible finite point and finite direction assumed; overflowed steps count as the largest representable number.'),
 'C07': dict(note='All parameters, starts and histories of values and slopes (NaN included) for the three searches and for a caller-supplied one; private state of a search constrained only by inferred invariants; interval update of the cubic search under its own contract. Accuracy of the interpolation formulas is not specified.'),
 'C08': dict(note='Every method, with and without memory saving, any memory size, from an arbitrary state satisfying the object invariant (re-proved on exit), so for arbitrarily many iterations. Vector, box and line search operations by the contracts proved in C01, C04-C07; caller-made convex sets may fail.'),
 'C09': dict(note='Every method, with and without memory saving, any memory size, from an arbitrary state satisfying the object invariant (re-proved on exit), so for all histories. Inner products and norms are functions of the contents of their operands; line search outcomes unconstrained. The two-loop recursion is only required to write private vectors.'),
 'C10': dict(note='Every update rule and flag, from an arbitrary state (of an optimizer made by the real constructor) satisfying the object invariant, so for all histories. The update formulas, directions and first steps are proved with machine arithmetic treated as mathematical; everything else in the floating-point domain. Vector and line search operations by the contracts proved in C01 and C07.'),
 'C11': dict(note='The driver and both vector modules are the real code; the optimizers and the box are known by what they are given and what they return (their own behaviour is C02, C04 to C10). Every argument combination; calls from an arbitrary state.'),
 'C12': dict(note='Direct minimizers for every function (uninterpreted), unbounded loops; reverse communication by stage invariants between calls, every stage. Finite abscissae and interval widths, non-NaN values assumed. Termination is not claimed.'),
 'C13': dict(note='Every stage of the three solvers, all sizes and vectors, from an arbitrary state satisfying the private state invariant, so for all histories of answers. Elements of the vectors by universally quantified position; sums as fold functions. Machine arithmetic treated as mathematical.'),
 'C14': dict(note='Proved for all inputs: bounds, frame, matrix given back (both triangles and the diagonal), status, number of iterations; machine arithmetic left entirely uninterpreted. Kernels by the contracts proved in C15. Independence of the other triangle, norm of the step and accuracy: bounded harness (orders up to 8), not proved. All operands in distinct arrays.'),
 'C15': dict(note='Vector kernels, matrix-vector and matrix-matrix products and rank updates: every element, any sizes, strides (negative included), leading dimensions, flags; triangular products and solves: bounds, frame, argument codes proved, values by the bounded harness; Cholesky: bounds, triangle written, result codes proved, values by the harness. Machine arithmetic treated as mathematical; index products exact.'),
 'C16': dict(note='Texts and buffer sizes unbounded; all status codes; names identified up to equality of texts. C library string functions by assumed contracts.'),
 'C17': dict(note='All arguments, all histories of values (NaN included), unbounded numbers of iterations: evaluations counted by a ghost in the whole main loop of both entry points (irreducible control flow made reducible by a compiler pass); the content of the work arrays is arbitrary at every read. Bounds of the work arrays, direct against reverse communication, best point returned: bounded harness with address sanitizer, not proved. Arithmetic uninterpreted, comparisons exact.'),
 'C19': dict(note='All arguments, all histories of values (NaN included), unbounded numbers of iterations: one value and one set of constraints consumed and one evaluation counted per accepted call, from an arbitrary state of the context satisfying the private state invariant. Bounds of the work arrays, direct against reverse communication, returned point: bounded harness with address sanitizer, not proved. Arithmetic uninterpreted, comparisons exact.'),
 'C18': dict(note='All arguments, bounds, scales and histories of values (NaN included), unbounded loops: driver, main loop, first points and rescue each under contract; feasibility at an arbitrary position of every evaluated point (a NaN coordinate, which only non-finite data can produce, counts as not outside). Content of the work arrays arbitrary at every read; bounds of the work arrays and best point returned: bounded harness with address sanitizer. Arithmetic uninterpreted but for the IEEE facts listed, comparisons exact.'),
}
NAX = {}
