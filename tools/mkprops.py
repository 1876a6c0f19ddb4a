"""writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand after editing)"""
import json, os, sys
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


VEC = ['src/algebra.c', 'src/simple_vector.c', 'src/dblvector.c', 'src/fltvector.c']
BLAS = ['src/linalg.c', 'src/linalg-common.h', 'src/linalg-double.h', 'src/linalg-single.h', 'src/optimpack-linalg.h']

p('C01', 'Vector operations compute their documented formulas on every element',
  'For valid vectors of any length, filling, zeroing, copying, scaling, swapping, multiplying, linearly combining (two or three terms, any coefficients), importing, exporting, reading or writing one element, and taking inner products and norms yield exactly the documented value for every element or the documented sum. '
  'This holds in double and in single precision and whichever operands are the same vector or share storage. '
  'Nothing but the destination changes and no memory outside the vectors is touched.',
  ['inputs', 'configurations'], 'all lengths n >= 1, all element values including signed zeros, infinities and NaN, all coefficients (0, 1, -1 and general), all aliasing patterns, both precisions',
  'The tests run a few optimisers to convergence in double precision; they never compare one vector operation with its formula, never use single precision, and optimisers converge despite small errors.',
  VEC, [('element loops of the simple vector space', 'src/simple_vector.c: fill, copy, scale, swap, product, axpby, axpbypcz, dot, dot3, norm1, norm2, norminf, peek, poke, import, export'),
        ('dispatch, coefficient shortcuts', 'src/algebra.c: opk_v* functions')])

p('C02', 'Invalid arguments are refused without side effects',
  'A vector function given vectors of different spaces, an element index out of range, or a wrong element type or count, and a box, convex-set or linear-operator function, constructor or accessor given a missing object, one of another space, or an inconsistent bound, reports the documented error (status code, error number or error handler). '
  'In that case it modifies none of its arguments and reads or writes no memory outside them. '
  'Valid arguments are never refused.',
  ['inputs', 'fault_sequences'], 'all argument combinations: any subset of the arguments missing or belonging to another space, any index or type or count value',
  'The tests only pass valid arguments, so no refusal path is executed by them.',
  VEC, [('owner checks and error reporting', 'src/algebra.c: opk_v*, opk_project_*, opk_get_*, opk_apply_*, opk_new_boxset'), ('accessors', 'src/simple_vector.c: WRAP_VECTOR, GET_DATA, REWRAP_VECTOR')])

p('C03', 'Reference-counted objects live exactly as long as they are referenced',
  'An object is released exactly when its last reference is dropped: never earlier, never twice; and an object that refers to others (a vector to its space, a box to its bounds, a line search, an operator or an optimiser to its work vectors) holds one reference on each while it lives and gives each back once when it is released. '
  'When memory cannot be allocated, a constructor returns nothing and leaks nothing, with all reference counts as before. '
  'A user-supplied release callback for wrapped data is called exactly once, with its own client data.',
  ['inputs', 'histories', 'fault_sequences'], 'all objects and sizes; every allocation may fail; any interleaving of hold and drop on the objects',
  'The tests never make an allocation fail, never check reference counts, and run without leak detection.',
  VEC + ['src/vmlmb.c', 'src/nlcg.c', 'src/lnsrch.c', 'src/driver.c'],
  [('reference counting', 'src/algebra.c: opk_allocate_object, opk_hold_object, opk_drop_object, opk_get_object_references'), ('finalizers', 'finalize_* functions of every class'), ('constructors', 'opk_new_*, opk_allocate_*')])

p('C04', 'Projection onto a box is the exact componentwise clamp',
  'For every box with ordered bounds and every vector, projecting gives in each component the closest value inside the bounds: below the lower bound becomes the lower bound, above the upper bound becomes the upper bound, and a feasible component is returned unchanged. '
  'This holds for each way of giving either bound (none, scalar, static or volatile array, vector; float or double), both precisions, and in place. '
  'Neither the bounds nor (unless in place) the input change.',
  ['inputs', 'configurations'], 'all lengths, all 64 combinations of bound kinds, all non-NaN values including infinite bounds, in place or not, both precisions',
  'The tests only exercise a few bounded runs in double precision with one or two kinds of bounds.',
  VEC, [('clamp loops', 'src/simple_vector.c: boxprojvar'), ('bound decoding', 'src/algebra.c: box set_bound, get_bound, opk_project_variables')])

p('C05', 'Projected direction and free-variable mask follow the blocking rule exactly',
  'For every box, point and direction, a component is blocked exactly when the move (forward or backward according to the orientation) leaves the feasible set from a point at or beyond the corresponding bound. '
  'The projected direction is zero in blocked components and equal to the direction in the others; the mask of free variables contains only zeros and ones and, wherever the direction is non-zero, is zero exactly in blocked components. '
  'Other operands are unchanged; in-place use is allowed.',
  ['inputs', 'configurations'], 'all lengths, bound kinds, orientations, non-NaN values, aliasing of destination with the variables or the direction, both precisions',
  'The tests only see the rule through convergence of a few bounded problems, always with one orientation.',
  VEC, [('blocking loops', 'src/simple_vector.c: boxprojdir, boxfreevar'), ('dispatch', 'src/algebra.c: opk_project_direction, opk_get_free_variables')])

p('C06', 'Step limits are exactly the bound-hitting steps',
  'For a feasible point and any finite direction, the first limit is the smallest step at which some component reaches its bound, the second the smallest non-zero such step, and the third the step beyond which the projected point no longer moves (largest representable number when there is none). '
  'Any of the three outputs may be omitted. Nothing else is changed.',
  ['inputs', 'configurations'], 'all lengths, bound kinds, orientations, feasible points, finite directions, both precisions, any subset of outputs',
  'The tests never call this with a known answer; a wrong limit only slows convergence.',
  VEC, [('limit loops', 'src/simple_vector.c: boxsteplim'), ('dispatch', 'src/algebra.c: opk_get_step_limits')])

p('C07', 'Line searches respect their bounds and accept only steps that satisfy their test',
  'For every sequence of function values and slopes supplied by the caller, each line search keeps the step inside the given bounds, reports convergence only for a step that satisfies its acceptance conditions (sufficient decrease; plus curvature for the cubic search; relative to the worst of the last function values for the nonmonotone search), and otherwise asks for another evaluation or ends with a warning or error. '
  'Invalid parameters, bounds, or a non-descent slope at start are refused with the documented error; iterating a search that has not been started is refused. '
  'The nonmonotone search remembers exactly the given number of past values.',
  ['inputs', 'histories'], 'all line-search parameters, all initial data, all histories of function values and derivatives',
  'The tests drive the searches with a few smooth functions and check only final convergence.',
  ['src/lnsrch.c'], [('driver', 'src/lnsrch.c: opk_lnsrch_start, opk_lnsrch_iterate'), ('searches', 'src/lnsrch.c: backtrack_iterate, nonmonotone_iterate, csrch_iterate, opk_cstep')])

p('C08', 'The bound-constrained optimizer only ever asks for feasible points',
  'With bounds, every point at which the limited-memory optimizer asks the caller to evaluate the objective, and every iterate it delivers, satisfies all the bounds, whatever values and gradients the caller supplies and whatever the starting point (components that are not numbers excepted). '
  'Without bounds, the trial points follow the line-search formula from the iterate at the start of the search.',
  ['inputs', 'histories'], 'all objective values and gradients, all boxes, all starting points, all option settings, arbitrarily many iterations',
  'The tests evaluate only a handful of well-behaved problems and check only final values.',
  ['src/vmlmb.c'], [('start and trial point projection', 'src/vmlmb.c: opk_start_vmlmb, opk_iterate_vmlmb')])

p('C09', 'The limited-memory optimizer follows its protocol and counts faithfully',
  'Starting requests the function and gradient; every call with the requested values counts exactly one evaluation and ends in exactly one task (compute again, new iterate, final iterate, or error with its status), one iteration is counted exactly when the line search has accepted a new iterate, and calling iterate on a new iterate starts the next search along a descent direction, or along the steepest descent after dropping the memory. '
  'Convergence is declared exactly when the norm of the (projected) gradient is at most the larger of the absolute threshold and the relative threshold times its initial value, the memorized pairs are exactly the differences of the last successive iterates and gradients, and iterate in any other state is refused without changing anything. '
  'Options outside their valid range are refused as a whole, the default ones are valid, and at most the requested number of pairs is memorized.',
  ['inputs', 'histories'], 'all option values, memory sizes, boxes, all histories of objective values, gradients and line search outcomes',
  'The tests only run the regular protocol on a few problems with default options.',
  ['src/vmlmb.c'], [('protocol', 'src/vmlmb.c: opk_start_vmlmb, opk_iterate_vmlmb, opk_get_vmlmb_*'), ('pairs', 'src/vmlmb.c: update, slot'), ('options', 'src/vmlmb.c: opk_get_vmlmb_default_options, opk_check_vmlmb_options, opk_new_vmlmb_optimizer')])

p('C10', 'The conjugate gradient optimizer follows its protocol and counts faithfully',
  'Starting requests the function and gradient; every call with the requested values counts exactly one evaluation and ends in exactly one task (compute again, new iterate, final iterate, or error with its status), one iteration is counted exactly when the line search has accepted a new iterate, and calling iterate on a new iterate starts the next search along a descent direction given by the selected update rule, or along the steepest descent (a restart). '
  'Convergence is declared exactly when the gradient norm is at most the larger of the absolute threshold and the relative threshold times its initial value, every trial point is the iterate at the start of the search minus step times search direction, and iterate in any other state is refused without changing anything. '
  'Unknown methods and options outside their valid range are refused as a whole, and the default ones are valid.',
  ['inputs', 'histories'], 'all update methods and option values, all histories of objective values, gradients and line search outcomes',
  'The tests only run the regular protocol on a few problems.',
  ['src/nlcg.c'], [('protocol', 'src/nlcg.c: opk_start_nlcg, opk_iterate_nlcg'), ('options', 'src/nlcg.c: opk_get_nlcg_default_options, opk_check_nlcg_options, opk_new_nlcg_optimizer'), ('update rules', 'src/nlcg.c: update_*')])

p('C11', 'The simple optimizer driver hides the algorithm without changing it',
  'Creating a driver with an unknown algorithm, precision, size or inconsistent options fails cleanly; otherwise starting, iterating and querying the driver gives exactly what the selected optimizer gives for the same data, in both precisions. '
  'The driver evaluates into and out of the arrays supplied by the caller, only them, and refuses missing arrays.',
  ['inputs', 'configurations'], 'all algorithm, precision, size, bound and option arguments',
  'The tests use one or two drivers in double precision.',
  ['src/driver.c'], [('driver', 'src/driver.c: opk_new_optimizer, opk_start, opk_iterate, opk_get_*')])

p('C12', 'The one-dimensional minimizer keeps its bracket and its best point',
  'For every function (or history of supplied values, none of them NaN) and every finite starting interval, each abscissa proposed while refining lies inside the current bracket, the bracket never grows once established, and the reported minimum is the smallest value obtained so far, at the abscissa where it was obtained. '
  'Every evaluation is counted once, no more are made than requested, and convergence is declared exactly when the bracket is narrow enough for the requested relative precision. '
  'Invalid arguments and calls out of sequence are refused.',
  ['inputs', 'histories'], 'all starting data and all histories of function values, provided the width of the interval does not overflow',
  'The tests use a few smooth functions.',
  ['src/fmin.c'], [('rev-com minimizer', 'src/fmin.c: opk_fmin_next'), ('direct minimizers', 'src/fmin.c: opk_fmin, opk_fmin_with_context')])

p('C13', 'Linear conjugate gradients update their vectors by the documented recurrences',
  'For every size and all data, each stage of the reverse-communication conjugate gradient solver (plain, preconditioned and trust-region) leaves in the vectors exactly the documented combination, requests the documented next operation, and keeps the norm of the solution within the trust-region radius when one is given. '
  'Errors (non-positive-definite operator or preconditioner, invalid state) are reported and nothing outside the given vectors is written.',
  ['inputs', 'histories'], 'all sizes, all vectors, all stages, both precisions',
  'No test exercises these routines.',
  ['src/lcg.c'], [('solvers', 'src/lcg.c: opk_dplcg, opk_splcg, opk_dtrcg, opk_strcg')])

p('C14', 'The trust-region subproblem solver respects its contract',
  'For every symmetric matrix given by one triangle, every linear term and positive radius, the trust-region subproblem solver does not depend on the other triangle, gives the matrix back symmetric and unchanged, writes nothing else than its outputs and work arrays, and performs no more than the given number of iterations. '
  'It returns one of the documented statuses; when it reports convergence the step has no more than the norm allowed by the radius and its relative tolerance, and the reduction of the quadratic is within the documented factor of the best one.',
  ['inputs'], 'all sizes, all matrix and vector values, all tolerances',
  'No test exercises this routine.',
  ['src/gqtpar.c'], [('solver', 'src/gqtpar.c: opk_dgqt, opk_sgqt'), ('singular vector estimate', 'src/gqtpar.c: opk_destsv, opk_sestsv')])

p('C15', 'The dense linear algebra kernels compute the documented results',
  'For all sizes, strides and flags, each dense linear-algebra kernel (vector sums, scaling, copies, swaps, dot products, norms, matrix-vector and matrix-matrix products, rank updates, triangular solves, Cholesky factorisation) reads and writes only the elements designated by its arguments, computes the documented combination of them, and leaves everything else unchanged. '
  'Illegal arguments are reported by the documented negative or positive code without any write.',
  ['inputs'], 'all sizes, leading dimensions, increments (negative included), transposition and triangle flags, both precisions',
  'No test calls most of these kernels; the others only see unit strides.',
  BLAS, [('kernels', 'src/linalg.c')])

p('C16', 'Text and lookup utilities never overrun and always terminate their strings',
  'Copying a text into a caller buffer of any size writes at most that many bytes, always terminates the result when there is room for at least one byte, and returns the size needed for the whole text; descriptions of optimizers obey the same rule. '
  'Every known status code has its own fixed documented explanation, unknown codes are never confused with a known one, and named constants are found, with their value, exactly when their name is known.',
  ['inputs'], 'all texts, all buffer sizes including zero and missing buffers, all status codes',
  'The tests print a few strings into large buffers.',
  ['src/utils.c', 'src/nlcg.c', 'src/vmlmb.c', 'src/lnsrch.c'], [('copy', 'src/utils.c: opk_copy_string'), ('status texts', 'src/utils.c: opk_get_reason'), ('constants', 'src/utils.c: opk_get_integer_constant')])

p('C17', 'The unconstrained derivative-free solver checks its arguments and its protocol',
  'Invalid dimensions, number of interpolation points, trust-region radii or scales are refused before the objective is evaluated; contexts are created only for valid arguments. '
  'In reverse communication, each iterate call in the proper state counts one evaluation, any other call is refused with the documented status, and restarting resets the state. '
  'The objective is never evaluated more than the given number of times.',
  ['inputs', 'histories'], 'all argument values, all histories of function values',
  'The tests use a few valid settings on one function.',
  ['src/newuoa.c'], [('entry points', 'src/newuoa.c: newuoa_optimize, newuoa_create, newuoa_iterate, newuoa_restart')])

p('C18', 'The bound-constrained derivative-free solver evaluates only feasible points',
  'No point at which the objective is evaluated, and no returned point, has a variable outside its bounds, whatever the function returns, with or without scaling; invalid dimensions, number of interpolation points, radii, scales or too narrow bounds are refused before any evaluation and any change. '
  'The objective is never evaluated more than the given number of times (at least one evaluation is made), and the returned point is the best of those evaluated.',
  ['inputs', 'histories'], 'all argument values, all bounds, all histories of function values',
  'The tests check only the final result on one problem family.',
  ['src/bobyqa.c'], [('entry and main loop', 'src/bobyqa.c: bobyqa_optimize, bobyqb, rescue, prelim')])

p('C19', 'The constrained derivative-free solver checks its arguments and its protocol',
  'Contexts are created only for valid arguments; each iterate call in the proper state consumes exactly one set of objective and constraint values and counts one evaluation, any other call is refused with the documented status, and restarting resets the state. '
  'The objective is never evaluated more than the given number of times, and a refused call changes nothing.',
  ['inputs', 'histories'], 'all argument values, all histories of function and constraint values',
  'The tests use a few valid settings on ten fixed problems.',
  ['src/cobyla.c'], [('entry points', 'src/cobyla.c: cobyla_optimize, cobyla_create, cobyla_iterate, cobyla_restart')])

p('C20', 'The optimizers converge on smooth problems',
  'On every smooth objective bounded below, the iterates of the large-scale optimizers reach a point where the (projected) gradient is below the requested threshold, for any starting point.',
  ['inputs', 'histories'], 'all smooth objectives and starting points',
  'Tests cover a fixed list of problems.',
  ['src/vmlmb.c', 'src/nlcg.c', 'src/lnsrch.c'], [('optimizers', 'src/vmlmb.c, src/nlcg.c')])

TECH = 'contract-based deductive verification of the real C code: symbolic-execution VC generation over the clang LLVM IR of the current /repo sources, loop invariants inferred and proved inductive, obligations discharged by z3'
NOTE = {}
NA = {'C20': 'liveness over whole optimisation histories with real analysis (global convergence): no function contract can express or decide it in floating point'}
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
try:
    from claims import CLAIMS, NAX
    NA.update(NAX)
except ImportError:
    CLAIMS = {}
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
M = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for q in P:
    i = q['id']
    if i in CLAIMS:
        c = CLAIMS[i]
        M['checks'].append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s' % i, technique=c.get('technique', TECH), level=c.get('level', 'proof'), level_note=c['note']))
    else:
        M['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check yet: contracts for this part are not written')))
json.dump(M, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
