INC = "include/proxsuite-nlp/"
SOLVER = [INC + "prox-solver.hpp", INC + "prox-solver.hxx"]
PROPS = []
TECH = "abstract interpretation of clang's typed AST into normalised terms, compared with the specified terms"


def P(id, title, statement, over, text, why, files, mech, note="", technique=TECH, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
         "technique": technique, "note": note}
    if na:
        d["na"] = na
    PROPS.append(d)


P("A01", "Success certifies the returned point",
  "Whenever a solve reports success, the primal infeasibility and dual infeasibility it reports are each at most the target tolerance, "
  "and they are those of the very primal point and multipliers it returns: the distance of each constraint value to its set measured at the shifted constraint, and the norm of the Lagrangian gradient. "
  "Once success is reported, no further iteration runs and neither the returned point, multipliers, status nor the reported infeasibilities change.",
  ["inputs", "configurations", "histories"],
  "every problem, manifold, constraint sets, starting point, option combination and earlier use of the solver",
  "tests run a handful of problems to convergence under one option set; the claim ranges over all problems and option combinations (multiplier update modes, KKT variants)",
  SOLVER, [("convergence test", INC + "prox-solver.hxx solve()"), ("residual computation", INC + "prox-solver.hxx innerLoop(), computePrimalResiduals()"),
           ("multiplier acceptance", INC + "prox-solver.hxx acceptMultipliers()")],
  "whole-solve summary; user functions, sets and manifolds are uninterpreted; buffers' layout is taken from A06")

P("A05", "Newton system and merit function match the documented formulas",
  "At every iteration the matrix factorised, the right-hand side solved for, the iterative-refinement residual, the first-order and primal-dual multiplier estimates, the merit value, its gradients and its directional derivative are exactly the documented primal-dual augmented-Lagrangian formulas of the current iterate, multipliers, penalty and proximal weight. "
  "This holds for every KKT variant and Hessian approximation, for any number and sizes of constraints; the inertia correction only ever adds a multiple of the identity to the primal block, and the matrix used afterwards does not contain it.",
  ["inputs", "configurations", "histories"],
  "every problem (any number of constraint blocks), KKT system variant, Hessian approximation, multiplier and penalty value, at every iteration",
  "tests see only final results of a few solves, from which a wrong block or a stale block cannot be told apart from slow convergence",
  SOLVER + [INC + "pdal.hpp", INC + "pdal.hxx", INC + "constraint-set.hxx"],
  [("KKT assembly", INC + "prox-solver.hxx assembleKktMatrix()"), ("right-hand side", INC + "prox-solver.hxx innerLoop()"),
   ("merit function", INC + "pdal.hxx"), ("refinement", INC + "prox-solver.hxx iterativeRefinement()")],
  "matrices are followed as terms block by block; buffers' layout is taken from A06")
P("A02", "Every solve terminates within its budgets",
  "Every solve returns (or throws): the outer loop ends after at most the configured number of multiplier iterations or once the total iteration budget is spent, each inner loop ends by convergence or by the iteration budget, the inertia-correction loop stops once its regularisation exceeds its maximum or succeeds, and every other loop of the solve has a fixed bound. "
  "The iteration counters reported are exactly the numbers of accepted steps and of multiplier iterations, and the reported status is success only when convergence was established and the iteration-limit status exactly when the iteration budget ended the solve.",
  ["inputs", "configurations", "histories"],
  "every problem, starting point, option combination and outcome of user functions, factorisations and line searches",
  "termination and budget accounting must hold on the paths that fail to converge, which tests do not take",
  SOLVER, [("outer loop", INC + "prox-solver.hxx solve()"), ("inner loop and inertia correction", INC + "prox-solver.hxx innerLoop()")],
  "the bound of each loop is read off its break conditions and counters; exceptions end a solve")

P("A03", "Penalty, tolerance and multiplier schedule of the outer loop",
  "After each inner solve the primal infeasibility decides the branch: if it is at most the current primal tolerance the multipliers are replaced by the selected estimate and the tolerances are tightened, otherwise the multipliers are kept, the penalty is reduced by the configured factor (never below its lower bound) and the tolerances are reset from it. "
  "Tolerances never fall below the target tolerance, and penalty and proximal weights are passed to the merit function and to the sets whenever they change.",
  ["inputs", "configurations", "histories"],
  "every problem, option combination and history of successful and failed multiplier updates",
  "a wrong schedule still converges on easy problems; only rare sequences of failed updates expose it",
  SOLVER + [INC + "bcl-params.hpp"], [("schedule", INC + "prox-solver.hxx solve(), updateTolsOnFailure(), updateTolsOnSuccess(), setPenalty()")],
  "relations between the loop-carried state at the head and at the back edge of the outer loop")

P("A04", "A solve depends only on its inputs",
  "What a solve returns is a function of the problem, the starting point and multipliers, and the options: nothing left in the solver, its workspace or its results by setup or by earlier solves influences the iterates, and every quantity used at an iterate was computed at that iterate. "
  "The overloads that take vectors, lists or a bare starting point run the same algorithm on the same values.",
  ["histories", "inputs", "configurations"],
  "every sequence of solves with one solver object, including solves that ended by throwing, for each Hessian approximation without memory",
  "tests solve once per solver object; stale state needs particular histories to show",
  SOLVER + [INC + "workspace.hpp", INC + "results.hpp"],
  [("start of a solve", INC + "prox-solver.hxx solve()"), ("use of workspace buffers", INC + "prox-solver.hxx innerLoop()")],
  "dependence closure over the whole-solve summary; the quasi-Newton memory is excluded (documented to persist until setup)")

P("A07", "Line search returns an evaluated, sufficiently decreasing step",
  "The line search first tries the full step, then only evaluates the merit function at interpolated or bisected candidates clipped to the contraction interval, and ends after finitely many evaluations: on the Armijo condition, on the minimum step, or on its budget. "
  "The merit value it returns is the one evaluated at the step it returns, and the point, multipliers and merit value the solver accepts are those of that step. "
  "Interpolated candidates are the minimisers of the polynomials that match the sampled values and slopes.",
  ["inputs", "configurations"],
  "every merit function (including ones with NaN or increasing values), slope, interpolation type, contraction interval and minimum step",
  "tests evaluate two or three smooth functions and look only at the final step",
  [INC + "linesearch-armijo.hpp", INC + "linesearch-base.hpp", INC + "prox-solver.hxx"],
  [("backtracking loop", INC + "linesearch-armijo.hpp run()"), ("interpolation", INC + "linesearch-armijo.hpp minimize_interpolant()"), ("accepted step", INC + "prox-solver.hxx innerLoop()")],
  "relations between the loop-carried samples of the backtracking loop; the merit function is uninterpreted")

CONS = [INC + "constraint-set.hpp", INC + "constraint-set.hxx", INC + "modelling/constraints/equality-constraint.hpp", INC + "modelling/constraints/negative-orthant.hpp",
        INC + "modelling/constraints/box-constraint.hpp", INC + "modelling/constraints/l1-penalty.hpp"]
P("B01", "Constraint set operators are the documented ones",
  "For every point, each constraint set's projection (or proximal operator), its projection onto the normal cone, its active set and its value are, element by element, those documented for it: zero for equalities, the negative part, clamping to the bounds, soft thresholding by the penalty. "
  "The two projections always sum to the point, the Jacobian of the projection zeroes exactly the active rows and that of the normal-cone projection exactly the others, and the Moreau envelope is the value at the projected point plus the squared normal-cone part over twice the penalty.",
  ["inputs", "configurations"],
  "every dimension, point (including points on the boundary), bounds with lower <= upper, penalty and Jacobian matrix",
  "tests check a few points of two sets; boundary points and the pairing of active set, projections and Jacobians are not sampled",
  CONS, [("projections and active sets", INC + "modelling/constraints/"), ("generalised Jacobians", INC + "constraint-set.hxx"), ("Moreau envelope", INC + "constraint-set.hpp evaluateMoreauEnvelope()")],
  "outputs are terms over an arbitrary element of the arguments")

P("B02", "A product of constraint sets acts block by block",
  "Every operation of a product of constraint sets (value, both projections, active set, both Jacobian applications) gives, on each block of its argument, exactly what the component set gives on that block, whatever the number and sizes of the blocks. "
  "Parameters given to the product reach every component, also through the base interface, and construction is refused when the numbers of sets and of block sizes differ.",
  ["inputs", "configurations"],
  "every number, kind and sizes of components, including empty blocks and nested products",
  "no test builds a product with components of different kinds and sizes",
  [INC + "modelling/constraints/constraint-set-product.hpp", INC + "constraint-set.hpp"],
  [("block operations", INC + "modelling/constraints/constraint-set-product.hpp")],
  "component operations are uninterpreted; offsets are prefix sums of the block sizes")

FUN = [INC + "function-base.hpp", INC + "cost-function.hpp", INC + "cost-sum.hpp", INC + "cost-sum.hxx"]
P("B03", "Sums and multiples of costs evaluate to the weighted sum of their terms",
  "Whatever expression of costs is built (sum of costs, multiple of a cost, appending to or scaling a sum, negation), its value, gradient and Hessian at a point are the sums of its terms' ones with the weights of the expression, and making one leaves its operands unchanged. "
  "A cost used as a function has that cost as its only output, its gradient as Jacobian and its scaled Hessian as vector-Hessian product; a function of one output used as a cost likewise, and functions with another number of outputs are refused.",
  ["inputs", "configurations"],
  "every number of terms, weights, terms, points and order of building operations",
  "tests add two quadratic costs with fixed weights; aliasing of operands and weights of later terms are not sampled",
  FUN, [("sum", INC + "cost-sum.hpp"), ("building operators", INC + "cost-sum.hxx"), ("adapters", INC + "cost-function.hpp")],
  "terms and weights are arbitrary sequences; results are compared as sums over them")

P("B04", "Composition evaluates the outer function at the inner value",
  "The composition of two functions has as value the outer function's value at the inner function's value, as Jacobian the outer Jacobian at that value times the inner Jacobian, the inputs of the inner and the outputs of the outer function. "
  "Functions whose dimensions do not fit are refused, and a function reports the dimensions it was built with; versions that return a new vector or matrix give it those dimensions.",
  ["inputs", "configurations"],
  "every pair of functions, dimensions and points",
  "tests compose functions for which the evaluation point of the outer Jacobian does not matter (linear ones)",
  [INC + "function-ops.hpp", INC + "function-base.hpp"], [("composition", INC + "function-ops.hpp")],
  "component functions are uninterpreted")

P("B05", "Quadratic residual costs are the documented quadratic forms at the point given",
  "For residual e(x), weights W, slope s and constant c, the cost's value, gradient and Hessian at any point are 1/2 e'We + e's + c, J'(We + s) and J'WJ, plus the residual's curvature along We + s when the Gauss-Newton approximation is off, regardless of which evaluations came before. "
  "The quadratic distance measures from its current target, with identity weights and the neutral element by default; weights and slopes have the size of the residual.",
  ["inputs", "configurations", "histories"],
  "every residual, weights, slope, constant, point and history of earlier evaluations of the same object",
  "tests call value, gradient and Hessian in that order at one point, with no slope",
  [INC + "modelling/costs/quadratic-residual.hpp", INC + "modelling/costs/quadratic-residual.hxx", INC + "modelling/costs/squared-distance.hpp"],
  [("evaluation", INC + "modelling/costs/quadratic-residual.hxx"), ("target", INC + "modelling/costs/squared-distance.hpp")],
  "cached members are arbitrary at entry, so a dependence on an earlier evaluation shows in the term")

P("B06", "Residual functions compute what they document",
  "The affine residual is Ax + b with Jacobian A; the state residual is the tangent vector from its target to the point, with the derivative of that vector with respect to the point as Jacobian; the affine state residual is their composition. "
  "Dimensions follow from the matrix and the space, and a target that is not an element of the space, or of the wrong size, or a matrix of the wrong size is refused.",
  ["inputs", "configurations"],
  "every matrix, vector, manifold, target and point",
  "on vector spaces both argument orders and both Jacobian arguments agree up to sign, and tests use few manifolds",
  [INC + "modelling/residuals/linear.hpp", INC + "modelling/residuals/state-residual.hpp"],
  [("affine residual", INC + "modelling/residuals/linear.hpp"), ("state residual", INC + "modelling/residuals/state-residual.hpp")],
  "the manifold's operations are uninterpreted")

P("B07", "Finite differences are central ones along every tangent direction",
  "Column i of a finite-difference Jacobian is the difference of the values at the points displaced by plus and minus the step along the i-th tangent direction alone, divided by twice the step; column i of the vector-Hessian product is the same difference of Jacobians, transposed, times the vector. "
  "Every column is written, values (and, at second order, Jacobians) are the function's own, and dimensions are those of the space and function.",
  ["inputs", "configurations"],
  "every function, manifold, step, point, vector and dimension",
  "a wrong direction or scaling in one column passes tolerance-based comparisons on the few functions tested",
  [INC + "modelling/autodiff/finite-difference.hpp"], [("difference quotients", INC + "modelling/autodiff/finite-difference.hpp finite_difference_impl")],
  "one arbitrary column; function and manifold are uninterpreted")
P("B08", "Manifold products and tangent bundles act part by part",
  "Integration, difference, interpolation, their Jacobians and transport act on a product factor by factor in order and on a tangent bundle as the base's operation on base coordinates and the flat one on the tangent part, with zero Jacobian blocks between parts; flat spaces use addition, subtraction and identity. "
  "Neutral, random, merged and split points and the dimensions follow the same layout, a vector of another size is refused, a point belongs to a product exactly when each part belongs to its factor, and to a bundle exactly when its base point does. "
  "Products built by constructors, appending or multiplication keep the factors' order, and the allocating and default operations equal the primitives they are named after.",
  ["inputs", "configurations"],
  "every number, order and nesting of factors, base manifold, point, tangent vector, argument index and interpolation parameter",
  "the tests that build products need an optional dependency and sample two or three factors of equal dimension, where a wrong offset or order is invisible",
  [INC + "modelling/spaces/cartesian-product.hpp", INC + "modelling/spaces/cartesian-product.hxx", INC + "modelling/spaces/tangent-bundle.hxx", INC + "modelling/spaces/tangent-bundle.hpp", INC + "modelling/spaces/vector-space.hpp", INC + "manifold-base.hpp"],
  [("block loops", INC + "modelling/spaces/cartesian-product.hxx"), ("base/tangent split", INC + "modelling/spaces/tangent-bundle.hxx")],
  "one arbitrary factor of an arbitrary product; factors and base are uninterpreted, so Lie-group formulas themselves are out of scope")

P("A06", "The solver's working memory is laid out like the problem",
  "After setup, the view of constraint k into each stacked vector or matrix (multipliers, values, shifted values, Jacobians, Hessian products) is exactly the rows of constraint k of its own buffer, one view per constraint, and the primal and dual steps split the Newton step; no buffer is reallocated once views of it exist. "
  "Every buffer has the size the problem asks for and starts at zero, the results start at the neutral element with zero multipliers and counters, and nothing is shared between two different quantities or left uninitialised. "
  "A solver uses the problem, penalty, tolerance, exponents and factorisation it was configured with.",
  ["inputs", "configurations"],
  "every problem: any number of constraints of any (also zero) dimension, any manifold, any configuration",
  "a wrong view aliases memory silently and shows only with two or more constraints of different sizes",
  [INC + "workspace.hpp", INC + "results.hpp", INC + "prox-solver.hxx", INC + "problem-base.hpp"],
  [("workspace constructor", INC + "workspace.hpp WorkspaceTpl()"), ("per-constraint views", INC + "problem-base.hpp createConstraintWiseView()"), ("results", INC + "results.hpp ResultsTpl()"), ("solver constructor and setup", INC + "prox-solver.hxx")],
  "the constructors' summaries: views are symbolic ranges for an arbitrary constraint index")

P("A10", "A problem's layout and evaluation match its constraints",
  "However a problem is built (constraints given at construction or added later), the dimension, first row and total it reports are those of the constraints it holds, in the order they were added. "
  "Evaluating it, its derivatives or its Hessians at a point stores the cost's result and, in the slot of each constraint, that constraint's result at that point, and nothing else; constraint Hessians are taken along the primal-dual multiplier and computed only for sets that need them unless all are requested. "
  "Multipliers given constraint by constraint to the solver are placed at the rows of their constraint, and refused if their number is wrong.",
  ["inputs", "histories"],
  "every sequence of additions, every number and size of constraints, every point and multiplier",
  "tests build problems with one or two constraints of equal size and never extend them after a solve",
  [INC + "problem-base.hpp", INC + "prox-solver.hxx"],
  [("layout", INC + "problem-base.hpp reset_constraint_dim_vars()"), ("evaluation", INC + "problem-base.hpp evaluate(), computeDerivatives(), computeHessians()"), ("multiplier packing", INC + "prox-solver.hxx solve(x0, vector)")],
  "summaries of the methods for an arbitrary constraint index; functions and sets are uninterpreted")
P("A08", "The Hessian approximation is the one asked for, and BFGS is the textbook update",
  "The objective Hessian entering the linear system is exactly what was configured: exact or Gauss-Newton second derivatives, the identity, or a quasi-Newton matrix that starts at the identity at every setup and is refused on manifolds whose points and steps differ in dimension. "
  "A quasi-Newton update from the step s and gradient change y replaces the matrix by the documented rank-two formula when s.y is positive, leaves it alone (and reports so) otherwise, and leaves it alone on the first call. "
  "The point and gradient given to each call become the previous ones of the next, whether or not the matrix was updated, and an approximation without a dimension refuses to work.",
  ["inputs", "histories"],
  "every sequence of points and gradients, every matrix, every configuration and manifold",
  "tests run one or two quadratic problems with the update and never hit non-positive curvature or a second setup",
  [INC + "bfgs-strategy.hpp", INC + "prox-solver.hpp", INC + "prox-solver.hxx"],
  [("update formula", INC + "bfgs-strategy.hpp BFGSStrategy::update()"), ("restart", INC + "prox-solver.hpp setup()"), ("selection", INC + "prox-solver.hxx computeProblemDerivatives()")],
  "both kinds of update (Hessian and inverse) as matrix identities under the path condition")
P("A09", "Callbacks, log records and recorded history show the iterations as they were",
  "Every registered callback is invoked, in registration order, once after each accepted step and once when solve returns, and sees the point, multipliers and merit that step or solve ends with. "
  "The record logged for a step holds its number, step length, residuals, directional derivative, merit and merit change under the column of that name, and a silenced logger prints nothing. "
  "The history recorder appends one entry per call with the values of that moment, only for the quantities it was asked to store, and what it stores does not change or dangle afterwards.",
  ["inputs", "histories"],
  "every problem, number of iterations and of callbacks, every combination of recording options",
  "tests register no callback; a record that aliases live data looks right while the solver is alive",
  [INC + "prox-solver.hpp", INC + "prox-solver.hxx", INC + "helpers/history-callback.hpp", INC + "logger.hpp"],
  [("callbacks", INC + "prox-solver.hpp invokeCallbacks()"), ("log record", INC + "prox-solver.hxx innerLoop()"), ("history", INC + "helpers/history-callback.hpp call()"), ("columns", INC + "logger.hpp BaseLogger::log()")],
  "what callbacks registered by the user do with the data is outside; the text layout of the log is not checked")
P("A11", "Non-finite values are refused before they decide or are returned",
  "A NaN or infinite residual, system matrix, step, trial point, trial multiplier or merit raises an error before it is used to declare convergence, is factorised, starts a line search, is shown to a callback or replaces the returned point. "
  "The finiteness check is true exactly for scalars and matrices with a NaN or infinite entry, and the max-norm of a vector, matrix or list of blocks is its largest magnitude, zero when empty.",
  ["inputs", "faults"],
  "every problem function that may return NaN or infinity at any evaluation, every iteration",
  "tests use smooth functions that never overflow",
  [INC + "prox-solver.hxx", INC + "math.hpp", INC + "exceptions.hpp"],
  [("guards", INC + "prox-solver.hxx innerLoop()"), ("checks and norms", INC + "math.hpp check_value(), infty_norm()")],
  "path conditions at the uses: the value used must be the one checked; NaN arithmetic inside Eigen kernels is not modelled")
P("C04", "Reported signs and inertia of a factored matrix are those of its pivots",
  "For every factorisation the signature has one entry per row, the sign of each pivot; a 2x2 pivot block contributes the signs of its two eigenvalues, at any scale of the matrix, with a zero only when the block is singular. "
  "The inertia counts the positive, negative and zero entries in that order and refuses anything else.",
  ["inputs"],
  "every symmetric matrix of any size and scale",
  "tests check the signature of small well-scaled matrices; badly scaled 2x2 blocks and singular matrices are not sampled",
  [INC + "ldlt-allocator.hpp", INC + "linalg/dense.hpp", INC + "linalg/ldlt-base.hpp"],
  [("signature", INC + "ldlt-allocator.hpp bunch_kaufman_compute_signature(), ComputeSignatureVisitor"), ("inertia", INC + "ldlt-allocator.hpp computeInertiaTuple()")],
  "pivots of Eigen's own factorisation are taken as given; whether the pivots are right is another property")
P("C03", "The dense LDL^T factorisation multiplies back to the matrix and solves with it",
  "For every symmetric matrix whose leading blocks are nonsingular, of any size and on either side of the recursion threshold, the unit lower factor and the diagonal produced from its lower triangle multiply back to it. "
  "Solving applies the inverse of that product to each right-hand side, exactly null pivots giving null components, and leaves the given right-hand side alone; the reconstructed matrix is the product of the factors. "
  "The factorisation works on its own copy of the matrix, and reports success only after one has been performed.",
  ["inputs", "histories"],
  "every symmetric matrix without null leading minors, every size, every right-hand side, every order of use of one object",
  "tests factor a few random matrices of fixed sizes and accept a rounding-level residual",
  [INC + "linalg/dense.hpp", INC + "linalg/ldlt-base.hpp"],
  [("unblocked elimination", INC + "linalg/dense.hpp ldlt_in_place_unblocked()"), ("recursion", INC + "linalg/dense.hpp dense_ldlt_in_place()"), ("solve", INC + "linalg/dense.hpp dense_ldlt_solve_in_place()"), ("object", INC + "linalg/dense.hpp DenseLDLT")],
  "exact arithmetic: rounding and growth of the factors are outside; the identity of one elimination step and one recursion step is decided at sizes up to 5 with random rational entries")
P("C02", "The block-sparse LDL^T factorisation gives the same result as the dense one",
  "For every block structure and every symmetric matrix that respects it, each block product adds exactly the product of its two operands, and each elimination step leaves the factor of the block column and the Schur complement of the rest, whatever mix of zero, diagonal, triangular and dense blocks is involved. "
  "Solving applies the inverse of the factored matrix, block permutation included, with null pivots giving null components; the permuted input and the reconstruction follow the same permutation. "
  "Blocks it has no rule for and structures that were not analysed are reported as failures.",
  ["inputs"],
  "every block pattern, block sizes, block permutation, symmetric matrix and right-hand side",
  "tests factor a few random patterns with one or two block sizes; pairs of block kinds, unequal sizes and null pivots are not covered",
  [INC + "linalg/gemmt.hpp", INC + "linalg/block-ldlt.hpp", INC + "linalg/block-ldlt.hxx", INC + "linalg/block-triangular.hpp"],
  [("block products", INC + "linalg/gemmt.hpp gemmt()"), ("elimination", INC + "linalg/block-ldlt.hpp block_impl::ldlt_in_place_impl()"), ("triangular solves", INC + "linalg/block-triangular.hpp TriangularBlockMatrix::solveInPlace()"), ("solver object", INC + "linalg/block-ldlt.hxx BlockLDLT")],
  "exact arithmetic; step and solves are decided at up to 5 blocks of sizes 1 to 3 with random rational entries; changing the block permutation of an object already analysed is outside")
P("C01", "Block patterns compose to the smallest kind, and analysis predicts the fill-in",
  "The kind reported for a transposed, summed or multiplied block is the smallest kind that contains every entry the operation can produce, and symmetry and entry counts of a structure are those of the matrix it describes. "
  "Symbolic factorisation succeeds exactly when every pivot block can be eliminated, and the resulting structure has room for every entry the numeric factorisation produces; copies and permuted copies move each block and its length together. "
  "The permutation search tries every ordering from the identity on, keeps the one with fewest entries and reports orderings that cannot be factored; the default structure of a problem covers its whole KKT matrix.",
  ["inputs"],
  "every block structure, pattern combination and permutation",
  "one test prints a pattern and one checks a handful of random structures; a kind that is too small for the fill-in shows only as silently dropped entries for particular patterns",
  ["src/block-kind.cpp", INC + "linalg/block-kind.hpp", INC + "ldlt-allocator.hpp"],
  [("kinds", "src/block-kind.cpp trans(), add(), mul()"), ("symbolic factorisation", "src/block-kind.cpp SymbolicBlockMatrix::llt_in_place()"), ("permutation search", "src/block-kind.cpp brute_force_best_permutation()"), ("problem structure", INC + "ldlt-allocator.hpp create_default_block_structure()")],
  "elimination step decided for all combinations of kinds at four blocks; copies and permutations at three blocks; structures given to the symbolic factorisation are symmetric")
P("C05", "Copies stand alone, and every buffer has one owner",
  "A copy of a block factorisation, of results or of a recorded history holds the same content as the original and shares no storage with it: changing or destroying either leaves the other as it was. "
  "Objects whose views refer to their own storage are not copied member by member. "
  "Every block-structure buffer that is allocated is released exactly once, not used afterwards, and belongs to one object at a time, on every path and also when an object is assigned to itself.",
  ["histories", "inputs"],
  "every class that views or owns storage, every function that creates a block structure, every path through it, every order of copying, assigning and destroying",
  "no test copies a factorisation, results or a history and then changes or destroys the original; leaks and double releases show only under a memory checker",
  [INC + "linalg/block-ldlt.hpp", INC + "linalg/block-ldlt.hxx", INC + "results.hpp", INC + "workspace.hpp", INC + "helpers/history-callback.hpp", INC + "ldlt-allocator.hpp", "src/block-kind.cpp"],
  [("owner of two structures", INC + "linalg/block-ldlt.hpp BlockLDLT"), ("views of own storage", INC + "results.hpp ResultsTpl, " + INC + "workspace.hpp WorkspaceTpl"), ("temporary structures", INC + "ldlt-allocator.hpp allocate_ldlt_from_sizes()"), ("deep copies", "src/block-kind.cpp SymbolicBlockMatrix::copy()")],
  "buffers of std and Eigen containers are taken to be released by them; exceptions between allocation and release are outside")
P("C06", "The overall sign of a factorised matrix is that of all its pivots",
  "A dense or block-sparse factorisation reports positive semidefinite when no pivot is negative and one is positive, negative semidefinite the other way round, indefinite when both signs occur, and zero when all pivots are null. "
  "Every pivot counts exactly once, whatever the size of the matrix, the block structure and the algorithm chosen for a block. "
  "The sign is that of the matrix factored last, not of earlier ones.",
  ["inputs", "histories"],
  "every symmetric matrix, size, block structure and sequence of factorisations by one object",
  "tests look at the sign of one small definite matrix; reuse of an object, sizes past the recursion threshold and pivots in diagonal blocks are not sampled",
  [INC + "linalg/dense.hpp", INC + "linalg/ldlt-base.hpp", INC + "linalg/block-ldlt.hpp", INC + "linalg/block-ldlt.hxx"],
  [("joining a pivot", INC + "linalg/dense.hpp update_sign_matrix()"), ("eliminations", INC + "linalg/dense.hpp ldlt_in_place_unblocked(), dense_ldlt_in_place(), " + INC + "linalg/block-ldlt.hpp block_impl::ldlt_in_place_impl()"), ("sign kept", INC + "linalg/dense.hpp DenseLDLT::compute(), " + INC + "linalg/block-ldlt.hxx BlockLDLT::compute()")],
  "factorisations that hand over to another library do not report a sign and are outside; whether the pivots are right is another property")
P("C07", "Bunch-Kaufman factors multiply back and solve",
  "Factoring a symmetric matrix of which only the lower triangle is read gives interchanges, a unit lower factor and diagonal blocks of order one or two that multiply back to it, with no more growth than pivoting allows, also when diagonal entries vanish. "
  "A matrix with a vanishing pivot column is refused, and refusal is reported. "
  "Solving applies the interchanges, both factors and the inverse blocks in the order that yields the solution for every right-hand side.",
  ["inputs"],
  "every symmetric matrix that a block fits whole, every arrangement of pivots and every right-hand side",
  "tests solve a few random systems and look at a residual; a particular sequence of pivots of order one and two with particular interchanges is met by chance only",
  [INC + "linalg/bunchkaufman.hpp"],
  [("elimination", INC + "linalg/bunchkaufman.hpp bunch_kaufman_in_place_unblocked()"), ("blocks put together", INC + "linalg/bunchkaufman.hpp bunch_kaufman_in_place()"), ("solve", INC + "linalg/bunchkaufman.hpp bunch_kaufman_solve_in_place()"), ("object", INC + "linalg/bunchkaufman.hpp BunchKaufman::compute(), _solve_impl()")],
  "real scalars; the delayed-update kernel used above 32 rows is taken to meet its contract; rounding is outside")
# -- more --

NOTES = ("Static analysis only: each check parses /repo's current headers with clang (against small parse-only stubs of absent dependencies), "
         "interprets the typed AST abstractly and compares the resulting terms with the property's rule. Nothing of /repo is executed.")
