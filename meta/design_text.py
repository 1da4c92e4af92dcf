"""per property: what exactly is compared with what"""
HOW = {
"A01": "*How:* the whole `solve` is one summary; at every exit with status SUCCESS the reported infeasibilities are expanded to terms over the returned point and multipliers and compared with the definition (distance of the shifted constraint value to its set; norm of the Lagrangian gradient), and the exit condition must imply both are at most the tolerance.",
"A02": "*How:* each loop's break conditions and counters are read off its summary: some break must hold once a counter that grows every round reaches its bound; counters reported are compared with the number of step/multiplier updates on the path.",
"A03": "*How:* relation between phi values at the outer loop's head and its back edge: penalty, tolerances and proximal weight follow the BCL rule in each branch, and the branch taken is the one the rule names.",
"A04": "*How:* summary of a solve entered from an arbitrary earlier state; everything a result depends on must be a function of problem, options and start point: no term of results, iterates or parameters may contain the entry value of a workspace/results/penalty cell.",
"A05": "*How:* the matrix and vectors passed to the factorisation and solve are split at an arbitrary constraint block and compared block by block with the documented formulas, for every KKT variant and Hessian approximation; merit function, gradients and refinement residual the same way.",
"A07": "*How:* the line search's accepted step is followed through its summary: acceptance condition (Armijo with the reported value), each trial step between the previous ones, interpolation minimisers compared as rational functions, failure path and exceptions of the merit closure.",
"B01": "*How:* each set's projection, normal-cone projection, active set, Jacobians and value as element-wise terms; membership, complementarity (p + q = z) and derivative relations checked as term identities in each region.",
"B02": "*How:* block j of each product operation against the component's operation on segment j, offsets as prefix sums.",
"B03": "*How:* value, gradient and Hessian terms of sums, scalings and operators compared with the linear combination, weights and components as sequences (old ones first).",
"B04": "*How:* forwarding, slices, compositions (chain rule order) and allocating overloads compared as terms; constructor dimensions and refusals.",
"B05": "*How:* value/gradient/Hessian terms of each stock cost over uninterpreted residuals.",
"B06": "*How:* value and derivative terms of each stock residual over uninterpreted manifold operations; constructor checks as throw conditions.",
"B07": "*How:* column i of the result for arbitrary i as a difference quotient of uninterpreted function values.",
"B08": "*How:* part j of each product operation against factor j's operation, offsets as prefix sums; the bundle's base and tangent segments and its four Jacobian blocks separately; factor lists as sequences.",
    "A06": "the workspace, results and solver constructors and `setup` are summarised with every helper expanded; for an arbitrary constraint index J the location each view is bound to must be rows indices[J], ncs[J] of the member's own buffer; the event list orders allocations against the first view taken; sizes come from the last allocation event. These facts are what the solver rules (A02-A07) assume when they treat `lams_plus[k]` as rows of `data_lams_plus`.",
    "A10": "constructor and `addConstraint` (both value categories, instantiated in drivers/solver.cpp): the vectors of dimensions and offsets are compared, at an arbitrary index, with the dimensions of the constraints held and their prefix sums; evaluation methods: value of an arbitrary slot and the set of all locations written; multiplier packing: segment J of the vector handed to the other overload under the path condition of the call.",
    "A08": "the update method of both instantiations is summarised and its result compared, under `initialised and s.y > 0`, with V H V' + r r'/s.y as a non-commutative matrix polynomial (normal form, else random exact 2x2 matrices); the other paths with the matrix given; remembered point and gradient at exit; `setup` (allocation throws assumed away) and the three-way choice of `computeProblemDerivatives` by path conditions of the calls.",
    "A09": "on the fully expanded `solve` summary: the callback loops (counted, over the registered vector), the path condition of their entry against that of a completed iteration, the state they see against the state the iteration or solve ends with; the fields of the logged aggregate against the state; the recorder's `call` against `append(old, value)` per column, with recorded views required to point into the record; logger columns against the header names.",
    "A11": "on the `solve` summary with throwing paths cut off: at each use (store of the returned point, factorisation, line search, callbacks, return from the Newton loop) the path condition must imply that the very value used has been found finite; all spellings of the test (isnan/isinf/isfinite/hasNaN/allFinite) are rewritten into one predicate; `check_value`, `infty_norm`, `scalar_close` by their own summaries.",
    "C04": "the loop over Bunch-Kaufman blocks: counter range and steps, entries written, and for a 2x2 block the pair of signs under clearly negative, clearly positive and exactly zero determinant, each at three scales of the block (the singularity tolerance becomes its value 2^-52); the other visitors elementwise; the counts as sums of indicator functions.",
    "C03": "unblocked elimination: start state, counter and one arbitrary iteration (entry at column j against the specification of a left-looking step, lower triangle only), and its last iteration, at sizes 2-4; recursion: its calls are replaced by the specification of a factorisation (scratch in the strict upper part), the assembled result compared with the factorisation of the whole at sizes 2-5; solve: entry, one row and exit of the pivot loop; the class by its copies, status and results.",
    "C02": "each `gemmt` instantiation is summarised with its dispatch and kernels expanded and evaluated for all 25 kind pairs on random rational operands (entries outside the pattern of the right operand arbitrary); one step of the elimination with products and dense factorisation replaced by their specifications (scratch triangle arbitrary): factor column, trailing lower triangle, structure handed on, failures; substitution loops followed on concrete patterns whose unread parts hold arbitrary values and whose other-triangle kinds are stale; the object's solve, permuted copy, reconstruction and index permutation the same way.",
    "C01": "kinds are finite, so transposition, sum and product are decided for all 5 or 25 arguments against the smallest kind whose pattern (enumerated on 3 x 3 blocks) covers the result; the stores of the symbolic step (locations, guards and values as terms over the kinds read) are evaluated for every combination of pivot, column and trailing kinds against the pattern of the numeric step; the recursion by its receiver (data, lengths, count, stride); the search loop by its trial, its recording condition and its loop-carried minimum.",
    "C05": "views of own storage are found, not listed: every constructor and recording method is summarised and each field left with an address inside the same object must belong to a class whose copies are written or deleted; written copies are compared field by field with the original, views as consecutive segments of the copy's own storage; typestate of structure buffers per function: made, released (both arrays, as arrays, whenever made), returned or kept in a field its destructor releases, no use after release, replaced fields released or swapped out, self-assignment by the path condition that the two addresses agree.",
    "C06": "the function joining one pivot to a sign against its table (4 signs x 3 kinds of pivot); in each elimination the sign term is a chain of joins from the sign handed in: the inductive step `sign' = join(sign, stored pivot)` is evaluated at given sizes with random entries, the single-row, empty and last cases by their path conditions, and the recursions by the order in which the sign passes through both halves (dense) or through the leading block and the rest (blocks); every factorisation must hand in the sign of an empty matrix and keep the sign that comes back.",
    "C07": "the values computed by the unblocked elimination, by the routine that strings blocks together (its callees replaced by a reference elimination of the block they are handed) and by the in-place solve are terms over their arguments; they are evaluated, loops unrolled, with exact rationals on matrices of sizes 1-4 (5 when thorough) chosen so that all pivot kinds, interchanges and null columns occur (the strict upper triangle is scratch): the factors must multiply back to the matrix, the rest of the matrix grow no more than the pivoting guarantees, vanishing columns be refused; the solve runs over every arrangement of pivots of order one and two. The delayed-update kernel for sizes above 32 (`bunch_kaufman_in_place_one_block`) is NOT decided: its nested conditionals on array contents make its summary take minutes, so only its callers are checked, against its contract. `sqrt(17)` enters as its rational approximation.",
}
