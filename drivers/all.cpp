// Instantiates the library for Scalar=double so that the analyses see resolved,
// type-checked function bodies.  Never executed, never linked.
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/helpers/history-callback.hpp"
#include "proxsuite-nlp/helpers/print-callback.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
#include "proxsuite-nlp/modelling/spaces/pinocchio-groups.hpp"
#include "proxsuite-nlp/modelling/spaces/multibody.hpp"
#include "proxsuite-nlp/modelling/costs/quadratic-residual.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
#include "proxsuite-nlp/linalg/block-ldlt.hpp"
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
#include "proxsuite-nlp/linalg/dense.hpp"
#include "proxsuite-nlp/linalg/gemmt.hpp"
#include "proxsuite-nlp/function-ops.hpp"
#include "proxsuite-nlp/cost-sum.hpp"

namespace proxsuite { namespace nlp {
using S = double;
template struct BaseFunctionTpl<S>;
template struct C1FunctionTpl<S>;
template struct C2FunctionTpl<S>;
template struct ComposeFunctionTpl<S>;
template auto compose<S>(const shared_ptr<C2FunctionTpl<S>> &, const shared_ptr<C2FunctionTpl<S>> &);
template struct CostFunctionBaseTpl<S>;
template struct func_to_cost<S>;
template struct CostSumTpl<S>;
template struct ManifoldAbstractTpl<S>;
template struct VectorSpaceTpl<S>;
template struct VectorSpaceTpl<S, 3>;
template struct CartesianProductTpl<S>;
template struct TangentBundleTpl<VectorSpaceTpl<S>>;
template struct ConstraintSetTpl<S>;
template struct ConstraintObjectTpl<S>;
template struct EqualityConstraintTpl<S>;
template struct NegativeOrthantTpl<S>;
template struct BoxConstraintTpl<S>;
template struct NonsmoothPenaltyL1Tpl<S>;
template struct ConstraintSetProductTpl<S>;
template struct ProblemTpl<S>;
template struct ResultsTpl<S>;
template struct WorkspaceTpl<S>;
template struct ALMeritFunctionTpl<S>;
template class Linesearch<S>;
template struct PolynomialTpl<S>;
template class ArmijoLinesearch<S>;
template struct BFGSStrategy<S, BFGSType::Hessian>;
template struct BFGSStrategy<S, BFGSType::InverseHessian>;
template class ProxNLPSolverTpl<S>;
template struct QuadraticResidualCostTpl<S>;
template struct QuadraticDistanceCostTpl<S>;
template struct LinearFunctionTpl<S>;
template struct LinearFunctionDifferenceToPoint<S>;
template struct ManifoldDifferenceToPoint<S>;
template struct PinocchioLieGroup<pinocchio::SpecialEuclideanOperationTpl<2, S>>;
template struct MultibodyConfiguration<S>;
template struct MultibodyPhaseSpace<S>;
namespace helpers { template struct history_callback<S>; template struct print_callback<S>;}
namespace autodiff {
template struct finite_difference_wrapper<S, TOC1>;
template struct finite_difference_wrapper<S, TOC2>;
}
namespace linalg {
template struct BlockLDLT<S>;
template struct DenseLDLT<S>;
}
}}
