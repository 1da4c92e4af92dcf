#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/costs/quadratic-residual.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/function-ops.hpp"
#include "proxsuite-nlp/cost-sum.hpp"
namespace proxsuite { namespace nlp {
using S = double;
template struct BaseFunctionTpl<S>;
template struct C1FunctionTpl<S>;
template struct C2FunctionTpl<S>;
template struct ComposeFunctionTpl<S>;
template auto compose<S>(const shared_ptr<C2FunctionTpl<S>> &, const shared_ptr<C2FunctionTpl<S>> &);
template struct CostFunctionBaseTpl<S>;
template struct func_to_cost<S>;
template struct CostSumTpl<S>;
template struct ConstraintSetTpl<S>;
template struct ConstraintObjectTpl<S>;
template struct EqualityConstraintTpl<S>;
template struct NegativeOrthantTpl<S>;
template struct BoxConstraintTpl<S>;
template struct NonsmoothPenaltyL1Tpl<S>;
template struct ConstraintSetProductTpl<S>;
template struct QuadraticResidualCostTpl<S>;
template struct QuadraticDistanceCostTpl<S>;
template struct LinearFunctionTpl<S>;
template struct LinearFunctionDifferenceToPoint<S>;
template struct ManifoldDifferenceToPoint<S>;
namespace sa_use {
using Cost = CostFunctionBaseTpl<S>;
using Sum = CostSumTpl<S>;
inline auto use_scale(const Sum &a, S s) { return a * s; }
inline auto use_scale_left(S s, const Sum &a) { return s * a; }
inline auto use_neg(const Sum &a) { return -a; }
inline auto use_add(const shared_ptr<Cost> &a, const shared_ptr<Cost> &b) { return a + b; }
inline auto use_add_move(shared_ptr<Sum> a, const shared_ptr<Cost> &b) { return std::move(a) + b; }
inline auto use_scale_cost(S s, const shared_ptr<Cost> &a) { return s * a; }
inline auto use_downcast(const shared_ptr<C2FunctionTpl<S>> &a) { return downcast_function_to_cost<S>(a); }
inline auto use_compose(const shared_ptr<C2FunctionTpl<S>> &a, const shared_ptr<C2FunctionTpl<S>> &b) { return compose<S>(a, b); }
}
namespace autodiff {
template struct finite_difference_wrapper<S, TOC1>;
template struct finite_difference_wrapper<S, TOC2>;
}
}}
