// Solver, merit function, problem, workspace, results, line search, BFGS.
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/linalg/block-ldlt.hpp"
#include "proxsuite-nlp/linalg/dense.hpp"
// The factorisations have a unit of their own (linalg.cpp).
namespace proxsuite { namespace nlp { namespace linalg {
extern template struct BlockLDLT<double>;
extern template struct DenseLDLT<double>;
}}}
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/helpers/history-callback.hpp"
namespace proxsuite { namespace nlp {
using S = double;
template struct ConstraintSetTpl<S>;
template struct ConstraintObjectTpl<S>;
template struct ProblemTpl<S>;
template struct ResultsTpl<S>;
template struct WorkspaceTpl<S>;
template struct ALMeritFunctionTpl<S>;
template class Linesearch<S>;
template struct PolynomialTpl<S>;
template class ArmijoLinesearch<S>;
template struct BFGSStrategy<S, BFGSType::Hessian>;
template struct BFGSStrategy<S, BFGSType::InverseHessian>;
template struct QuadraticResidualCostTpl<S>;
template class ProxNLPSolverTpl<S>;
template struct helpers::history_callback<S>;
namespace sa_use {
using Prob = ProblemTpl<S>;
using Obj = ConstraintObjectTpl<S>;
inline void use_add(Prob &p, const Obj &c) { p.addConstraint(c); }
inline void use_add_move(Prob &p, Obj &&c) { p.addConstraint(std::move(c)); }
inline S use_norm(const std::vector<Eigen::VectorXd> &v) { return math::infty_norm(v); }
inline bool use_close(S a, S b, S p) { return math::scalar_close(a, b, p); }
inline Prob use_make(const polymorphic<ManifoldAbstractTpl<S>> &m, shared_ptr<CostFunctionBaseTpl<S>> cost, const std::vector<Obj> &cs) { return Prob(m, cost, cs); }
}
}}
