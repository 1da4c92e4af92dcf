#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
#include "proxsuite-nlp/modelling/spaces/pinocchio-groups.hpp"
#include "proxsuite-nlp/modelling/spaces/multibody.hpp"
namespace proxsuite { namespace nlp {
using S = double;
template struct ManifoldAbstractTpl<S>;
template struct VectorSpaceTpl<S>;
template struct VectorSpaceTpl<S, 3>;
template struct CartesianProductTpl<S>;
template struct TangentBundleTpl<VectorSpaceTpl<S>>;
template struct PinocchioLieGroup<pinocchio::SpecialEuclideanOperationTpl<2, S>>;
template struct MultibodyConfiguration<S>;
template struct MultibodyPhaseSpace<S>;
namespace sa_use {
using P_ = CartesianProductTpl<S>;
using M_ = polymorphic<ManifoldAbstractTpl<S>>;
inline P_ use_pp(const M_ &a, const M_ &b) { return a * b; }
inline P_ use_cp(const P_ &a, const M_ &b) { return a * b; }
inline P_ use_pc(const M_ &a, const P_ &b) { return a * b; }
inline P_ use_cc(const P_ &a, const P_ &b) { return a * b; }
inline void use_add(P_ &a, const M_ &b) { a.addComponent(b); }
inline void use_add_space(P_ &a, const VectorSpaceTpl<S> &b) { a.addComponent(b); }
inline void use_add_product(P_ &a, const P_ &b) { a.addComponent(b); }
}
}}
