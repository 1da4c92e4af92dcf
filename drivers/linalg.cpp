#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
#include "proxsuite-nlp/linalg/block-ldlt.hpp"
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
#include "proxsuite-nlp/linalg/dense.hpp"
#include "proxsuite-nlp/linalg/gemmt.hpp"
namespace proxsuite { namespace nlp { namespace linalg {
template struct BlockLDLT<double>;
template struct DenseLDLT<double>;
}}}
namespace proxsuite { namespace nlp {
template LDLTVariant<double> allocate_ldlt_from_sizes<double>(const std::vector<isize> &, const std::vector<isize> &, LDLTChoice);
inline void use_linalg(BunchKaufman<Eigen::MatrixXd> const &bk, linalg::DenseLDLT<double> const &d, linalg::BlockLDLT<double> const &b,
                Eigen::LDLT<Eigen::MatrixXd> const &e, Eigen::VectorXi &s) {
  ComputeSignatureVisitor v{s};
  v(bk); v(d); v(b); v(e);
  computeInertiaTuple(s);
}
}}
namespace proxsuite { namespace nlp {
inline void use_dense(linalg::DenseLDLT<double> const &d, linalg::BlockLDLT<double> const &b, Eigen::VectorXd &v, Eigen::MatrixXd &m) {
  d.solveInPlace(v); d.solveInPlace(m); v = d.solve(v); m = d.solve(m); m = d.reconstructedMatrix();
  b.solveInPlace(v); b.solveInPlace(m); v = b.solve(v); m = b.solve(m); m = b.reconstructedMatrix();
}
}}
