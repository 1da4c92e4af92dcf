#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
inline void use_bk(Eigen::BunchKaufman<Eigen::MatrixXd> &bk, Eigen::MatrixXd const &a, Eigen::VectorXd &v, Eigen::MatrixXd &m) {
  bk.compute(a);
  bk.solveInPlace(v); bk.solveInPlace(m);
  bk._solve_impl(a, m);
  bk.rows(); bk.cols(); bk.matrixLDLT(); bk.pivots(); bk.subdiag(); bk.info();
  Eigen::internal::bunch_kaufman_solve_in_place<false>(bk.matrixLDLT(), bk.subdiag(), bk.pivots(), m);
  Eigen::internal::bunch_kaufman_solve_in_place<false>(bk.matrixLDLT(), bk.subdiag(), bk.pivots(), v);
}
