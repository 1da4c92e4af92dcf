// Parse-only stand-in for Pinocchio (not installed here): declarations only.
#pragma once
#include "pinocchio/multibody/model.hpp"
namespace pinocchio {
template <class D> struct LieGroupBase {
  Eigen::VectorXd neutral() const;
  Eigen::VectorXd random() const;
  int nq() const;
  int nv() const;
  template <class X> bool isNormalized(const X &) const;
  template <class X, class V, class R> void integrate(const X &, const V &, const R &) const;
  template <class X, class V, class R> void difference(const X &, const V &, const R &) const;
  template <class X, class V, class R> void dIntegrate_dq(const X &, const V &, const R &) const;
  template <class X, class V, class R> void dIntegrate_dv(const X &, const V &, const R &) const;
  template <class X, class V, class R> void dIntegrateTransport(const X &, const V &, const R &, ArgumentPosition) const;
  template <class X, class V, class R> void dDifference(const X &, const V &, const R &, ArgumentPosition) const;
  template <class X, class V, class U, class R> void interpolate(const X &, const V &, const U &, const R &) const;
};
template <int D, class S, int O = 0> struct SpecialEuclideanOperationTpl : LieGroupBase<SpecialEuclideanOperationTpl<D, S, O>> {
  using Scalar = S; static constexpr int Options = O;
};
template <int D, class S, int O = 0> struct SpecialOrthogonalOperationTpl : LieGroupBase<SpecialOrthogonalOperationTpl<D, S, O>> {
  using Scalar = S; static constexpr int Options = O;
};
}
