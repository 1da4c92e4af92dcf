// Parse-only stand-in for Pinocchio (not installed here): declarations only.
#pragma once
#include "pinocchio/multibody/model.hpp"
namespace pinocchio {
template <class S, int O> Eigen::Matrix<S, Eigen::Dynamic, 1> neutral(const ModelTpl<S, O> &);
template <class S, int O> Eigen::Matrix<S, Eigen::Dynamic, 1> randomConfiguration(const ModelTpl<S, O> &);
template <class S, int O, class X> bool isNormalized(const ModelTpl<S, O> &, const X &);
template <class S, int O, class X, class V, class R> void integrate(const ModelTpl<S, O> &, const X &, const V &, const R &);
template <class S, int O, class X, class V, class R> void difference(const ModelTpl<S, O> &, const X &, const V &, const R &);
template <class S, int O, class X, class V, class R> void dIntegrate(const ModelTpl<S, O> &, const X &, const V &, const R &, ArgumentPosition);
template <class S, int O, class X, class V, class R> void dIntegrateTransport(const ModelTpl<S, O> &, const X &, const V &, const R &, ArgumentPosition);
template <class S, int O, class X, class V, class R> void dDifference(const ModelTpl<S, O> &, const X &, const V &, const R &, ArgumentPosition);
template <class S, int O, class X, class V, class U, class R> void interpolate(const ModelTpl<S, O> &, const X &, const V &, const U &, const R &);
}
