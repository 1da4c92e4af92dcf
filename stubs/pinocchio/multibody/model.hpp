// Parse-only stand-in for Pinocchio (not installed here): declarations only.
#pragma once
#include <Eigen/Core>
namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1, ARG2 = 2 };
template <typename Scalar, int Options = 0> struct ModelTpl { int nq; int nv; };
}
