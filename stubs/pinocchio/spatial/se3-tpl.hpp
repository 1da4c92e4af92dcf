// Parse-only stand-in for Pinocchio (not installed here): declarations only.
#pragma once
#include <Eigen/Core>
