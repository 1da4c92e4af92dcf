// Stand-in for the CMake-generated header (jrl-cmakemodules warning.hh).
#pragma once
#define PROXSUITE_NLP_WARN(...)
