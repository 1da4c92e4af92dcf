// Stand-in for the CMake-generated header (jrl-cmakemodules deprecated.hh).
#pragma once
#define PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(...)
#define PROXSUITE_NLP_DEPRECATED_HEADER(...)
#define PROXSUITE_NLP_PRAGMA(...)
