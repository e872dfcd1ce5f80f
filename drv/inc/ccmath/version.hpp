// Stand-in for the header CMake generates from cmake/in/version.hpp.in.
#pragma once
#define CCMATH_VERSION_MAJOR 0
#define CCMATH_VERSION_MINOR 0
#define CCMATH_VERSION_PATCH 0
#define CCMATH_TO_VERSION(MAJOR, MINOR, PATCH) ((MAJOR) * 10000 + (MINOR) * 100 + (PATCH))
#define CCMATH_VERSION CCMATH_TO_VERSION(CCMATH_VERSION_MAJOR, CCMATH_VERSION_MINOR, CCMATH_VERSION_PATCH)
