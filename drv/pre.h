// Everything from outside the library that it includes, so that the switches below change the library only.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cassert>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 202002L
#include <concepts>
#include <numbers>
#endif
#include <immintrin.h>
#ifdef V_CE      // take the constant-evaluation path at run time
#define __builtin_is_constant_evaluated() true
#endif
#ifdef V_NOB     // a compiler without builtins: the configuration headers see GCC/Clang, the feature tests after them do not
#include <ccmath/internal/support/is_constant_evaluated.hpp>
#include <ccmath/internal/math/runtime/simd/simd.hpp>
#include <ccmath/internal/support/bits.hpp>
#include <ccmath/internal/support/fenv/fenv_support.hpp>
#include <ccmath/internal/support/fp/fp_bits.hpp>
#include <ccmath/internal/types/big_int.hpp>
#undef __GNUC__
#undef __clang__
#endif
