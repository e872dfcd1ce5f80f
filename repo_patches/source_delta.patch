From 724df4de3e4e00366acfd84db81c16c8f79668ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 01/62] fix: copysign keeps the magnitude when the sign comes
 from a NaN

---
 .../ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp    | 2 +-
 include/ccmath/math/fmanip/copysign.hpp                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp b/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp
index abe4316..65778c9 100644
--- a/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp
+++ b/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp
@@ -26,7 +26,7 @@ namespace ccm::rt
 		template <typename T>
 		[[nodiscard]] inline T copysign_scalar(T mag, T sgn) noexcept
 		{
-			if (ccm::isnan(mag) || ccm::isnan(sgn))
+			if (ccm::isnan(mag))
 			{
 				if (ccm::signbit(sgn)) { return -std::numeric_limits<T>::quiet_NaN(); }
 				return std::numeric_limits<T>::quiet_NaN();
diff --git a/include/ccmath/math/fmanip/copysign.hpp b/include/ccmath/math/fmanip/copysign.hpp
index 5d7bf3b..25489e4 100644
--- a/include/ccmath/math/fmanip/copysign.hpp
+++ b/include/ccmath/math/fmanip/copysign.hpp
@@ -33,7 +33,7 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_copysign<T>) { return ccm::builtin::copysign_ct(mag, sgn); }
 		else
 		{
-			if (ccm::isnan(mag) || ccm::isnan(sgn))
+			if (ccm::isnan(mag))
 			{
 				if (ccm::signbit(sgn)) { return -std::numeric_limits<T>::quiet_NaN(); }
 				return std::numeric_limits<T>::quiet_NaN();
-- 
2.43.0


From c2849af2bc4c08cf3e27df8aa25535ad2a0c6098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 02/62] fix: fdim no longer reports overflow for representable
 differences

---
 include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..1156797 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -40,7 +40,6 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
 			return x - y;
 		}
 	}
-- 
2.43.0


From c40b526e8302edb65bb0d6b5c8d6bbf95741bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 03/62] fix: exact fmod and remainder without compiler builtins

---
 .../math/generic/func/basic/fmod_gen.hpp      | 144 ++++++------------
 .../math/generic/func/basic/remainder_gen.hpp |  76 ++++-----
 .../math/runtime/func/basic/fmod_rt.hpp       |   4 +-
 .../math/runtime/func/basic/remainder_rt.hpp  |  16 +-
 include/ccmath/math/basic/fmod.hpp            |  52 +------
 include/ccmath/math/basic/remainder.hpp       |  24 +--
 6 files changed, 96 insertions(+), 220 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fmod_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fmod_gen.hpp
index d7aaa88..61d240f 100644
--- a/include/ccmath/internal/math/generic/func/basic/fmod_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fmod_gen.hpp
@@ -12,115 +12,59 @@
 
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
 
 #include <limits>
+#include <type_traits>
 
-namespace ccm
+namespace ccm::gen
 {
-	/// @cond CCMATH_INTERNAL
-	namespace internal::impl
-	{
-		template <typename T>
-		constexpr T fmod_impl_check(T x, T y) noexcept
-		{
-			// Special edge cases for floating-point types.
-			if constexpr (std::numeric_limits<T>::is_iec559)
-			{
-				using FPBits_t = typename ccm::support::fp::FPBits<T>;
-				const FPBits_t x_bits(x);
-				const FPBits_t y_bits(y);
-
-				// If x is ±0 and y is not zero, ±0 is returned.
-				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
-				{
-					// The standard specifies that plus or minus 0 is returned depending on the sign of x.
-					return x;
-				}
-
-				// If x is ±∞ and y is not NaN OR if y is ±0 and x is not NaN, -NaN is returned
-				if (CCM_UNLIKELY((x_bits.is_inf() && !y_bits.is_nan()) || (y_bits.is_zero() && !x_bits.is_nan())))
-				{
-					// For some reason, all the major compilers return a negative NaN
-					// even though I can't find anywhere in the standard that specifies this.
-					// I'm going to follow suit and return a negative NaN for now.
-					// Overall, this has little effect on checking for NaN.
-					// We only really care for conformance with the standard.
-					return -std::numeric_limits<T>::quiet_NaN();
-				}
-
-				// If y is ±∞ and x is finite, x is returned.
-				if (CCM_UNLIKELY(y_bits.is_inf() && x_bits.is_finite())) { return x; }
-
-				// If either argument is NaN, NaN is returned.
-				if (CCM_UNLIKELY(x_bits.is_nan() || y_bits.is_nan()))
-				{
-					// Same problem as before, but this time all major compilers return a positive NaN.
-					return std::numeric_limits<T>::quiet_NaN();
-				}
-			}
-
-			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
-		}
-
-		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
-		constexpr TC fmod_impl_type_check(T x, U y) noexcept
-		{ return fmod_impl_check(static_cast<TC>(x), static_cast<TC>(y)); }
-	} // namespace internal::impl
-	/// @endcond
-
 	/**
-	 * @brief Returns the floating-point remainder of the division operation x/y.
-	 * @note Some edge cases where NaN is returned are different from std::fmod due to the standard allowing implementation based returns.
+	 * @internal
+	 * @brief Computes the exact floating-point remainder of x / y, with the quotient truncated toward zero.
 	 * @tparam T A floating-point type.
-	 * @param x A floating-point value.
-	 * @param y A floating-point value.
-	 * @return The floating-point remainder of the division operation x/y.
+	 * @param x Dividend.
+	 * @param y Divisor.
+	 * @return The remainder, with the sign of x.
 	 */
-	template <typename Real, std::enable_if_t<std::is_floating_point_v<Real>, bool> = true>
-	constexpr Real fmod(Real x, Real y)
-	{ return internal::impl::fmod_impl_check(x, y); }
+	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
+	constexpr T fmod_gen(T x, T y) noexcept
+	{
+		using FPBits_t = typename ccm::support::fp::FPBits<T>;
+		const FPBits_t x_bits(x);
+		const FPBits_t y_bits(y);
 
-	/**
-	 * @brief Returns the floating-point remainder of the division operation x/y.
-	 * @tparam Integer An integral type.
-	 * @param x An integral value.
-	 * @param y An integral value.
-	 * @return The floating-point remainder of the division operation x/y.
-	 */
-	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
-	constexpr double fmod(Integer x, Integer y)
-	{ return internal::impl::fmod_impl_type_check(x, y); }
+		// If either argument is NaN, NaN is returned.
+		if (CCM_UNLIKELY(x_bits.is_nan() || y_bits.is_nan())) { return std::numeric_limits<T>::quiet_NaN(); }
 
-	/**
-	 * @brief Returns the floating-point remainder of the division operation x/y.
-	 * @tparam T A floating-point or integral type.
-	 * @tparam U A floating-point or integral type.
-	 * @param x A floating-point or integral value.
-	 * @param y A floating-point or integral value.
-	 * @return The floating-point remainder of the division operation x/y.
-	 */
-	template <typename T, typename U>
-	constexpr auto fmod(T x, T y)
-	{ return internal::impl::fmod_impl_type_check(x, y); }
+		// If x is ±∞ or y is ±0, -NaN is returned
+		if (CCM_UNLIKELY(x_bits.is_inf() || y_bits.is_zero()))
+		{
+			// For some reason, all the major compilers return a negative NaN
+			// even though I can't find anywhere in the standard that specifies this.
+			// I'm going to follow suit and return a negative NaN for now.
+			// Overall, this has little effect on checking for NaN.
+			// We only really care for conformance with the standard.
+			return -std::numeric_limits<T>::quiet_NaN();
+		}
 
-	/**
-	 * @brief Returns the floating-point remainder of the division operation x/y.
-	 * @param x A floating-point value.
-	 * @param y A floating-point value.
-	 * @return The floating-point remainder of the division operation x/y.
-	 */
-	constexpr float fmodf(float x, float y)
-	{ return fmod<float>(x, y); }
+		// If x is ±0 or y is ±∞, x is returned.
+		if (CCM_UNLIKELY(x_bits.is_zero() || y_bits.is_inf())) { return x; }
 
-	/**
-	 * @brief Returns the floating-point remainder of the division operation x/y.
-	 * @param x A floating-point value.
-	 * @param y A floating-point value.
-	 * @return The floating-point remainder of the division operation x/y.
-	 */
-	constexpr long double fmodl(long double x, long double y)
-	{ return fmod<long double>(x, y); }
-} // namespace ccm
+		// Long division in binary. Every step is exact: the scaled divisor never leaves [|y|, |x|] and
+		// each subtraction is of values within a factor of two of each other.
+		const T divisor = y < T(0) ? -y : y;
+		T rem			= x < T(0) ? -x : x;
+		T scaled		= divisor;
+		while (scaled <= rem - scaled) { scaled += scaled; }
+		for (;;)
+		{
+			if (rem >= scaled) { rem -= scaled; }
+			if (scaled == divisor) { break; }
+			scaled /= T(2);
+		}
 
-/// @ingroup basic
+		// The result, zero included, has the sign of x.
+		if (rem == T(0)) { rem = T(0); }
+		return x < T(0) ? -rem : rem;
+	}
+} // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/basic/remainder_gen.hpp b/include/ccmath/internal/math/generic/func/basic/remainder_gen.hpp
index 554050d..833d7fe 100644
--- a/include/ccmath/internal/math/generic/func/basic/remainder_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/remainder_gen.hpp
@@ -10,21 +10,25 @@
 
 #pragma once
 
+#include "ccmath/internal/math/generic/func/basic/fmod_gen.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
 
-namespace ccm
+#include <limits>
+#include <type_traits>
+
+namespace ccm::gen
 {
 	/**
-	 * @brief Returns the remainder of the division of x by y.
-	 * @tparam T Type of the values to compare.
+	 * @internal
+	 * @brief Computes the exact IEEE remainder of x / y, with the quotient rounded to the nearest integer, ties to even.
+	 * @tparam T A floating-point type.
 	 * @param x Dividend.
 	 * @param y Divisor.
 	 * @return The remainder of the division of x by y.
 	 */
-	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
-	constexpr T remainder(T x, T y)
+	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
+	constexpr T remainder_gen(T x, T y) noexcept
 	{
 		using FPBits_t = typename ccm::support::fp::FPBits<T>;
 		const FPBits_t x_bits(x);
@@ -42,37 +46,35 @@ namespace ccm
 			return -std::numeric_limits<T>::quiet_NaN();
 		}
 
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
-	}
+		// If x is ±0 or y is ±∞, x is returned.
+		if (CCM_UNLIKELY(x_bits.is_zero() || y_bits.is_inf())) { return x; }
 
-	/**
-	 * @brief Returns the remainder of the division of x by y.
-	 * @tparam Integer Type of the values to compare.
-	 * @param x Dividend.
-	 * @param y Divisor.
-	 * @return The remainder of the division of x by y as a double.
-	 */
-	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
-	constexpr double remainder(Integer x, Integer y)
-	{ return ccm::remainder<double>(static_cast<double>(x), static_cast<double>(y)); }
-
-	/**
-	 * @brief Returns the remainder of the division of x by y.
-	 * @param x Dividend.
-	 * @param y Divisor.
-	 * @return The remainder of the division of x by y.
-	 */
-	constexpr float remainderf(float x, float y)
-	{ return ccm::remainder<float>(x, y); }
+		// Reduce to [0, 2|y|) first. Every step from here on is exact.
+		const T divisor = y < T(0) ? -y : y;
+		T rem			= x < T(0) ? -x : x;
+		if (divisor <= std::numeric_limits<T>::max() / T(2)) { rem = gen::fmod_gen(rem, divisor + divisor); }
 
-	/**
-	 * @brief Returns the remainder of the division of x by y.
-	 * @param x Dividend.
-	 * @param y Divisor.
-	 * @return The remainder of the division of x by y.
-	 */
-	constexpr long double remainderl(long double x, long double y)
-	{ return ccm::remainder<long double>(x, y); }
-} // namespace ccm
+		// Round the remaining quotient to the nearest integer, ties to even.
+		if (divisor < T(2) * std::numeric_limits<T>::min())
+		{
+			if (rem + rem > divisor)
+			{
+				rem -= divisor;
+				if (rem + rem >= divisor) { rem -= divisor; }
+			}
+		}
+		else
+		{
+			const T half = divisor / T(2);
+			if (rem > half)
+			{
+				rem -= divisor;
+				if (rem >= half) { rem -= divisor; }
+			}
+		}
 
-/// @ingroup basic
+		// A zero result has the sign of x.
+		if (rem == T(0)) { rem = T(0); }
+		return x < T(0) ? -rem : rem;
+	}
+} // namespace ccm::gen
diff --git a/include/ccmath/internal/math/runtime/func/basic/fmod_rt.hpp b/include/ccmath/internal/math/runtime/func/basic/fmod_rt.hpp
index 5353a10..513b21b 100644
--- a/include/ccmath/internal/math/runtime/func/basic/fmod_rt.hpp
+++ b/include/ccmath/internal/math/runtime/func/basic/fmod_rt.hpp
@@ -11,8 +11,8 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/builtins/basic/fmod.hpp"
+#include "ccmath/internal/math/generic/func/basic/fmod_gen.hpp"
 #include "ccmath/internal/math/runtime/func/detail/msvc_libm.hpp"
-#include "ccmath/internal/math/runtime/func/detail/trunc_scalar.hpp"
 #include "ccmath/internal/math/runtime/func/rt_dispatch.hpp"
 
 #include <type_traits>
@@ -28,7 +28,7 @@ namespace ccm::rt
 		if constexpr (ccm::builtin::has_runtime_fmod<T>) { return ccm::builtin::fmod_rt(x, y); }
 		else
 		{
-			return static_cast<T>(x - (detail::trunc_scalar<T>(x / y) * y));
+			return gen::fmod_gen(x, y);
 		}
 #endif
 	}
diff --git a/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp b/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp
index 0064b53..0fd0f2d 100644
--- a/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp
+++ b/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp
@@ -11,13 +11,10 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/builtins/basic/remainder.hpp"
+#include "ccmath/internal/math/generic/func/basic/remainder_gen.hpp"
 #include "ccmath/internal/math/runtime/func/detail/msvc_libm.hpp"
-#include "ccmath/internal/math/runtime/func/detail/trunc_scalar.hpp"
 #include "ccmath/internal/math/runtime/func/rt_dispatch.hpp"
-#include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/fp/fp_bits.hpp"
 
-#include <limits>
 #include <type_traits>
 
 namespace ccm::rt
@@ -31,16 +28,7 @@ namespace ccm::rt
 		if constexpr (ccm::builtin::has_runtime_remainder<T>) { return ccm::builtin::remainder_rt(x, y); }
 		else
 		{
-			using FPBits_t = typename ccm::support::fp::FPBits<T>;
-			const FPBits_t x_bits(x);
-			const FPBits_t y_bits(y);
-			const bool x_is_nan = x_bits.is_nan();
-			const bool y_is_nan = y_bits.is_nan();
-			if (CCM_UNLIKELY((x_bits.is_inf() && !y_is_nan) || (y_bits.is_zero() && !x_is_nan) || (x_is_nan || y_is_nan)))
-			{
-				return -std::numeric_limits<T>::quiet_NaN();
-			}
-			return static_cast<T>(x - (detail::trunc_scalar<T>(x / y) * y));
+			return gen::remainder_gen(x, y);
 		}
 #endif
 	}
diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 461a062..8966f81 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -11,13 +11,11 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/builtins/basic/fmod.hpp"
+#include "ccmath/internal/math/generic/func/basic/fmod_gen.hpp"
 #include "ccmath/internal/math/runtime/func/basic/fmod_rt.hpp"
-#include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
 
-#include <limits>
+#include <type_traits>
 
 namespace ccm
 {
@@ -27,48 +25,8 @@ namespace ccm
 		template <typename T>
 		constexpr T fmod_impl_check(T x, T y) noexcept
 		{
-			if constexpr (std::is_floating_point_v<T>)
-			{
-				if (!ccm::support::is_constant_evaluated()) { return ccm::rt::fmod_rt(x, y); }
-			}
-
-			// Special edge cases for floating-point types.
-			if constexpr (std::numeric_limits<T>::is_iec559)
-			{
-				using FPBits_t = typename ccm::support::fp::FPBits<T>;
-				const FPBits_t x_bits(x);
-				const FPBits_t y_bits(y);
-
-				// If x is ±0 and y is not zero, ±0 is returned.
-				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
-				{
-					// The standard specifies that plus or minus 0 is returned depending on the sign of x.
-					return x;
-				}
-
-				// If x is ±∞ and y is not NaN OR if y is ±0 and x is not NaN, -NaN is returned
-				if (CCM_UNLIKELY((x_bits.is_inf() && !y_bits.is_nan()) || (y_bits.is_zero() && !x_bits.is_nan())))
-				{
-					// For some reason, all the major compilers return a negative NaN
-					// even though I can't find anywhere in the standard that specifies this.
-					// I'm going to follow suit and return a negative NaN for now.
-					// Overall, this has little effect on checking for NaN.
-					// We only really care for conformance with the standard.
-					return -std::numeric_limits<T>::quiet_NaN();
-				}
-
-				// If y is ±∞ and x is finite, x is returned.
-				if (CCM_UNLIKELY(y_bits.is_inf() && x_bits.is_finite())) { return x; }
-
-				// If either argument is NaN, NaN is returned.
-				if (CCM_UNLIKELY(x_bits.is_nan() || y_bits.is_nan()))
-				{
-					// Same problem as before, but this time all major compilers return a positive NaN.
-					return std::numeric_limits<T>::quiet_NaN();
-				}
-			}
-
-			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::fmod_rt(x, y); }
+			return ccm::gen::fmod_gen(x, y);
 		}
 
 		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
@@ -100,7 +58,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double fmod(Integer x, Integer y)
-	{ return internal::impl::fmod_impl_type_check(x, y); }
+	{ return internal::impl::fmod_impl_check(static_cast<double>(x), static_cast<double>(y)); }
 
 	/**
 	 * @brief Returns the floating-point remainder of the division operation x/y.
diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index e348688..5dfa95f 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -11,11 +11,11 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/builtins/basic/remainder.hpp"
+#include "ccmath/internal/math/generic/func/basic/remainder_gen.hpp"
 #include "ccmath/internal/math/runtime/func/basic/remainder_rt.hpp"
-#include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
-#include "ccmath/math/nearest/trunc.hpp"
+
+#include <type_traits>
 
 namespace ccm
 {
@@ -32,23 +32,7 @@ namespace ccm
 	{
 		if (!ccm::support::is_constant_evaluated()) { return ccm::rt::remainder_rt(x, y); }
 
-		using FPBits_t = typename ccm::support::fp::FPBits<T>;
-		const FPBits_t x_bits(x);
-		const FPBits_t y_bits(y);
-
-		const bool x_is_nan = x_bits.is_nan();
-		const bool y_is_nan = y_bits.is_nan();
-
-		// If x is ±∞ and y is not NaN, NaN is returned.
-		// If y is ±0 and x is not NaN, NaN is returned.
-		// If either argument is NaN, NaN is returned.
-		if (CCM_UNLIKELY((x_bits.is_inf() && !y_is_nan) || (y_bits.is_zero() && !x_is_nan) || (x_is_nan || y_is_nan)))
-		{
-			// All major compilers return -NaN.
-			return -std::numeric_limits<T>::quiet_NaN();
-		}
-
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+		return ccm::gen::remainder_gen(x, y);
 	}
 
 	/**
-- 
2.43.0


From c80109b223e387246a5cc8fd2dddeab71012dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 04/62] fix: remquo for long double no longer narrows to double

---
 .../math/basic/impl/remquo_ldouble_impl.hpp   | 82 ++++++++++++++-----
 include/ccmath/math/basic/remquo.hpp          |  6 +-
 2 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
index b062743..1dd50a7 100644
--- a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
@@ -11,11 +11,12 @@
 #pragma once
 
 #include "ccmath/internal/predef/unlikely.hpp"
-#include "ccmath/internal/support/bits.hpp"
 #include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/basic/fmod.hpp"
+#include "ccmath/math/compare/isfinite.hpp"
+#include "ccmath/math/compare/isnan.hpp"
+#include "ccmath/math/compare/signbit.hpp"
 
-#include <cstdint>
 #include <limits>
 
 namespace ccm::internal
@@ -24,25 +25,64 @@ namespace ccm::internal
 	{
 		constexpr long double remquo_ldouble_impl(long double x, long double y, int * quo) noexcept
 		{
-			/*
-				std::int32_t x_exponent{};
-				std::int32_t y_exponent{};
-				std::int32_t x_int32{};
-				std::int32_t y_int32{};
-
-				std::uint32_t x_sign{};
-				std::uint32_t y_msb{};
-				std::uint32_t x_lsb{};
-
-				int quotient_sign{};
-				int computed_quotient{};
-			 */
-			// TODO: For the time being this is mega on hold until we have access to
-			//       necessary implementations of int128_t. Without them extracting the
-			//       needed bits to perform the necessary operations would be extremely challenging
-			//       due to the fact that long double is extremely platform dependent.
-
-			return 0;
+			constexpr long double max = std::numeric_limits<long double>::max();
+
+			const bool x_is_neg		   = ccm::signbit(x);
+			const bool quotient_is_neg = x_is_neg != ccm::signbit(y);
+			int computed_quotient{};
+
+			// If y is zero, x is not finite or y is NaN.
+			if (CCM_UNLIKELY(y == 0.0L || !ccm::isfinite(x) || ccm::isnan(y))) { return (x * y) / (x * y); }
+
+			x = ccm::fabs(x);
+			y = ccm::fabs(y);
+
+			// The low three bits of the quotient survive the reduction modulo 8 * y.
+			if (y <= max / 8) { x = ccm::fmod(x, 8 * y); }
+			if (y <= max / 4 && x >= 4 * y)
+			{
+				x -= 4 * y;
+				computed_quotient += 4;
+			}
+			if (y <= max / 2 && x >= 2 * y)
+			{
+				x -= 2 * y;
+				computed_quotient += 2;
+			}
+
+			if (y < 2 * std::numeric_limits<long double>::min())
+			{
+				if (x + x > y)
+				{
+					x -= y;
+					++computed_quotient;
+					if (x + x >= y)
+					{
+						x -= y;
+						++computed_quotient;
+					}
+				}
+			}
+			else
+			{
+				const long double y_half = 0.5L * y;
+				if (x > y_half)
+				{
+					x -= y;
+					++computed_quotient;
+					if (x >= y_half)
+					{
+						x -= y;
+						++computed_quotient;
+					}
+				}
+			}
+
+			*quo = quotient_is_neg ? -computed_quotient : computed_quotient;
+
+			// Make sure that the correct sign of zero results in round down mode.
+			if (x == 0.0L) { x = 0.0L; }
+			return x_is_neg ? -x : x;
 		}
 	} // namespace impl
 
diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b977f9b..d9bbb32 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/math/basic/impl/remquo_double_impl.hpp"
 #include "ccmath/math/basic/impl/remquo_float_impl.hpp"
+#include "ccmath/math/basic/impl/remquo_ldouble_impl.hpp"
 
 namespace ccm
 {
@@ -48,6 +49,7 @@ namespace ccm
 	constexpr T remquo(T x, T y, int * quo)
 	{
 		if constexpr (std::is_same_v<T, float>) { return internal::remquo_float(x, y, quo); }
+		else if constexpr (std::is_same_v<T, long double>) { return internal::remquo_ldouble(x, y, quo); }
 		else
 		{
 			return internal::remquo_double(x, y, quo);
@@ -152,9 +154,7 @@ namespace ccm
 	 */
 	constexpr long double remquol(long double x, long double y, int * quo)
 	{
-		// Currently, due to technical issues, the long double version of remquo is not implemented.
-		// For now, we will cast the long double variables to a double and call the double version of remquo.
-		return static_cast<long double>(ccm::remquo<double>(static_cast<double>(x), static_cast<double>(y), quo));
+		return ccm::remquo<long double>(x, y, quo);
 	}
 } // namespace ccm
 
-- 
2.43.0


From cbd74313fe3b58b23d0367e6e000714cba13524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 05/62] fix: frexp, ilogb, logb and modf for long double no
 longer narrow to double

---
 .../internal/math/generic/func/fmanip/frexp_gen.hpp    |  7 +------
 .../internal/math/generic/func/fmanip/ilogb_gen.hpp    |  7 +------
 .../internal/math/generic/func/fmanip/logb_gen.hpp     |  7 +------
 .../internal/math/generic/func/fmanip/modf_gen.hpp     | 10 +---------
 include/ccmath/math/fmanip/modf.hpp                    |  7 +------
 5 files changed, 5 insertions(+), 33 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
index 4b3f971..480be01 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T frexp_gen(T x, int & exp)
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::frexp_impl(static_cast<double>(x), exp));
-		}
+		return ccm::internal::impl::frexp_impl(x, exp);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
index 8dcb4d1..590693e 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr int ilogb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::ilogb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::ilogb_impl(num); }
-		else
-		{
-			return ccm::internal::impl::ilogb_impl(static_cast<double>(num));
-		}
+		return ccm::internal::impl::ilogb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
index 5ec1541..f97fe69 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T logb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::logb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::logb_impl(num); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::logb_impl(static_cast<double>(num)));
-		}
+		return ccm::internal::impl::logb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
index 16bb402..6a6d07c 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
@@ -19,14 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T modf_gen(T x, T * iptr) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
-		else
-		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
-		}
+		return internal::impl::modf_impl(x, iptr);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/math/fmanip/modf.hpp b/include/ccmath/math/fmanip/modf.hpp
index bf3bcc0..85083b8 100644
--- a/include/ccmath/math/fmanip/modf.hpp
+++ b/include/ccmath/math/fmanip/modf.hpp
@@ -38,14 +38,9 @@ namespace ccm
 			*iptr			   = integer_part;
 			return fractional;
 		}
-		else if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
 		else
 		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
+			return internal::impl::modf_impl(x, iptr);
 		}
 	}
 
-- 
2.43.0


From d92e35f13f16ee9f337756ff8555be2a2f2f2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 06/62] fix: scalbn and scalbln for long double, and exponents
 beyond int

---
 .../math/runtime/func/fmanip/scalbn_rt.hpp    |  4 +-
 .../math/fmanip/impl/scalbn_double_impl.hpp   |  3 +-
 .../math/fmanip/impl/scalbn_float_impl.hpp    |  3 +-
 .../math/fmanip/impl/scalbn_ldouble_impl.hpp  | 50 +++----------------
 include/ccmath/math/fmanip/scalbn.hpp         |  4 +-
 5 files changed, 16 insertions(+), 48 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/func/fmanip/scalbn_rt.hpp b/include/ccmath/internal/math/runtime/func/fmanip/scalbn_rt.hpp
index c1d3a22..5274bfb 100644
--- a/include/ccmath/internal/math/runtime/func/fmanip/scalbn_rt.hpp
+++ b/include/ccmath/internal/math/runtime/func/fmanip/scalbn_rt.hpp
@@ -14,6 +14,7 @@
 #include "ccmath/internal/math/runtime/func/rt_dispatch.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_double_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
+#include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
 #include <type_traits>
 
@@ -26,7 +27,8 @@ namespace ccm::rt
 		else
 		{
 			return detail::dispatch_float_double(
-				num, [&](float value) { return internal::scalbn_float(value, exp); }, [&](double value) { return internal::scalbn_double(value, exp); });
+				num, [&](float value) { return internal::scalbn_float(value, exp); }, [&](double value) { return internal::scalbn_double(value, exp); },
+				[&](long double value) { return internal::scalbn_ldouble(value, exp); });
 		}
 	}
 } // namespace ccm::rt
diff --git a/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp
index 12548fc..bfed0ed 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp
@@ -15,6 +15,7 @@
 #include "ccmath/math/basic/max.hpp"
 #include "ccmath/math/basic/min.hpp"
 
+#include <climits>
 #include <cstdint>
 
 namespace ccm::internal
@@ -59,5 +60,5 @@ namespace ccm::internal
 	{ return impl::scalbn_double_impl(arg, exp); }
 
 	constexpr double scalbn_double(double arg, long exp) noexcept
-	{ return impl::scalbn_double_impl(arg, static_cast<int>(exp)); }
+	{ return impl::scalbn_double_impl(arg, exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp)); }
 } // namespace ccm::internal
diff --git a/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp
index ddaa9e1..5d23421 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp
@@ -16,6 +16,7 @@
 #include "ccmath/math/basic/max.hpp"
 #include "ccmath/math/basic/min.hpp"
 
+#include <climits>
 #include <cstdint>
 CCM_DISABLE_MSVC_WARNING(4756) // 4756: overflow in constant arithmetic
 
@@ -61,7 +62,7 @@ namespace ccm::internal
 	{ return impl::scalbn_float_impl(arg, exp); }
 
 	constexpr float scalbn_float(float arg, long exp) noexcept
-	{ return impl::scalbn_float_impl(arg, static_cast<int>(exp)); }
+	{ return impl::scalbn_float_impl(arg, exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp)); }
 } // namespace ccm::internal
 
 CCM_RESTORE_MSVC_WARNING()
diff --git a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
index 2a9105b..d25567d 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
@@ -10,13 +10,13 @@
 
 #pragma once
 
+#include <cfloat>
+#include <climits>
+
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024
 	#include "ccmath/math/fmanip/impl/scalbn_double_impl.hpp"
 #elif (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384
-	#include "ccmath/math/compare/isinf.hpp"
-	#include "ccmath/math/compare/isnan.hpp"
-
-	#include <limits>
+	#include "ccmath/internal/support/helpers/internal_ldexp.hpp"
 #endif
 
 namespace ccm::internal
@@ -28,45 +28,7 @@ namespace ccm::internal
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024 // If long double is the same as double
 			return static_cast<long double>(ccm::internal::impl::scalbn_double_impl(static_cast<double>(arg), exp));
 #elif (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384 // If long double is 80-bit or 128-bit large
-			// This is a generic implementation for long double scalbn that does not use bit manipulation.
-			// May be much slower than the double and float version.
-			// Need to benchmark it.
-			// TODO: Possibly implement a bit manipulation version of this function in the future if possible.
-			if (arg == static_cast<long double>(0)) { return arg; }
-
-			if (ccm::isinf(arg)) { return arg; }
-
-			if (exp == static_cast<long double>(0)) { return arg; }
-
-			if (ccm::isnan(arg)) { return std::numeric_limits<long double>::quiet_NaN(); }
-
-			long double mult(1);
-			if (exp > 0)
-			{
-				mult = std::numeric_limits<long double>::radix;
-				--exp;
-			}
-			else
-			{
-				++exp;
-				exp = -exp;
-				mult /= std::numeric_limits<long double>::radix;
-			}
-
-			while (exp > 0)
-			{
-				if ((exp & 1) == 0)
-				{
-					mult *= mult;
-					exp >>= 1;
-				}
-				else
-				{
-					arg *= mult;
-					--exp;
-				}
-			}
-			return arg;
+			return ccm::support::helpers::internal_ldexp(arg, exp);
 #else
 			// This should never be called, but since we are not using templates here can can not static_assert it.
 			return 0;
@@ -78,5 +40,5 @@ namespace ccm::internal
 	{ return impl::scalbn_ldouble_impl(num, exp); }
 
 	constexpr long double scalbn_ldouble(long double num, long exp) noexcept
-	{ return impl::scalbn_ldouble_impl(num, static_cast<int>(exp)); }
+	{ return impl::scalbn_ldouble_impl(num, exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp)); }
 } // namespace ccm::internal
diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..66e725f 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,8 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <climits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -61,7 +63,7 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
 		else
 		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
+			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp)); }
 
 			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
 			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-- 
2.43.0


From 38a5af90f4e1e2c67488366ad510a08217ff49c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 07/62] fix: nextafter and nexttoward for 80-bit long double
 and for integer arguments

---
 .../generic/func/fmanip/nextafter_gen.hpp     | 55 +++++++++++--------
 .../ccmath/internal/support/fp/fp_bits.hpp    |  2 +-
 include/ccmath/math/fmanip/nextafter.hpp      |  6 +-
 include/ccmath/math/fmanip/nexttoward.hpp     |  2 +-
 4 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..181c368 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -17,47 +17,56 @@
 
 namespace ccm::gen
 {
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+	constexpr long double nextafter_ldouble_gen(long double from, long double to) noexcept;
+#endif
+
 	template <class TFrom,
 			  class TTo,
 			  std::enable_if_t<std::is_floating_point_v<TFrom> && std::is_floating_point_v<TTo> && (sizeof(TFrom) <= sizeof(TTo)), bool> = true>
 	[[nodiscard]] constexpr TFrom nextafter_gen(TFrom from, TTo to) noexcept
 	{
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		if constexpr (std::is_same_v<TFrom, long double>) { return nextafter_ldouble_gen(from, to); }
+		else
+#endif
+		{
+			ccm::support::fp::FPBits<TFrom> from_bits(from);
+			if (from_bits.is_nan()) { return from; }
 
-		ccm::support::fp::FPBits<TFrom> from_bits(from);
-		if (from_bits.is_nan()) { return from; }
-
-		ccm::support::fp::FPBits<TTo> to_bits(to);
-		if (to_bits.is_nan()) { return static_cast<TFrom>(to); }
+			ccm::support::fp::FPBits<TTo> to_bits(to);
+			if (to_bits.is_nan()) { return static_cast<TFrom>(to); }
 
-		// This evaluation will only work so long as 'Arithmetic2' is a greater than or equal to the precision of 'Arithmetic1'
-		// If 'Arithmetic2' is a lower precision than 'Arithmetic1', then the following statement could incorrectly evaluate to true
-		// This is due to loss of precision in the conversion of 'from' to Arithmetic2
-		if (static_cast<TTo>(from) == to) { return static_cast<TFrom>(to); }
+			// This evaluation will only work so long as 'Arithmetic2' is a greater than or equal to the precision of 'Arithmetic1'
+			// If 'Arithmetic2' is a lower precision than 'Arithmetic1', then the following statement could incorrectly evaluate to true
+			// This is due to loss of precision in the conversion of 'from' to Arithmetic2
+			if (static_cast<TTo>(from) == to) { return static_cast<TFrom>(to); }
 
-		using Storage_t = typename ccm::support::fp::FPBits<TFrom>::storage_type;
-		if (from != TFrom(0))
-		{
-			if ((static_cast<TTo>(from) < to) == (from > TFrom(0))) { from_bits = ccm::support::fp::FPBits<TFrom>(Storage_t(from_bits.uintval() + 1)); }
+			using Storage_t = typename ccm::support::fp::FPBits<TFrom>::storage_type;
+			if (from != TFrom(0))
+			{
+				if ((static_cast<TTo>(from) < to) == (from > TFrom(0))) { from_bits = ccm::support::fp::FPBits<TFrom>(Storage_t(from_bits.uintval() + 1)); }
+				else
+				{
+					from_bits = ccm::support::fp::FPBits<TFrom>(Storage_t(from_bits.uintval() - 1));
+				}
+			}
 			else
 			{
-				from_bits = ccm::support::fp::FPBits<TFrom>(Storage_t(from_bits.uintval() - 1));
+				from_bits = ccm::support::fp::FPBits<TFrom>::min_subnormal(to_bits.sign());
 			}
-		}
-		else
-		{
-			from_bits = ccm::support::fp::FPBits<TFrom>::min_subnormal(to_bits.sign());
-		}
 
-		if (from_bits.is_subnormal()) { ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT); }
-		else if (from_bits.is_inf()) { ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT); }
+			if (from_bits.is_subnormal()) { ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT); }
+			else if (from_bits.is_inf()) { ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT); }
 
-		return from_bits.get_val();
+			return from_bits.get_val();
+		}
 	}
 
 #if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
 	// Specialization for 80-bit long double
 	// NOLINTNEXTLINE(readability-function-cognitive-complexity) - This function is complex by nature due to the nature of handling 80-bit long double
-	constexpr long double nextafter(long double from, long double to)
+	constexpr long double nextafter_ldouble_gen(long double from, long double to) noexcept
 	{
 		using FPBits_t = ccm::support::fp::FPBits<long double>;
 		FPBits_t from_bits(from);
diff --git a/include/ccmath/internal/support/fp/fp_bits.hpp b/include/ccmath/internal/support/fp/fp_bits.hpp
index eb9278d..e104386 100644
--- a/include/ccmath/internal/support/fp/fp_bits.hpp
+++ b/include/ccmath/internal/support/fp/fp_bits.hpp
@@ -546,7 +546,7 @@ namespace ccm::support::fp
 				{
 					if (exp_sig_bits() == max_normal().uintval()) { return inf(sign()); }
 					if (exp_sig_bits() == max_subnormal().uintval()) { return min_normal(sign()); }
-					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::zero())); }
+					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::msb())); }
 					return RetT(bits + static_cast<storage_type>(1));
 				}
 				return RetT(bits);
diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..61b46a4 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,11 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using shared_type = std::conditional_t<std::is_integral_v<Arithmetic1> || std::is_integral_v<Arithmetic2>,
+											   std::common_type_t<double, Arithmetic1, Arithmetic2>, std::common_type_t<Arithmetic1, Arithmetic2>>;
+		return ccm::nextafter<shared_type>(static_cast<shared_type>(from), static_cast<shared_type>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..5c5e89a 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward<double>(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From 8c8e78f5caa9ceb0e98bcc58fcc235994a84a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 08/62] fix: sqrt keeps the rounding carry for 80-bit long
 double

---
 include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
index b4a19c5..2b8500b 100644
--- a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
@@ -155,7 +155,7 @@ namespace ccm::gen
 
 					// Extract output
 					support::fp::FPBits<long double> out(0.0L);
-					out.set_biased_exponent(static_cast<storage_type>(x_exp));
+					out.set_biased_exponent(static_cast<storage_type>(y >> (Bits::fraction_length + 1))); // rounding up may have carried into the exponent
 					out.set_implicit_bit(true);
 					out.set_mantissa(y & (one - 1));
 
-- 
2.43.0


From e648016e649382d2477d5c7dde83d6f690ad3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 09/62] fix: DyadicFloat rounding carry keeps the explicit
 leading bit of 80-bit long double

---
 include/ccmath/internal/types/dyadic_float.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 7ceb24a..3385892 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -307,6 +307,14 @@ namespace ccm::types
 			default: break;
 			}
 
+			// Formats with an explicit leading bit need it kept up to date when rounding carries out of the fraction.
+			if constexpr (FPBits::significand_mask != FPBits::fraction_mask)
+			{
+				constexpr StorageType explicit_bit = FPBits::significand_mask - FPBits::fraction_mask;
+				if (out_biased_exp != 0) { result |= explicit_bit; }
+				else if ((result & explicit_bit) != 0) { result += explicit_bit << 1; }
+			}
+
 			if constexpr (ShouldSignalExceptions)
 			{
 				if (round || sticky)
-- 
2.43.0


From 3a0d0a380767d6c4176dbb7e258c4bd763a8e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 10/62] fix: fma with a zero addend keeps the sign of an
 underflowing product

---
 include/ccmath/internal/support/fp/fma.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 429a3d8..acd9977 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,7 +510,7 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0) || z == T(0))) { return x * y + z; }
+			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
 
 			int x_exp = 0;
 			int y_exp = 0;
@@ -559,6 +559,14 @@ namespace ccm::support::fp
 			TmpResultType prod_mant = TmpResultType(x_mant) * TmpResultType(y_mant);
 			int prod_lsb_exp		= x_exp + y_exp - (FPBits::exponent_bias + 2 * static_cast<int>(FPBits::fraction_length));
 
+			if (CCM_UNLIKELY(z_bits.is_zero()))
+			{
+				// A zero addend leaves the exact product. Evaluating x * y + z instead would lose the sign of
+				// a product that underflows to zero.
+				const WideFloat product(prod_sign, prod_lsb_exp - FPBits::exponent_bias, prod_mant);
+				return product.template generic_as<T, ShouldSignalExceptions>();
+			}
+
 			constexpr int RESULT_MIN_LEN = static_cast<int>(PROD_LEN) - static_cast<int>(FPBits::fraction_length);
 			z_mant <<= static_cast<std::size_t>(RESULT_MIN_LEN);
 			int z_lsb_exp	 = z_exp - (static_cast<int>(FPBits::fraction_length) + RESULT_MIN_LEN);
-- 
2.43.0


From 381d0f6abfd784b90358024942378da558fef1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 11/62] fix: exact_mult stays exact when the compiler contracts
 to FMA

---
 include/ccmath/internal/types/double_double.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ccmath/internal/types/double_double.hpp b/include/ccmath/internal/types/double_double.hpp
index 1bf6495..c5f3e24 100644
--- a/include/ccmath/internal/types/double_double.hpp
+++ b/include/ccmath/internal/types/double_double.hpp
@@ -79,6 +79,15 @@ namespace ccm
 		constexpr DoubleDouble exact_mult(double a, double b)
 		{
 			DoubleDouble r{ 0.0, 0.0 };
+#if defined(CCMATH_TARGET_CPU_HAS_FMA) && !defined(CCM_CONFIG_DETERMINISTIC) && CCM_HAS_BUILTIN(__builtin_fma)
+			// A compiler that contracts a * b + c on its own (GCC by default) would break Dekker's product.
+			if (!support::is_constant_evaluated())
+			{
+				r.hi = a * b;
+				r.lo = __builtin_fma(a, b, -r.hi);
+				return r;
+			}
+#endif
 			// Dekker's Product.
 			const DoubleDouble as = split(a);
 			const DoubleDouble bs = split(b);
-- 
2.43.0


From 7c304218302fc296e7438eadcbea9cb946c6df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 12/62] fix: powl keeps the sign on overflow and underflow,
 subnormal results, and accuracy in constant evaluation

---
 .../func/power/pow_impl/powl_ld80_kernel.hpp  | 51 +++++++------------
 .../math/generic/func/power/powl_gen.hpp      | 19 ++-----
 2 files changed, 21 insertions(+), 49 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 0ee6cce..1716cb7 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -39,7 +39,7 @@ namespace ccm::gen::internal::impl::bit80
 		inline constexpr long double kScaleDown			 = 0x1.0p-512L;
 		inline constexpr long double kUpperY6Bound		 = 512.0L * 64.0L;
 		inline constexpr long double kOverflowY6HiClamp	 = (static_cast<long double>(LDBL_MAX_EXP - 2) + 513.0L) * 64.0L;
-		inline constexpr long double kUnderflowY6HiClamp = (static_cast<long double>(LDBL_MIN_EXP - (LDBL_MANT_DIG - 1)) + 512.0L) * 64.0L;
+		inline constexpr long double kUnderflowY6HiClamp = (static_cast<long double>(LDBL_MIN_EXP - LDBL_MANT_DIG - 2) + 512.0L) * 64.0L; // below half the smallest subnormal
 
 		constexpr LongDoublePair exact_add(long double a, long double b) noexcept
 		{
@@ -85,7 +85,7 @@ namespace ccm::gen::internal::impl::bit80
 
 			if (constexpr long double max_exact_int = 0x1.0p63L; x < max_exact_int && x > -max_exact_int)
 			{
-				constexpr long double round_offset = 0x1.0p62L;
+				constexpr long double round_offset = 0x1.0p63L; // one unit in the last place of the 64-bit significand is 1 from here on
 				return x < 0.0L ? (x - round_offset) + round_offset : (x + round_offset) - round_offset;
 			}
 			return x;
@@ -93,7 +93,8 @@ namespace ccm::gen::internal::impl::bit80
 
 		inline constexpr long double kScaleStep = 512.0L * 64.0L;
 
-		constexpr long double powl_ld80_general_finite(long double base, long double exp) noexcept
+		// |base|^exp with the sign of the result applied before the one rounding that depends on the rounding mode.
+		constexpr long double powl_ld80_general_finite(long double base, long double exp, bool negative) noexcept
 		{
 			FPBits_t base_bits(base);
 			int exponent_adjust = 0;
@@ -124,6 +125,9 @@ namespace ccm::gen::internal::impl::bit80
 			const long double c							= FPBits_t::create_value(types::Sign::POS, FPBits_t::exponent_bias, c_sig).get_val();
 			dx	  = support::multiply_add(tables::RD.at(static_cast<std::size_t>(idx_x)), m_x - c, tables::CD.at(static_cast<std::size_t>(idx_x)));
 			dx_c0 = exact_mult(tables::POW_LOG2_COEFFS[0], dx);
+			// The leading coefficient is 1/ln(2). What its rounding drops is multiplied by |exp * log2(base)|, up to 2^14.
+			constexpr long double inv_ln2_lo = -0x1.05e004be5b8b05dcp-65L;
+			dx_c0.lo						 = support::multiply_add(inv_ln2_lo, dx, dx_c0.lo);
 
 			const long double dx2 = dx * dx;
 			const long double c0  = support::multiply_add(dx, tables::POW_LOG2_COEFFS[2], tables::POW_LOG2_COEFFS[1]);
@@ -207,16 +211,16 @@ namespace ccm::gen::internal::impl::bit80
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_OVERFLOW);
-				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(1.0L, kOverflowShift); }
-				return FPBits_t::inf(types::Sign::POS).get_val();
+				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(negative ? -1.0L : 1.0L, kOverflowShift); }
+				return FPBits_t::inf(negative ? types::Sign::NEG : types::Sign::POS).get_val();
 			}
 
 			if (forced_underflow)
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_UNDERFLOW);
-				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(1.0L, kUnderflowShift); }
-				return FPBits_t::zero(types::Sign::POS).get_val();
+				if (!support::is_constant_evaluated()) { return support::helpers::internal_ldexp(negative ? -1.0L : 1.0L, kUnderflowShift); }
+				return FPBits_t::zero(negative ? types::Sign::NEG : types::Sign::POS).get_val();
 			}
 
 			// Extract the integer part from the high limb only: hm is near y6_log2_x.hi, so
@@ -255,38 +259,19 @@ namespace ccm::gen::internal::impl::bit80
 			result = support::multiply_add(exp2_hm_lo * lo6, pp, result);
 			result += exp2_hm_hi;
 
-			long double final = result;
+			long double final = negative ? -result : result;
 			if (scale_exp512 != 0) { final = support::helpers::internal_ldexp(final, scale_exp512); }
-			FPBits_t final_bits(final);
-			if (final_bits.sign().is_neg())
-			{
-				if (final_bits.is_inf())
-				{
-					support::fenv::set_errno_if_required(ERANGE);
-					support::fenv::raise_except_if_required(FE_OVERFLOW);
-					final = FPBits_t::inf(types::Sign::POS).get_val();
-				}
-				else if (!final_bits.is_zero() && final_bits.abs().uintval() < FPBits_t::min_subnormal().uintval())
-				{
-					support::fenv::set_errno_if_required(ERANGE);
-					support::fenv::raise_except_if_required(FE_UNDERFLOW);
-					final = 0.0L;
-				}
-				else
-				{
-					final = final_bits.abs().get_val();
-				}
-			}
-			else if (scale_exp512 > 0 && final_bits.is_inf() && final_bits.is_pos())
+
+			const FPBits_t final_bits(final);
+			if (scale_exp512 > 0 && final_bits.is_inf())
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_OVERFLOW);
 			}
-			else if (scaled_down && final_bits.is_finite() && !final_bits.is_zero() && final_bits.abs().uintval() < FPBits_t::min_subnormal().uintval())
+			else if (scaled_down && (final_bits.is_zero() || final_bits.is_subnormal()))
 			{
 				support::fenv::set_errno_if_required(ERANGE);
 				support::fenv::raise_except_if_required(FE_UNDERFLOW);
-				final = 0.0L;
 			}
 
 			return final;
@@ -294,8 +279,8 @@ namespace ccm::gen::internal::impl::bit80
 
 	} // namespace powl_ld80_detail
 
-	constexpr long double powl_ld80_general_finite(long double base, long double exp) noexcept
-	{ return powl_ld80_detail::powl_ld80_general_finite(base, exp); }
+	constexpr long double powl_ld80_general_finite(long double base, long double exp, bool negative) noexcept
+	{ return powl_ld80_detail::powl_ld80_general_finite(base, exp, negative); }
 
 } // namespace ccm::gen::internal::impl::bit80
 
diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 45d6e3e..f4954d5 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -213,6 +213,8 @@ namespace ccm::gen
 					// Once the product overflows (or contaminates with NaN) the exact-mult split would
 					// produce inf - inf = NaN, so propagate a clean infinity instead.
 					if (ccm::isinf(hi) || ccm::isnan(hi)) { return Pair{ hi, 0.0L }; }
+					// Rounding toward zero an overflowing product saturates instead.
+					if (abs_ld(hi) == LDBL_MAX) { return Pair{ std::numeric_limits<long double>::infinity(), 0.0L }; }
 					if (abs_ld(a.hi) >= kSplitSafe || abs_ld(b.hi) >= kSplitSafe) { return Pair{ hi, 0.0L }; }
 					Pair p = bit80::powl_ld80_detail::exact_mult(a.hi, b.hi);
 					p.lo += a.hi * b.lo + a.lo * b.hi;
@@ -285,19 +287,6 @@ namespace ccm::gen
 
 					if (ccm::isnan(base) || ccm::isnan(exp)) { return std::numeric_limits<long double>::quiet_NaN(); }
 
-					if (support::is_constant_evaluated() && base > 0.0L && !ccm::isinf(base))
-					{
-						const long double rounded_exp = static_cast<long double>(static_cast<std::int64_t>(exp));
-						if (exp == rounded_exp)
-						{
-							const std::int64_t int_exp = static_cast<std::int64_t>(exp);
-							if (int_exp >= -powl_bits::kBoundedExponentMax && int_exp <= powl_bits::kBoundedExponentMax)
-							{
-								return powl_bounded_integer(base, int_exp);
-							}
-						}
-					}
-
 					const PowlFPBits_t base_bits(base);
 					const PowlFPBits_t exp_bits(exp);
 
@@ -378,9 +367,7 @@ namespace ccm::gen
 					const long double exp_abs = exp_abs_bits.abs().get_val();
 					if (exp_abs > kPowlHugeExponentThreshold) { working_exp = exp_abs_bits.is_neg() ? -0x1.0p100L : 0x1.0p100L; }
 
-					long double result = bit80::powl_ld80_general_finite(working_base, working_exp);
-					if (result_is_neg && result != 0.0L && !ccm::isinf(result) && !ccm::isnan(result)) { result = -result; }
-					return result;
+					return bit80::powl_ld80_general_finite(working_base, working_exp, result_is_neg);
 				}
 			} // namespace bit80
 #endif
-- 
2.43.0


From f426b6ae0dc24dd2d116547e0039831396f8aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 13/62] fix: generic expm1 for large negative and for small
 arguments

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 5 +++--
 include/ccmath/math/expo/impl/exp_float_impl.hpp  | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 44fd869..72fa3a9 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -147,7 +147,8 @@ namespace ccm::internal::impl
 	constexpr double expm1_series(double x)
 	{
 		const double x2 = x * x;
-		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0)))))));
+		const double tail = 1.0 / 40320.0 + x * (1.0 / 362880.0 + x * (1.0 / 3628800.0 + x * (1.0 / 39916800.0 + x * (1.0 / 479001600.0))));
+		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * tail))))));
 	}
 
 	constexpr double expm1_kernel(double x)
@@ -203,7 +204,7 @@ namespace ccm::internal::impl
 
 		tmp = tail + rem + remSqr * (exp_poly_coeff_one_dbl + rem * exp_poly_coeff_two_dbl) +
 			  remSqr * remSqr * (exp_poly_coeff_three_dbl + rem * exp_poly_coeff_four_dbl);
-		if (CCM_UNLIKELY(abs_top == 0.0)) { return handle_special_case(tmp, sign_bits, expo_int64); }
+		if (CCM_UNLIKELY(abs_top == 0.0)) { return handle_special_case(tmp, sign_bits, expo_int64) - 1.0; }
 
 		scale = support::uint64_to_double(sign_bits);
 
diff --git a/include/ccmath/math/expo/impl/exp_float_impl.hpp b/include/ccmath/math/expo/impl/exp_float_impl.hpp
index 96afdbe..2feb0cf 100644
--- a/include/ccmath/math/expo/impl/exp_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_float_impl.hpp
@@ -155,6 +155,9 @@ namespace ccm::internal::impl
 
 		if (x >= 0.25F || x <= -0.25F) { return expm1_kernel(x); }
 
+		// The quadratic term is below half an ulp; rounded away from zero it would swamp a subnormal x.
+		if (x < 0x1p-25F && x > -0x1p-25F) { return x; }
+
 		if (x > 0.0625F || x < -0.0625F)
 		{
 			const float t = expm1_series(x * 0.5F);
-- 
2.43.0


From 5634ba5d51c24f2f49dc53f4e66f4f5407421981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 14/62] fix: generic log1p coefficients, and no overflow at the
 top of the range

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index ad2e99b..61d7a41 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -32,13 +32,13 @@ namespace ccm::internal::impl
 	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
 	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
 
-	constexpr double log1p_lg1_d = 0x1.5555555555555p-1;
-	constexpr double log1p_lg2_d = 0x1.9999999999999p-2;
-	constexpr double log1p_lg3_d = 0x1.2492492492492p-2;
-	constexpr double log1p_lg4_d = 0x1.c71c71c71c6d6p-3;
-	constexpr double log1p_lg5_d = 0x1.745d1745d0a63p-3;
-	constexpr double log1p_lg6_d = 0x1.3b13b13b0ff6ep-3;
-	constexpr double log1p_lg7_d = 0x1.111111111126ep-3;
+	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
+	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
+	constexpr double log1p_lg3_d = 0x1.2492494229359p-2;
+	constexpr double log1p_lg4_d = 0x1.c71c51d8e78afp-3;
+	constexpr double log1p_lg5_d = 0x1.7466496cb03dep-3;
+	constexpr double log1p_lg6_d = 0x1.39a09d078c69fp-3;
+	constexpr double log1p_lg7_d = 0x1.2f112df3e5244p-3;
 
 	constexpr auto log1p_log_data_flt = ccm::internal::log_data<double>();
 	constexpr auto log1p_ln2_hi_d	  = log1p_log_data_flt.ln2hi;
@@ -48,7 +48,8 @@ namespace ccm::internal::impl
 	{
 		if (x > 0.414284F || x < -0.292893F)
 		{
-			const float u = 1.0F + x;
+			// Above 2^24 the addend is below half an ulp; adding it would overflow at the top of the range when rounding up.
+			const float u = x < 0x1p25F ? 1.0F + x : x;
 			if (u == 1.0F) { return x; }
 
 			return log_float_impl(u);
@@ -123,7 +124,8 @@ namespace ccm::internal::impl
 	{
 		if (x > 0.414284 || x < -0.292893)
 		{
-			const double u = 1.0 + x;
+			// As above, for the 53-bit significand.
+			const double u = x < 0x1p54 ? 1.0 + x : x;
 			if (u == 1.0) { return x; }
 
 			return log_double_impl(u);
-- 
2.43.0


From 9ce3f08d29fc35b780aab4a5855f8d6849e4565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 15/62] fix: three-argument hypot keeps a NaN when the first
 pair overflows

---
 include/ccmath/math/power/hypot.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 2d3c5ea..37b6938 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -14,6 +14,8 @@
 #include "ccmath/internal/math/generic/func/power/hypot_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/hypot_rt.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/math/compare/isinf.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <type_traits>
 
@@ -38,6 +40,17 @@ namespace ccm
 		}
 	}
 
+	namespace internal
+	{
+		template <typename T>
+		constexpr T hypot3(T x, T y, T z) noexcept
+		{
+			// A NaN in z must not be lost when hypot(x, y) overflows: only an infinite argument gives infinity.
+			if (ccm::isnan(z) && !ccm::isinf(x) && !ccm::isinf(y)) { return z; }
+			return ccm::hypot(ccm::hypot(x, y), z);
+		}
+	} // namespace internal
+
 	/**
 	 * @brief Computes the length of the three-dimensional hypotenuse.
 	 * @tparam T Floating-point type.
@@ -48,13 +61,13 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/hypot
 	 */
 	constexpr float hypot(float x, float y, float z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return ccm::internal::hypot3(x, y, z); }
 
 	constexpr double hypot(double x, double y, double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return ccm::internal::hypot3(x, y, z); }
 
 	constexpr long double hypot(long double x, long double y, long double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return ccm::internal::hypot3(x, y, z); }
 
 	template <typename Arithmetic1,
 			  typename Arithmetic2,
-- 
2.43.0


From 7e261a05397e728aeda8b3ce076e6e81908d7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 16/62] fix: generic atan2 honours a negative zero; asin by
 symmetry, without losing bits

---
 .../ccmath/math/trig/impl/inv_trig_impl.hpp   | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 901028d..a6a82f3 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -139,11 +139,26 @@ namespace ccm::internal::impl
 	template <typename T>
 	constexpr T asin_impl(T x) noexcept
 	{
+		if (CCM_UNLIKELY(ccm::isnan(x))) { return x; }
+
 		if (x == static_cast<T>(0)) { return x; }
 
 		if (ccm::fabs(x) <= static_cast<T>(0.5)) { return inv_trig_detail::asin_small_impl(x); }
 
-		return static_cast<T>(ccm::numbers::pi_v<T>) / static_cast<T>(2) - acos_impl(x);
+		// asin(x) = pi/2 - acos(x). The float result is formed in double and rounded once, and for negative
+		// x by symmetry: pi/2 - (pi - r) would round an intermediate as large as 2*pi/3 on the way.
+		if constexpr (std::is_same_v<T, float>)
+		{
+			if (ccm::fabs(x) > 1.0F) { return acos_impl(x); }
+			return static_cast<float>(asin_impl<double>(static_cast<double>(x)));
+		}
+		else
+		{
+			if (ccm::fabs(x) > static_cast<T>(1)) { return acos_impl(x); }
+			const T pi_over_2 = static_cast<T>(ccm::numbers::pi_v<T>) / static_cast<T>(2);
+			const T r		  = pi_over_2 - acos_impl(ccm::fabs(x));
+			return x < static_cast<T>(0) ? -r : r;
+		}
 	}
 
 	template <typename T>
@@ -263,7 +278,7 @@ namespace ccm::internal::impl
 
 		if (x < static_cast<T>(0))
 		{
-			if (y >= static_cast<T>(0)) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
+			if (!fp_bits_t(y).is_neg()) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
 			return angle - static_cast<T>(ccm::numbers::pi_v<T>);
 		}
 		return angle;
-- 
2.43.0


From 31d38eacc9960d6020570513c7ca112c82f38bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 17/62] fix: generic float sin and cos reduce their argument
 exactly without FMA

---
 include/ccmath/math/trig/impl/sincos_float_data.hpp | 5 +++--
 include/ccmath/math/trig/impl/sincos_float_impl.hpp | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_float_data.hpp b/include/ccmath/math/trig/impl/sincos_float_data.hpp
index 5a68d3e..5e189c0 100644
--- a/include/ccmath/math/trig/impl/sincos_float_data.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_data.hpp
@@ -23,8 +23,9 @@ namespace ccm::internal::sincos_float_data
 		0.0f, -0x1.87de2ap-2f, -0x1.6a09e6p-1f, -0x1.d906bcp-1f, -1.0f, -0x1.d906bcp-1f, -0x1.6a09e6p-1f, -0x1.87de2ap-2f,
 	};
 
-	// Multi-part pi/8 for small range reduction.
-	constexpr std::array<float, 3> MPI = { -0x1.921f8p-2f, -0x1.aa22p-21f, -0x1.68c234p-41f };
+	// pi/8 in two parts for small range reduction; the high part has 33 significant bits.
+	constexpr double PI_OVER_8_HI = 0x1.921fb544p-2;
+	constexpr double PI_OVER_8_LO = 0x1.0b4611a626331p-36;
 
 	constexpr float ONE_OVER_PI = 0x1.45f306p+1f;
 
diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 562f13e..83a826d 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -37,9 +37,11 @@ namespace ccm::internal::impl
 			const float prod_hi = x * data::ONE_OVER_PI;
 			const float k		= support::fp::nearest_integer(prod_hi);
 
-			const float y_hi = support::multiply_add(k, data::MPI[0], x);
-			u				 = support::multiply_add(k, data::MPI[1], y_hi);
-			u				 = support::multiply_add(k, data::MPI[2], u);
+			// Cody-Waite in double: k needs at most 20 bits and PI_OVER_8_HI has 33, so k * PI_OVER_8_HI is
+			// exact whether or not multiply_add is fused (it is not in constant evaluation on Clang).
+			const double kd	  = static_cast<double>(k);
+			const double y_hi = static_cast<double>(x) - kd * data::PI_OVER_8_HI;
+			u				  = static_cast<float>(y_hi - kd * data::PI_OVER_8_LO);
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
-- 
2.43.0


From 23d0337157d60cc601dfeb7e79a24fdcb52e5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 18/62] fix: generic tgamma and lgamma: exact reduction,
 Stirling series, poles and overflow

The fallback used in constant evaluation and without compiler builtins lost
accuracy away from small arguments, did not return for huge negative
arguments, overflowed float too early, and did not report a pole.
---
 include/ccmath/math/misc/impl/gamma_data.hpp  | 10 +--
 .../math/misc/impl/gamma_double_impl.hpp      | 45 ++++++++------
 .../math/misc/impl/gamma_float_impl.hpp       | 16 ++---
 .../math/misc/impl/lgamma_double_impl.hpp     | 62 ++++++++++++-------
 4 files changed, 80 insertions(+), 53 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_data.hpp b/include/ccmath/math/misc/impl/gamma_data.hpp
index 602b317..be7b1da 100644
--- a/include/ccmath/math/misc/impl/gamma_data.hpp
+++ b/include/ccmath/math/misc/impl/gamma_data.hpp
@@ -17,11 +17,13 @@
 
 namespace ccm::internal::impl::data
 {
-	// Polynomial approximating tgamma(d + 2.875) on [-0.5, 0.5] generated by
-	// Sollya with: P = fpminimax(tgamma(x + 2.875), [|0,1,2,3,4,5,6,7|], [|D...|], [-0.5, 0.5])
+	// Polynomial approximating tgamma(d + 2.875) on [-0.5, 0.5]: interpolation at the Chebyshev nodes,
+	// computed with 200 bits; relative error below 2^-53.
 
-	inline constexpr double k_gamma_coeffs[8] = { 0x1.c9a76b7de6f60p+0, 0x1.8f2754874fe83p+0, 0x1.0d11cba0c229fp+0, 0x1.e1f47c012064dp-2,
-												  0x1.828b9f2afb74fp-3, 0x1.e1cc49d830795p-5, 0x1.2c9af3e686836p-6, 0x1.1bf60c7e311f6p-8 };
+	inline constexpr double k_gamma_coeffs[17] = { 0x1.c9a76be577123p+0,  0x1.8f2754ddcf90cp+0,	0x1.0d1191949418ap+0,  0x1.e1f42cf0ae608p-2, 0x1.82b358a3ae653p-3,
+												   0x1.e1f2b30cba64ep-5,  0x1.240f6d3d5cf31p-6,	0x1.1522ca063359cp-8,  0x1.1fd0083043ed7p-10, 0x1.980892120ee7bp-13,
+												   0x1.b3f43523fa6a5p-15, 0x1.49d7459f5ddb5p-18, 0x1.481d50ed2ea35p-19, -0x1.3b8ea7caf53b7p-23,
+												   0x1.602dfd646894ep-23, -0x1.91330b18c3bf3p-25, 0x1.42df98f72c7b4p-26 };
 
 	inline constexpr double k_gamma_base = 0x1.7p+1;
 
diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..2fca4a4 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -44,25 +44,20 @@ namespace ccm::internal::impl
 
 		constexpr double gamma_polynomial(double d) noexcept
 		{
-			const double d2	 = d * d;
-			const double d4	 = d2 * d2;
-			const double p01 = ccm::support::multiply_add(d, data::k_gamma_coeffs[1], data::k_gamma_coeffs[0]);
-			const double p23 = ccm::support::multiply_add(d, data::k_gamma_coeffs[3], data::k_gamma_coeffs[2]);
-			const double p45 = ccm::support::multiply_add(d, data::k_gamma_coeffs[5], data::k_gamma_coeffs[4]);
-			const double p67 = ccm::support::multiply_add(d, data::k_gamma_coeffs[7], data::k_gamma_coeffs[6]);
-			const double p03 = ccm::support::multiply_add(d2, p23, p01);
-			const double p47 = ccm::support::multiply_add(d2, p67, p45);
-			return ccm::support::multiply_add(d4, p47, p03);
+			double p = data::k_gamma_coeffs[16];
+			for (int i = 15; i >= 0; --i) { p = ccm::support::multiply_add(p, d, data::k_gamma_coeffs[i]); }
+			return p;
 		}
 
-		constexpr double gamma_reduce(double xd, double &w_out) noexcept
+		// tgamma(xd) from tgamma on [2.375, 3.375] by recurrence; |xd| stays below 185.
+		constexpr double gamma_reduce(double xd) noexcept
 		{
 			const double m	  = xd - data::k_gamma_base;
 			const double i	  = ccm::support::fp::nearest_integer(m);
 			const double step = fp_bits(i).is_neg() ? -1.0 : 1.0;
 			const auto jm	  = static_cast<std::int32_t>(i < 0.0 ? -i : i);
-			const double d	  = m - i;
-			const double f	  = gamma_polynomial(d);
+			const double d	  = (xd - i) - data::k_gamma_base; // m itself is rounded
+			double f		  = gamma_polynomial(d);
 
 			double z = xd;
 			double w = 1.0;
@@ -73,13 +68,16 @@ namespace ccm::internal::impl
 				for (std::int32_t j = jm - 1; j != 0; --j)
 				{
 					z -= step;
+					// Divide in two steps when the product would leave the range (large negative arguments).
+					if (step < 0.0 && (w > 0x1p960 || w < -0x1p960))
+					{
+						f /= w;
+						w = 1.0;
+					}
 					w *= z;
 				}
 			}
-			if (i <= -0.5) { w = 1.0 / w; }
-
-			w_out = w;
-			return f;
+			return i <= -0.5 ? f / w : f * w;
 		}
 
 		constexpr double positive_factorial(std::int32_t k) noexcept
@@ -144,19 +142,26 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
+			const auto k = static_cast<std::int32_t>(x);
 			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
 		}
 
-		double w{};
-		const double f		= detail::gamma_reduce(x, w);
-		const double result = f * w;
+		// |tgamma(x)| is below half the smallest subnormal; the sign is that of (-1)^floor(x).
+		if (CCM_UNLIKELY(x <= -184.0))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			const double half = ccm::floor(x) * 0.5;
+			return half == ccm::floor(half) ? 0.0 : -0.0;
+		}
+
+		const double result = detail::gamma_reduce(x);
 		if (CCM_UNLIKELY(fp_bits(result).is_inf()))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
diff --git a/include/ccmath/math/misc/impl/gamma_float_impl.hpp b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
index aa8c631..45ca5a9 100644
--- a/include/ccmath/math/misc/impl/gamma_float_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
@@ -19,7 +19,6 @@
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/math/misc/impl/gamma_double_impl.hpp"
-#include "ccmath/math/nearest/floor.hpp"
 
 #include <cfenv>
 
@@ -53,7 +52,7 @@ namespace ccm::internal::impl
 			return fp_bits::inf(xbits.sign()).get_val();
 		}
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 34.8F))
+		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 36.0F))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
@@ -62,15 +61,16 @@ namespace ccm::internal::impl
 
 		const double result = gamma_double_impl(static_cast<double>(x));
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && ccm::support::fp::FPBits<double>(result).is_inf())) { return fp_bits::max_normal().get_val(); }
-
-		if (CCM_UNLIKELY(xbits.is_neg() && result != 0.0 && fp_bits(static_cast<float>(result)).is_zero()))
+		// The first double that rounds to a float infinity.
+		if (CCM_UNLIKELY(result >= 0x1.ffffffp127 || result <= -0x1.ffffffp127))
 		{
+			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
-			const bool odd = static_cast<std::int32_t>(ccm::floor(static_cast<double>(x))) & 1;
-			return odd ? -0.0F : 0.0F;
+			return fp_bits::inf(xbits.sign()).get_val();
 		}
 
-		return static_cast<float>(result);
+		const float rounded = static_cast<float>(result);
+		if (CCM_UNLIKELY(rounded == 0.0F)) { ccm::support::fenv::set_errno_if_required(ERANGE); }
+		return rounded;
 	}
 } // namespace ccm::internal::impl
diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..25885d5 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -18,11 +18,11 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/support/fp/nearest_integer.hpp"
 #include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/expo/log.hpp"
 #include "ccmath/math/misc/impl/gamma_data.hpp"
 #include "ccmath/math/misc/impl/gamma_double_impl.hpp"
-#include "ccmath/math/nearest/floor.hpp"
 #include "ccmath/math/numbers.hpp"
 #include "ccmath/math/trig/sin.hpp"
 
@@ -41,16 +41,22 @@ namespace ccm::internal::impl
 		{
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
-			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
+			// Coefficients B_2n / (2n (2n - 1)); for x >= 8 the first omitted term is below 2^-53 of the result.
+			double corr = -0x1.e4286cb0f5398p-6;
+			corr		= corr * inv_x2 + 0x1.a41a41a41a41ap-8;
+			corr		= corr * inv_x2 - 0x1.f6ab0d9993c7dp-10;
+			corr		= corr * inv_x2 + 0x1.b951e2b18ff23p-11;
+			corr		= corr * inv_x2 - 0x1.3813813813814p-11;
+			corr		= corr * inv_x2 + 0x1.a01a01a01a01ap-11;
+			corr		= corr * inv_x2 - 0x1.6c16c16c16c17p-9;
+			corr		= corr * inv_x2 + 0x1.5555555555555p-4;
+			// (x - 1/2) log(x) - x + log(2 pi)/2, arranged so that it overflows only with the result.
+			constexpr double half_log_2pi_minus_half = 0x1.acfe390c97d69p-2;
+			return (x - 0.5) * (ccm::log(x) - 1.0) + half_log_2pi_minus_half + corr * inv_x;
 		}
 
 		constexpr double log_gamma_reduce(double xd) noexcept
-		{
-			double w{};
-			const double f = detail::gamma_reduce(xd, w);
-			return ccm::log(f) + log_abs(w);
-		}
+		{ return log_abs(detail::gamma_reduce(xd)); }
 
 		constexpr double positive_lfactorial(std::int32_t k) noexcept
 		{
@@ -79,11 +85,6 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(xbits.is_inf()))
 		{
-			if (xbits.is_neg())
-			{
-				ccm::support::fenv::raise_except_if_required(FE_INVALID);
-				ccm::support::fenv::set_errno_if_required(EDOM);
-			}
 			return fp_bits::inf().get_val();
 		}
 
@@ -98,27 +99,46 @@ namespace ccm::internal::impl
 		{
 			if (x <= 0.0)
 			{
-				ccm::support::fenv::raise_except_if_required(FE_INVALID);
-				ccm::support::fenv::set_errno_if_required(EDOM);
+				ccm::support::fenv::raise_except_if_required(FE_DIVBYZERO);
+				ccm::support::fenv::set_errno_if_required(ERANGE);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
 
+		if (CCM_UNLIKELY(x > 0x1.754d9278b51a7p+1014))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			return fp_bits::inf().get_val();
+		}
+
 		if (CCM_UNLIKELY(x >= 8.0)) { return lgamma_detail::stirling(x); }
 
-		if (CCM_UNLIKELY(x < 0.0))
+		// Below -20 no double is close enough to a pole to bring lgamma near zero.
+		if (CCM_UNLIKELY(x < -20.0))
 		{
-			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * x)) -
-				   lgamma_double_impl(-x);
+			// Reflection; sin(pi x) depends only on the distance to the nearest integer, which is exact.
+			const double s = ccm::sin(ccm::numbers::pi_v<double> * (x - ccm::support::fp::nearest_integer(x)));
+			return lgamma_detail::log_abs(ccm::numbers::pi_v<double> / (x * s)) - lgamma_double_impl(-x);
 		}
 
 		return lgamma_detail::log_gamma_reduce(x);
 	}
 
 	constexpr float lgamma_float_impl(float x) noexcept
-	{ return static_cast<float>(lgamma_double_impl(static_cast<double>(x))); }
+	{
+		const double result = lgamma_double_impl(static_cast<double>(x));
+
+		// The first double that rounds to a float infinity.
+		if (CCM_UNLIKELY(result >= 0x1.ffffffp127 && !lgamma_detail::fp_bits(result).is_inf()))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			return ccm::support::fp::FPBits<float>::inf().get_val();
+		}
+		return static_cast<float>(result);
+	}
 } // namespace ccm::internal::impl
-- 
2.43.0


From 2d5fa6c87812b20f2dad88201d265c197d4a1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 19/62] fix: internal_ldexp rounds in the mode in force at run
 time (C05, C09)

---
 .../support/helpers/internal_ldexp.hpp        | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/support/helpers/internal_ldexp.hpp b/include/ccmath/internal/support/helpers/internal_ldexp.hpp
index 018eeb5..4b93c4f 100644
--- a/include/ccmath/internal/support/helpers/internal_ldexp.hpp
+++ b/include/ccmath/internal/support/helpers/internal_ldexp.hpp
@@ -19,6 +19,7 @@
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fenv/rounding_mode.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/support/is_constant_evaluated.hpp"
 #include "ccmath/internal/types/normalized_float.hpp"
 
 #include <cfenv>
@@ -37,8 +38,8 @@ namespace ccm::support::helpers
 		// Make sure that we can safely cast exp to int when not returning early.
 		if (CCM_UNLIKELY(exp > exponent_limit))
 		{
-			int const rounding_mode = fenv::get_rounding_mode();
-			types::Sign sign		= bits.sign();
+			int rounding_mode = fenv::get_rounding_mode(); // not const: that would make it the mode of constant evaluation
+			types::Sign sign  = bits.sign();
 
 			if ((sign == types::Sign::POS && rounding_mode == FE_DOWNWARD) || (sign == types::Sign::NEG && rounding_mode == FE_UPWARD) ||
 				(rounding_mode == FE_TOWARDZERO))
@@ -54,8 +55,8 @@ namespace ccm::support::helpers
 		// Similarly, on the negative side, we return zero early if |exp| is too small.
 		if (CCM_UNLIKELY(exp < -exponent_limit))
 		{
-			int const rounding_mode = fenv::get_rounding_mode();
-			types::Sign sign		= bits.sign();
+			int rounding_mode = fenv::get_rounding_mode(); // not const: that would make it the mode of constant evaluation
+			types::Sign sign  = bits.sign();
 
 			if ((sign == types::Sign::POS && rounding_mode == FE_UPWARD) || (sign == types::Sign::NEG && rounding_mode == FE_DOWNWARD))
 			{
@@ -69,6 +70,33 @@ namespace ccm::support::helpers
 
 		types::NormalizedFloat<T> normal(bits.get_val());
 		normal.exponent += static_cast<int>(exp);
+
+		// Outside the normal range the conversion below only knows round to nearest. At run time move the significand to
+		// the edge of the range and scale it by a power of two, so that the hardware rounds once, in the mode in force.
+		if (!is_constant_evaluated())
+		{
+			using Normalized		   = types::NormalizedFloat<T>;
+			constexpr int max_exponent = fp::FPBits<T>::exponent_bias;
+			constexpr int min_exponent = 1 - max_exponent;
+			if (normal.exponent > max_exponent)
+			{
+				normal.exponent = max_exponent;
+				const T scaled	= static_cast<T>(normal) * static_cast<T>(2);
+				if (fp::FPBits<T>(scaled).is_inf()) { fenv::set_errno_if_required(ERANGE); }
+				return scaled;
+			}
+			if (normal.exponent < min_exponent)
+			{
+				constexpr int all_bits_out = fp::FPBits<T>::fraction_length + 3;
+				int const shift			   = min_exponent - normal.exponent;
+				normal.exponent			   = min_exponent;
+				const Normalized factor(types::Sign::POS, shift > all_bits_out ? -all_bits_out : -shift, Normalized::ONE);
+				const T scaled = static_cast<T>(normal) * static_cast<T>(factor);
+				if (fp::FPBits<T>(scaled).is_zero()) { fenv::set_errno_if_required(ERANGE); }
+				return scaled;
+			}
+		}
+
 		const T result = static_cast<T>(normal);
 		if (exp < 0 && fp::FPBits<T>(result).is_zero())
 		{
-- 
2.43.0


From bacd23965e46b5cd387ae52f74e5781918da1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 20/62] fix: no spurious exceptions for NaN in log, log10,
 powf, lgammaf, nor near the range ends in pow and powl (C17)

---
 .../internal/math/generic/func/power/pow_impl/pow_impl.hpp  | 5 +++++
 .../internal/math/generic/func/power/pow_impl/powf_impl.hpp | 1 +
 .../ccmath/internal/math/generic/func/power/powl_gen.hpp    | 5 +++--
 include/ccmath/math/expo/log.hpp                            | 6 +++---
 include/ccmath/math/expo/log10.hpp                          | 2 +-
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp        | 1 +
 6 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
index 785851e..2562a7a 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
@@ -165,6 +165,11 @@ namespace ccm::gen::impl
 					x *= 0x1.0p106;
 					mult = 0x1.0p-53;
 				}
+				else if (x > 0x1.0p1000) // keep s0^2 and its error term in range when s0 is rounded up
+				{
+					x *= 0x1.0p-106;
+					mult = 0x1.0p53;
+				}
 				const double s0		  = ccm::gen::sqrt_gen<double>(x);
 				const DoubleDouble sq = two_prod(s0, s0);
 				const double e		  = (x - sq.hi) - sq.lo; // x - s0^2 (exact)
diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
index dcdfdc4..445a520 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
@@ -204,6 +204,7 @@ namespace ccm::gen::impl
 					{
 					case 0x3f00'0000: // y = 0.5f
 						if (CCM_UNLIKELY(x == 0.0F || x_u == 0xff80'0000)) { return x * x; }
+						if (CCM_UNLIKELY(x_abs > 0x7f80'0000U)) { return x; } // NaN: the comparison below would raise FE_INVALID
 						if (x < 0.0F)
 						{
 							support::fenv::set_errno_if_required(EDOM);
diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index f4954d5..2441fd2 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -238,10 +238,11 @@ namespace ccm::gen
 				// 1 / (p.hi + p.lo) refined to long double precision via one Newton step.
 				constexpr long double reciprocal(const Pair & p) noexcept
 				{
+					if (p.hi == 0.0L) { return std::numeric_limits<long double>::infinity(); } // underflowed, not a pole: raise nothing
 					const long double r0 = 1.0L / p.hi;
 					if (r0 == 0.0L || ccm::isinf(r0) || ccm::isnan(r0)) { return r0; }
-					// p.hi near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
-					if (abs_ld(p.hi) >= kSplitSafe) { return r0; }
+					// p.hi or r0 near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
+					if (abs_ld(p.hi) >= kSplitSafe || abs_ld(r0) >= kSplitSafe) { return r0; }
 					const Pair pr		  = bit80::powl_ld80_detail::exact_mult(p.hi, r0);
 					const long double res = ((1.0L - pr.hi) - pr.lo) - p.lo * r0;
 					return r0 + r0 * res;
diff --git a/include/ccmath/math/expo/log.hpp b/include/ccmath/math/expo/log.hpp
index 5fe4398..4d9dd99 100644
--- a/include/ccmath/math/expo/log.hpp
+++ b/include/ccmath/math/expo/log.hpp
@@ -58,6 +58,9 @@ namespace ccm
 				return -std::numeric_limits<T>::infinity();
 			}
 
+			// If the argument is NaN, NaN is returned.
+			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
+
 			// If the argument is negative, -NaN is returned.
 			if (num < static_cast<T>(0))
 			{
@@ -69,9 +72,6 @@ namespace ccm
 			// If the argument is +∞, +∞ is returned.
 			if (CCM_UNLIKELY(num == std::numeric_limits<T>::infinity())) { return std::numeric_limits<T>::infinity(); }
 
-			// If the argument is NaN, NaN is returned.
-			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
-
 			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::log_rt(num); }
 
 			return gen::log_gen(num);
diff --git a/include/ccmath/math/expo/log10.hpp b/include/ccmath/math/expo/log10.hpp
index 3690111..b63063e 100644
--- a/include/ccmath/math/expo/log10.hpp
+++ b/include/ccmath/math/expo/log10.hpp
@@ -60,6 +60,7 @@ namespace ccm
 				ccm::support::fenv::raise_except_if_required(FE_DIVBYZERO);
 				return -std::numeric_limits<T>::infinity();
 			}
+			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
 			if (num < static_cast<T>(0))
 			{
 				ccm::support::fenv::set_errno_if_required(EDOM);
@@ -67,7 +68,6 @@ namespace ccm
 				return -std::numeric_limits<T>::quiet_NaN();
 			}
 			if (CCM_UNLIKELY(num == std::numeric_limits<T>::infinity())) { return std::numeric_limits<T>::infinity(); }
-			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
 
 			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::log10_rt(num); }
 
diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 25885d5..e011522 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -131,6 +131,7 @@ namespace ccm::internal::impl
 	constexpr float lgamma_float_impl(float x) noexcept
 	{
 		const double result = lgamma_double_impl(static_cast<double>(x));
+		if (CCM_UNLIKELY(lgamma_detail::fp_bits(result).is_nan())) { return static_cast<float>(result); }
 
 		// The first double that rounds to a float infinity.
 		if (CCM_UNLIKELY(result >= 0x1.ffffffp127 && !lgamma_detail::fp_bits(result).is_inf()))
-- 
2.43.0


From be8f7cecd8e44c279a79a3dfa425febb93ef87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 21/62] fix: vectorised pow raises no FE_INVALID for a NaN
 exponent (C17)

---
 .../math/generic/func/power/pow_impl/pow_simd_impl.hpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index 61327ef..7ac1d9a 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -164,7 +164,8 @@ namespace ccm::gen::impl
 			// zero exponent, base one, non-finite operands, zero, negative, or subnormal
 			// bases, integer and half-integer exponents (the exact ipow / sqrt paths), and
 			// huge exponents that take the clamped over/underflow route.
-			const DVec two_y	   = y * DVec(2.0);
+			// Exponents diverted for their size anyway (NaN included) stay out of the signaling comparison below.
+			const DVec two_y	   = pp::simd_select(y_abs > U64(0x43d7'4910'd52d'3052ULL), DVec(0.0), y) * DVec(2.0);
 			const auto is_half_int = (sd::v_nearest_integer(two_y) == two_y) & (pp::abs(two_y) <= DVec(2048.0));
 
 			auto special = (y_abs == U64(0)) | (xu == U64(0x3ff0'0000'0000'0000ULL)) | (x_abs >= U64(0x7ff0'0000'0000'0000ULL)) |
-- 
2.43.0


From 13b5ad99814b308f72c68d70c73215c18a5bc58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 22/62] fix: lerp from zero stays a number when 1 - t overflows
 upward (C24)

---
 include/ccmath/math/misc/lerp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/lerp.hpp b/include/ccmath/math/misc/lerp.hpp
index 5f0773f..ea26796 100644
--- a/include/ccmath/math/misc/lerp.hpp
+++ b/include/ccmath/math/misc/lerp.hpp
@@ -29,7 +29,7 @@ namespace ccm
 	{
 		if (ccm::isnan(a) || ccm::isnan(b) || ccm::isnan(t)) { return a + b + t; }
 
-		if ((a <= 0 && b >= 0) || (a >= 0 && b <= 0)) { return t * b + (1 - t) * a; }
+		if ((a <= 0 && b >= 0) || (a >= 0 && b <= 0)) { return t * b + (a == 0 ? a : (1 - t) * a); }
 
 		if (t == 1) { return b; }
 
-- 
2.43.0


From 008e2b3a302b47a7325381366175e9d969a685dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 23/62] fix: comparisons of integers no longer recurse without
 end; mixed operands compare as double (C25)

---
 include/ccmath/math/compare/isgreater.hpp      | 7 ++++---
 include/ccmath/math/compare/isgreaterequal.hpp | 7 ++++---
 include/ccmath/math/compare/isless.hpp         | 7 ++++---
 include/ccmath/math/compare/islessequal.hpp    | 7 ++++---
 include/ccmath/math/compare/islessgreater.hpp  | 6 ++++--
 5 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/ccmath/math/compare/isgreater.hpp b/include/ccmath/math/compare/isgreater.hpp
index 6daf632..bb97fe3 100644
--- a/include/ccmath/math/compare/isgreater.hpp
+++ b/include/ccmath/math/compare/isgreater.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double ([c.math])
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isgreaterequal.hpp b/include/ccmath/math/compare/isgreaterequal.hpp
index c2d8a3c..9e1c35b 100644
--- a/include/ccmath/math/compare/isgreaterequal.hpp
+++ b/include/ccmath/math/compare/isgreaterequal.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreaterequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double ([c.math])
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isless.hpp b/include/ccmath/math/compare/isless.hpp
index 91972a5..af9f3e7 100644
--- a/include/ccmath/math/compare/isless.hpp
+++ b/include/ccmath/math/compare/isless.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isless(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double ([c.math])
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessequal.hpp b/include/ccmath/math/compare/islessequal.hpp
index fe2df04..ec3ca4a 100644
--- a/include/ccmath/math/compare/islessequal.hpp
+++ b/include/ccmath/math/compare/islessequal.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Integers are compared as double ([c.math])
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessgreater.hpp b/include/ccmath/math/compare/islessgreater.hpp
index 97b092b..c818843 100644
--- a/include/ccmath/math/compare/islessgreater.hpp
+++ b/include/ccmath/math/compare/islessgreater.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
-		return static_cast<shared_type>(islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		// Integers are compared as double ([c.math])
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
-- 
2.43.0


From b522c8c8202097f2339e6213c53fd30bc34acc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 24/62] fix: remquo of integers no longer recurses without end
 (C25)

---
 include/ccmath/math/basic/remquo.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index d9bbb32..38612e8 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -87,9 +87,10 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
-	constexpr std::common_type_t<Arithmetic1, Arithmetic2> remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
+	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From 69fc6601c5787f54215917fb21cc77cd34c785cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 25/62] fix: three-argument hypot accepts integers (C25)

---
 include/ccmath/math/power/hypot.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 37b6938..4940382 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -75,7 +75,9 @@ namespace ccm
 			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && std::is_arithmetic_v<Arithmetic3>, bool> = true>
 	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y, Arithmetic3 z) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>,
+											   std::conditional_t<std::is_integral_v<Arithmetic3>, double, Arithmetic3>>;
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From 61eb43ae0c88e33c94818099bbea061229b573a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 26/62] fix: fmod accepts operands of two types (C25)

---
 include/ccmath/math/basic/fmod.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 8966f81..0423bb5 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -29,7 +29,9 @@ namespace ccm
 			return ccm::gen::fmod_gen(x, y);
 		}
 
-		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
+		template <typename T,
+				  typename U,
+				  typename TC = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>>
 		constexpr TC fmod_impl_type_check(T x, U y) noexcept
 		{ return fmod_impl_check(static_cast<TC>(x), static_cast<TC>(y)); }
 	} // namespace internal::impl
@@ -69,8 +71,8 @@ namespace ccm
 	 * @return The floating-point remainder of the division operation x/y.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmod
 	 */
-	template <typename T, typename U>
-	constexpr auto fmod(T x, T y)
+	template <typename T, typename U, std::enable_if_t<!std::is_same_v<T, U>, bool> = true>
+	constexpr auto fmod(T x, U y)
 	{ return internal::impl::fmod_impl_type_check(x, y); }
 
 	/**
-- 
2.43.0


From 9771791ee9a794ae11e8dce1a077ee1e897e9bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 27/62] fix: fmax of two integers is not ambiguous (C25)

---
 include/ccmath/math/basic/max.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index fbf9c72..4f16591 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -72,7 +72,7 @@ namespace ccm
 	 * @return If successful, returns the larger of two floating point values. The value returned is exact and does not depend on any rounding modes.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmax
 	 */
-	template <typename T>
+	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T fmax(T x, T y) noexcept
 	{ return max<T>(x, y); }
 
-- 
2.43.0


From cf2242d1b7d3d272c473cf471878f728c5fd4a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 28/62] fix: min of two types returns their common type

The mixed overload declared T as its result, so min(2, 1.5) was converted back to int.
---
 include/ccmath/math/basic/min.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 0a337d8..54f2e14 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -54,7 +54,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename T, typename U>
-	constexpr T min(const T x, const U y) noexcept
+	constexpr auto min(const T x, const U y) noexcept
 	{
 		// Find the common type of the two arguments
 		using shared_type = std::common_type_t<T, U>;
-- 
2.43.0


From 97b2608ae1931c8ff90838cb2eccffb3c52e57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 29/62] fix: NaN arguments are accepted in constant expressions

---
 .../internal/math/generic/func/power/impl/hypot_impl.hpp   | 4 ++--
 include/ccmath/math/basic/impl/remquo_double_impl.hpp      | 4 ++++
 include/ccmath/math/basic/impl/remquo_float_impl.hpp       | 4 ++++
 include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp     | 7 +++++--
 include/ccmath/math/expo/impl/exp2_double_impl.hpp         | 2 +-
 include/ccmath/math/expo/impl/exp2_float_impl.hpp          | 2 +-
 include/ccmath/math/expo/impl/exp_double_impl.hpp          | 2 +-
 include/ccmath/math/expo/impl/exp_float_impl.hpp           | 4 ++--
 include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp     | 3 +++
 include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp      | 3 +++
 include/ccmath/math/trig/impl/inv_trig_impl.hpp            | 2 +-
 include/ccmath/math/trig/impl/sincos_double_impl.hpp       | 3 ++-
 include/ccmath/math/trig/impl/sincos_float_impl.hpp        | 3 ++-
 13 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/impl/hypot_impl.hpp b/include/ccmath/internal/math/generic/func/power/impl/hypot_impl.hpp
index e2cab09..d59fe01 100644
--- a/include/ccmath/internal/math/generic/func/power/impl/hypot_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/impl/hypot_impl.hpp
@@ -28,8 +28,8 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(ccm::isinf(x) || ccm::isinf(y))) { return fp_bits_t::inf().get_val(); }
 
-		if (CCM_UNLIKELY(ccm::isnan(x))) { return x + y; }
-		if (CCM_UNLIKELY(ccm::isnan(y))) { return x + y; }
+		if (CCM_UNLIKELY(ccm::isnan(x))) { return x; }
+		if (CCM_UNLIKELY(ccm::isnan(y))) { return y; }
 
 		x = ccm::fabs(x);
 		y = ccm::fabs(y);
diff --git a/include/ccmath/math/basic/impl/remquo_double_impl.hpp b/include/ccmath/math/basic/impl/remquo_double_impl.hpp
index 3ec1764..748c1a5 100644
--- a/include/ccmath/math/basic/impl/remquo_double_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_double_impl.hpp
@@ -16,6 +16,7 @@
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/basic/fmod.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <cstdint>
 
@@ -41,6 +42,9 @@ namespace ccm::internal
 			x_i64 &= 0x7fffffffffffffffULL;
 			y_i64 &= 0x7fffffffffffffffULL;
 
+			if (ccm::isnan(x)) { return x; }
+			if (ccm::isnan(y)) { return y; }
+
 			// If y is zero.
 			if (CCM_UNLIKELY(y_i64 == 0)) { return (x * y) / (x * y); }
 
diff --git a/include/ccmath/math/basic/impl/remquo_float_impl.hpp b/include/ccmath/math/basic/impl/remquo_float_impl.hpp
index 1f2e909..d3fe30b 100644
--- a/include/ccmath/math/basic/impl/remquo_float_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_float_impl.hpp
@@ -14,6 +14,7 @@
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/math/basic/fabs.hpp"
 #include "ccmath/math/basic/fmod.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <cstdint>
 #include <limits>
@@ -40,6 +41,9 @@ namespace ccm::internal
 			x_i32 &= 0x7fffffff;
 			y_i32 &= 0x7fffffff;
 
+			if (ccm::isnan(x)) { return x; }
+			if (ccm::isnan(y)) { return y; }
+
 			// If y is zero.
 			if (CCM_UNLIKELY(y_i32 == 0)) { return (x * y) / (x * y); }
 
diff --git a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
index 1dd50a7..d030e80 100644
--- a/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
+++ b/include/ccmath/math/basic/impl/remquo_ldouble_impl.hpp
@@ -31,8 +31,11 @@ namespace ccm::internal
 			const bool quotient_is_neg = x_is_neg != ccm::signbit(y);
 			int computed_quotient{};
 
-			// If y is zero, x is not finite or y is NaN.
-			if (CCM_UNLIKELY(y == 0.0L || !ccm::isfinite(x) || ccm::isnan(y))) { return (x * y) / (x * y); }
+			if (ccm::isnan(x)) { return x; }
+			if (ccm::isnan(y)) { return y; }
+
+			// If y is zero or x is not finite.
+			if (CCM_UNLIKELY(y == 0.0L || !ccm::isfinite(x))) { return (x * y) / (x * y); }
 
 			x = ccm::fabs(x);
 			y = ccm::fabs(y);
diff --git a/include/ccmath/math/expo/impl/exp2_double_impl.hpp b/include/ccmath/math/expo/impl/exp2_double_impl.hpp
index e9eb5be..8fb8862 100644
--- a/include/ccmath/math/expo/impl/exp2_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp2_double_impl.hpp
@@ -96,7 +96,7 @@ namespace ccm::internal
 				{
 					if (sp::double_to_uint64(x) == sp::double_to_uint64(-std::numeric_limits<double>::infinity())) { return 0.0; }
 
-					if (abs_top >= sp::top12_bits_of_double(std::numeric_limits<double>::infinity())) { return x + 1.0; }
+					if (abs_top >= sp::top12_bits_of_double(std::numeric_limits<double>::infinity())) { return x; }
 
 					// Handle overflow
 					if ((sp::double_to_uint64(x) >> 63) == 0U) { return 0x1p769 * 0x1p769; }
diff --git a/include/ccmath/math/expo/impl/exp2_float_impl.hpp b/include/ccmath/math/expo/impl/exp2_float_impl.hpp
index 0ecbccc..9f9f229 100644
--- a/include/ccmath/math/expo/impl/exp2_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp2_float_impl.hpp
@@ -88,7 +88,7 @@ namespace ccm::internal
 
 				// Use floating-point classification instead of raw unsigned bit comparisons so
 				// large negative finite inputs do not alias the NaN/Inf branch.
-				if (x_bits.is_nan()) { return x + x; }
+				if (x_bits.is_nan()) { return x; }
 
 				// Handle overflow
 				if (x > 0.0F) { return exp2_float_overflow_result(); }
diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 72fa3a9..b15dfef 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -98,7 +98,7 @@ namespace ccm::internal::impl
 			{
 				if (support::double_to_uint64(x) == support::double_to_uint64(-std::numeric_limits<double>::infinity())) { return 0.0; }
 
-				if (abs_top >= support::top12_bits_of_double(std::numeric_limits<double>::infinity())) { return 1.0 + x; }
+				if (abs_top >= support::top12_bits_of_double(std::numeric_limits<double>::infinity())) { return x; }
 
 				// Handle underflow
 				if ((support::double_to_uint64(x) >> 63) != 0U) { return 0x1p-767 * 0x1p-767; }
diff --git a/include/ccmath/math/expo/impl/exp_float_impl.hpp b/include/ccmath/math/expo/impl/exp_float_impl.hpp
index 2feb0cf..0d4e9b3 100644
--- a/include/ccmath/math/expo/impl/exp_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_float_impl.hpp
@@ -53,7 +53,7 @@ namespace ccm::internal::impl
 			// |x| >= 88 or x is nan.
 			if (support::float_to_uint32(x) == support::float_to_uint32(-std::numeric_limits<float>::infinity())) { return 0.0F; }
 
-			if (abs_top >= support::top12_bits_of_float(std::numeric_limits<float>::infinity())) { return x + x; }
+			if (abs_top >= support::top12_bits_of_float(std::numeric_limits<float>::infinity())) { return x; }
 
 			// Handle overflow
 			if (x > 0x1.62e42ep6F) // x > log(0x1p128) ~= 88.72
@@ -119,7 +119,7 @@ namespace ccm::internal::impl
 		{
 			if (support::float_to_uint32(x) == support::float_to_uint32(-std::numeric_limits<float>::infinity())) { return -1.0F; }
 
-			if (abs_top >= support::top12_bits_of_float(std::numeric_limits<float>::infinity())) { return x + x; }
+			if (abs_top >= support::top12_bits_of_float(std::numeric_limits<float>::infinity())) { return x; }
 
 			if (x > 0x1.62e42ep6F) { return 0x1p97F * 0x1p97F; }
 
diff --git a/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp
index bfed0ed..0d9ff5a 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_double_impl.hpp
@@ -14,6 +14,7 @@
 #include "ccmath/internal/types/fp_types.hpp"
 #include "ccmath/math/basic/max.hpp"
 #include "ccmath/math/basic/min.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <climits>
 #include <cstdint>
@@ -24,6 +25,8 @@ namespace ccm::internal
 	{
 		constexpr double scalbn_double_impl(double arg, int exp) noexcept
 		{
+			if (ccm::isnan(arg)) { return arg; }
+
 			ccm::double_t tmp = arg;
 
 			if (exp > 1023)
diff --git a/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp
index 5d23421..2eb9bf9 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_float_impl.hpp
@@ -15,6 +15,7 @@
 #include "ccmath/internal/types/fp_types.hpp"
 #include "ccmath/math/basic/max.hpp"
 #include "ccmath/math/basic/min.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <climits>
 #include <cstdint>
@@ -26,6 +27,8 @@ namespace ccm::internal
 	{
 		constexpr float scalbn_float_impl(float arg, int exp) noexcept
 		{
+			if (ccm::isnan(arg)) { return arg; }
+
 			ccm::float_t tmp = arg;
 
 			if (exp > 127)
diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index a6a82f3..cbd84ed 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -220,7 +220,7 @@ namespace ccm::internal::impl
 	{
 		using fp_bits_t = ccm::support::fp::FPBits<T>;
 
-		if (CCM_UNLIKELY(ccm::isnan(y) || ccm::isnan(x))) { return y + x; }
+		if (CCM_UNLIKELY(ccm::isnan(y) || ccm::isnan(x))) { return ccm::isnan(y) ? y : x; }
 
 		if (CCM_UNLIKELY(ccm::isinf(x)))
 		{
diff --git a/include/ccmath/math/trig/impl/sincos_double_impl.hpp b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
index 661d38f..c0b80e5 100644
--- a/include/ccmath/math/trig/impl/sincos_double_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
@@ -71,8 +71,9 @@ namespace ccm::internal::impl
 					{
 						support::fenv::set_errno_if_required(EDOM);
 						support::fenv::raise_except_if_required(FE_INVALID);
+						return FPBits::quiet_nan().get_val();
 					}
-					return x + FPBits::quiet_nan().get_val();
+					return x;
 				}
 
 				k = sincos_ph::payne_hanek_reduce(x, y);
diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 83a826d..6a3b725 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -72,8 +72,9 @@ namespace ccm::internal::impl
 					{
 						support::fenv::set_errno_if_required(EDOM);
 						support::fenv::raise_except_if_required(FE_INVALID);
+						return FPBits::quiet_nan().get_val();
 					}
-					return x + FPBits::quiet_nan().get_val();
+					return x;
 				}
 
 				double yd = 0.0;
-- 
2.43.0


From 9948828a85596da40fb0ddf1e89c349bcfbeb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 30/62] fix: atan2 does not overflow on steep quotients (C18,
 C17)

---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index cbd84ed..68f8d2c 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -273,6 +273,13 @@ namespace ccm::internal::impl
 			return y;
 		}
 
+		// The quotient may overflow when the angle is that of the y axis.
+		if (CCM_UNLIKELY(fp_bits_t(y).get_exponent() - fp_bits_t(x).get_exponent() > 64))
+		{
+			const T pi_over_2 = static_cast<T>(ccm::numbers::pi_v<T>) / static_cast<T>(2);
+			return fp_bits_t(y).is_neg() ? -pi_over_2 : pi_over_2;
+		}
+
 		const T ratio = y / x;
 		T angle		  = atan_impl(ratio);
 
-- 
2.43.0


From 70ba1da26bb180bf000108c7d4b23f682340100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 31/62] fix: tan of NaN and three-argument hypot of an infinity
 are constant expressions (C18)

---
 include/ccmath/internal/math/generic/func/trig/tan_gen.hpp | 2 ++
 include/ccmath/math/power/hypot.hpp                        | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/ccmath/internal/math/generic/func/trig/tan_gen.hpp b/include/ccmath/internal/math/generic/func/trig/tan_gen.hpp
index 1116f78..b293103 100644
--- a/include/ccmath/internal/math/generic/func/trig/tan_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/trig/tan_gen.hpp
@@ -24,6 +24,8 @@ namespace ccm::gen
 		const T s = sin_gen(num);
 		const T c = cos_gen(num);
 
+		if (s != s) { return s; } // NaN or infinite argument
+
 		if (c == static_cast<T>(0)) { return std::numeric_limits<T>::quiet_NaN(); }
 
 		return s / c;
diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 4940382..d7f5e85 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -47,6 +47,7 @@ namespace ccm
 		{
 			// A NaN in z must not be lost when hypot(x, y) overflows: only an infinite argument gives infinity.
 			if (ccm::isnan(z) && !ccm::isinf(x) && !ccm::isinf(y)) { return z; }
+			if (ccm::isinf(z)) { return ccm::hypot(z, y); }
 			return ccm::hypot(ccm::hypot(x, y), z);
 		}
 	} // namespace internal
-- 
2.43.0


From 92fdd957f12716ea416e886373ea9882d5bbba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 32/62] fix: exact functions accept infinities, NaN and
 subnormal results in GCC's constant expressions (C18)

---
 .../math/generic/func/basic/fdim_gen.hpp      | 18 ++++-------
 include/ccmath/internal/support/fp/fma.hpp    |  3 +-
 include/ccmath/math/basic/fdim.hpp            |  3 +-
 include/ccmath/math/basic/max.hpp             |  3 +-
 include/ccmath/math/basic/min.hpp             |  3 +-
 include/ccmath/math/fmanip/ldexp.hpp          |  4 ---
 include/ccmath/math/fmanip/nextafter.hpp      |  3 +-
 include/ccmath/math/fmanip/nexttoward.hpp     |  3 +-
 include/ccmath/math/fmanip/scalbn.hpp         | 32 +++++++------------
 include/ccmath/math/power/sqrt.hpp            |  8 ++---
 10 files changed, 28 insertions(+), 52 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index 1156797..44a5014 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -30,17 +30,13 @@ namespace ccm::gen
 	template <typename T>
 	constexpr auto fdim(T x, T y) -> std::enable_if_t<std::is_floating_point_v<T>, T>
 	{
-		if constexpr (builtin::has_constexpr_fdim<T>) { return builtin::fdim_ct(x, y); }
-		else
-		{
-			using FPBits_t = typename ccm::support::fp::FPBits<T>;
-			const FPBits_t x_bits(x);
-			const FPBits_t y_bits(y);
+		using FPBits_t = typename ccm::support::fp::FPBits<T>;
+		const FPBits_t x_bits(x);
+		const FPBits_t y_bits(y);
 
-			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
-			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
-			if (x <= y) { return static_cast<T>(+0.0); }
-			return x - y;
-		}
+		if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
+		if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
+		if (x <= y) { return static_cast<T>(+0.0); }
+		return x - y;
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index acd9977..c4eb010 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -662,7 +662,8 @@ namespace ccm::support::fp
 	{
 		if constexpr (ccm::builtin::has_constexpr_fma<T>)
 		{
-			if (fenv::constant_eval_rounding_mode() == FE_TONEAREST) { return dispatch_fma_constexpr_builtin<T>::tonearest(x, y, z); }
+			// Compilers fold the builtin only for finite arguments and results.
+			if (!is_constant_evaluated() && fenv::constant_eval_rounding_mode() == FE_TONEAREST) { return dispatch_fma_constexpr_builtin<T>::tonearest(x, y, z); }
 		}
 
 		if (!is_constant_evaluated())
diff --git a/include/ccmath/math/basic/fdim.hpp b/include/ccmath/math/basic/fdim.hpp
index d0bcdb9..8e911b2 100644
--- a/include/ccmath/math/basic/fdim.hpp
+++ b/include/ccmath/math/basic/fdim.hpp
@@ -28,8 +28,7 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T fdim(T x, T y)
 	{
-		if constexpr (ccm::builtin::has_constexpr_fdim<T>) { return ccm::builtin::fdim_ct(x, y); }
-		else if (ccm::support::is_constant_evaluated()) { return func::fdim(x, y); }
+		if (ccm::support::is_constant_evaluated()) { return func::fdim(x, y); }
 		else
 		{
 			return ccm::rt::fdim_rt(x, y);
diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index 4f16591..540c612 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -33,8 +33,7 @@ namespace ccm
 	template <typename T>
 	constexpr T max(T x, T y) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_fmax<T>) { return ccm::builtin::fmax_ct(x, y); }
-		else if constexpr (std::is_floating_point_v<T>)
+		if constexpr (std::is_floating_point_v<T>)
 		{
 			if (ccm::support::is_constant_evaluated()) { return ccm::gen::max(x, y); }
 			return ccm::rt::fmax_rt(x, y);
diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 54f2e14..de371cf 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -32,8 +32,7 @@ namespace ccm
 	template <typename T>
 	constexpr T min(const T x, const T y) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_fmin<T>) { return ccm::builtin::fmin_ct(x, y); }
-		else if constexpr (std::is_floating_point_v<T>)
+		if constexpr (std::is_floating_point_v<T>)
 		{
 			if (ccm::support::is_constant_evaluated()) { return ccm::gen::min(x, y); }
 			return ccm::rt::fmin_rt(x, y);
diff --git a/include/ccmath/math/fmanip/ldexp.hpp b/include/ccmath/math/fmanip/ldexp.hpp
index 348b025..deb8930 100644
--- a/include/ccmath/math/fmanip/ldexp.hpp
+++ b/include/ccmath/math/fmanip/ldexp.hpp
@@ -99,10 +99,6 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T ldexp(T num, int exp)
 	{
-		if constexpr (ccm::builtin::has_constexpr_ldexp<T>)
-		{
-			if (ccm::support::is_constant_evaluated()) { return builtin::ldexp_ct(num, exp); }
-		}
 		if (!ccm::support::is_constant_evaluated()) { return ccm::rt::ldexp_rt(num, exp); }
 		return support::helpers::internal_ldexp(num, exp);
 	}
diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 61b46a4..0dc8c89 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -30,8 +30,7 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T nextafter(T from, T to) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_nextafter<T>) { return ccm::builtin::nextafter_ct(from, to); }
-		else if (ccm::support::is_constant_evaluated()) { return gen::nextafter_gen(from, to); }
+		if (ccm::support::is_constant_evaluated()) { return gen::nextafter_gen(from, to); }
 		else
 		{
 			return ccm::rt::nextafter_rt(from, to);
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 5c5e89a..23948a1 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -30,8 +30,7 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T nexttoward(T from, long double to) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_nexttoward<T>) { return ccm::builtin::nexttoward_ct(from, to); }
-		else if (ccm::support::is_constant_evaluated()) { return gen::nextafter_gen(from, to); }
+		if (ccm::support::is_constant_evaluated()) { return gen::nextafter_gen(from, to); }
 		else
 		{
 			return ccm::rt::nexttoward_rt(from, to);
diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 66e725f..38a2726 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -37,16 +37,12 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T scalbn(T num, int exp) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
-		else
-		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, exp); }
-
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
-		}
+		if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, exp); }
+
+		if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
+		if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
+		if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
+		return static_cast<T>(internal::scalbn_ldouble(num, exp));
 	}
 
 	/**
@@ -60,16 +56,12 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T scalbn(T num, long exp) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
-		else
-		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp)); }
-
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
-		}
+		if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp)); }
+
+		if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
+		if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
+		if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
+		return static_cast<T>(internal::scalbn_ldouble(num, exp));
 	}
 
 	/**
diff --git a/include/ccmath/math/power/sqrt.hpp b/include/ccmath/math/power/sqrt.hpp
index 75a4aac..99a71f4 100644
--- a/include/ccmath/math/power/sqrt.hpp
+++ b/include/ccmath/math/power/sqrt.hpp
@@ -30,12 +30,8 @@ namespace ccm
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T sqrt(T num)
 	{
-		if constexpr (ccm::builtin::has_constexpr_sqrt<T>) { return ccm::builtin::sqrt_ct(num); }
-		else
-		{
-			if (ccm::support::is_constant_evaluated()) { return ccm::gen::sqrt_gen<T>(num); }
-			return ccm::rt::sqrt_rt<T>(num);
-		}
+		if (ccm::support::is_constant_evaluated()) { return ccm::gen::sqrt_gen<T>(num); }
+		return ccm::rt::sqrt_rt<T>(num);
 	}
 
 	/**
-- 
2.43.0


From ac0f123d64c49670c17e7daab2b7ce2f5cb4afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 33/62] fix: multiply_add is fused in constant evaluation as it
 is at run time (C18, C19)

---
 .../generic/func/power/pow_impl/pow_impl.hpp   |  1 +
 .../func/power/pow_impl/powl_ld80_kernel.hpp   |  1 +
 .../ccmath/internal/support/helpers/exp10.hpp  |  1 +
 .../ccmath/internal/support/multiply_add.hpp   | 18 +++++++++++++-----
 include/ccmath/internal/support/poly_eval.hpp  |  1 +
 .../math/misc/impl/gamma_double_impl.hpp       |  1 +
 .../ccmath/math/trig/impl/inv_trig_impl.hpp    |  1 +
 .../math/trig/impl/sincos_double_impl.hpp      |  1 +
 .../math/trig/impl/sincos_float_impl.hpp       |  1 +
 .../math/trig/impl/sincos_payne_hanek.hpp      |  1 +
 10 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
index 2562a7a..9ba4dbd 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
@@ -20,6 +20,7 @@
 #include "ccmath/internal/support/fp/nearest_integer.hpp"
 #include "ccmath/internal/support/helpers/internal_ldexp.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 #include "ccmath/internal/support/poly_eval.hpp"
 #include "ccmath/internal/types/big_int.hpp"
diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 1716cb7..3a3d79f 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -19,6 +19,7 @@
 	#include "ccmath/internal/support/fp/nearest_integer.hpp"
 	#include "ccmath/internal/support/helpers/internal_ldexp.hpp"
 	#include "ccmath/internal/support/is_constant_evaluated.hpp"
+	#include "ccmath/internal/support/fp/fma.hpp"
 	#include "ccmath/internal/support/multiply_add.hpp"
 	#include "ccmath/internal/support/poly_eval.hpp"
 	#include "ccmath/internal/types/number_pair.hpp"
diff --git a/include/ccmath/internal/support/helpers/exp10.hpp b/include/ccmath/internal/support/helpers/exp10.hpp
index 5ee1363..c993751 100644
--- a/include/ccmath/internal/support/helpers/exp10.hpp
+++ b/include/ccmath/internal/support/helpers/exp10.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/func/expo/log2_gen.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 #include "ccmath/internal/support/poly_eval.hpp"
 #include "ccmath/internal/types/double_double.hpp"
diff --git a/include/ccmath/internal/support/multiply_add.hpp b/include/ccmath/internal/support/multiply_add.hpp
index 633fbab..0538dd6 100644
--- a/include/ccmath/internal/support/multiply_add.hpp
+++ b/include/ccmath/internal/support/multiply_add.hpp
@@ -15,6 +15,13 @@
 
 #include <type_traits>
 
+namespace ccm::support::fp
+{
+	// Defined in support/fp/fma.hpp, which depends on this header.
+	template <typename T>
+	[[nodiscard]] constexpr std::enable_if_t<std::is_floating_point_v<T>, T> generic_fma(T x, T y, T z);
+} // namespace ccm::support::fp
+
 namespace ccm::support
 {
 	// Simple wrapper for fma
@@ -26,10 +33,7 @@ namespace ccm::support
 		{
 			if constexpr (ccm::builtin::has_runtime_fma<T>)
 			{
-				if (is_constant_evaluated())
-				{
-					return (x * y) + z; // We can only hope the compiler optimizes this.
-				}
+				if (is_constant_evaluated()) { return fp::generic_fma(x, y, z); }
 
 				return ccm::builtin::fma_rt(x, y, z);
 			}
@@ -41,7 +45,11 @@ namespace ccm::support
 	template <typename T>
 	struct multiply_add_builtin<T, true>
 	{
-		static constexpr T call(T x, T y, T z) { return ccm::builtin::fma_ct(x, y, z); }
+		static constexpr T call(T x, T y, T z)
+		{
+			if (is_constant_evaluated()) { return fp::generic_fma(x, y, z); }
+			return ccm::builtin::fma_ct(x, y, z);
+		}
 	};
 
 	template <typename T>
diff --git a/include/ccmath/internal/support/poly_eval.hpp b/include/ccmath/internal/support/poly_eval.hpp
index d818958..1c838a4 100644
--- a/include/ccmath/internal/support/poly_eval.hpp
+++ b/include/ccmath/internal/support/poly_eval.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 
 #include <type_traits>
diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 2fca4a4..66e8156 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -20,6 +20,7 @@
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/fp/nearest_integer.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 #include "ccmath/math/misc/impl/gamma_data.hpp"
 #include "ccmath/math/nearest/floor.hpp"
diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 68f8d2c..84cb8c6 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -15,6 +15,7 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 #include "ccmath/internal/support/poly_eval.hpp"
 #include "ccmath/math/basic/fabs.hpp"
diff --git a/include/ccmath/math/trig/impl/sincos_double_impl.hpp b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
index c0b80e5..61186d1 100644
--- a/include/ccmath/math/trig/impl/sincos_double_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
@@ -17,6 +17,7 @@
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/fp/nearest_integer.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 #include "ccmath/math/trig/impl/sincos_double_data.hpp"
 #include "ccmath/math/trig/impl/sincos_payne_hanek.hpp"
diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 6a3b725..83617b0 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -17,6 +17,7 @@
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/fp/nearest_integer.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 #include "ccmath/math/trig/impl/sincos_float_data.hpp"
 #include "ccmath/math/trig/impl/sincos_payne_hanek.hpp"
diff --git a/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp b/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
index 3aea528..d06f1d5 100644
--- a/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
+++ b/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
@@ -19,6 +19,7 @@
 // only needs the top bits of the result.
 
 #include "ccmath/internal/support/fp/fp_bits.hpp"
+#include "ccmath/internal/support/fp/fma.hpp"
 #include "ccmath/internal/support/multiply_add.hpp"
 
 #include <array>
-- 
2.43.0


From f81016bf6f344b13cc9952e6265ce6fc77de480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 34/62] fix: powf of NaN with an integral exponent is a
 constant expression (C18)

---
 .../internal/math/generic/func/power/pow_impl/powf_impl.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
index 445a520..17cfcff 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
@@ -200,6 +200,7 @@ namespace ccm::gen::impl
 					return ((x_abs < 0x3f80'0000) == (y_u == 0xff80'0000)) ? FloatBits::inf().get_val() : 0.0F;
 				}
 				default:
+					if (CCM_UNLIKELY(x_abs > 0x7f80'0000U)) { return x; } // NaN
 					switch (y_u)
 					{
 					case 0x3f00'0000: // y = 0.5f
-- 
2.43.0


From 512389ddcc96247ba1c05488a756838415a89f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 35/62] fix: powf of a signaling NaN still raises FE_INVALID at
 run time (C17, C18)

---
 .../internal/math/generic/func/power/pow_impl/powf_impl.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
index 17cfcff..512a0d7 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
@@ -26,6 +26,7 @@
 #include "ccmath/internal/support/fp/ops/add.hpp"
 #include "ccmath/internal/support/fp/ops/mul.hpp"
 #include "ccmath/internal/support/helpers/exp10.hpp"
+#include "ccmath/internal/support/is_constant_evaluated.hpp"
 #include "ccmath/internal/support/poly_eval.hpp"
 #include "ccmath/internal/types/double_double.hpp"
 #include "ccmath/internal/types/triple_double.hpp"
@@ -200,7 +201,7 @@ namespace ccm::gen::impl
 					return ((x_abs < 0x3f80'0000) == (y_u == 0xff80'0000)) ? FloatBits::inf().get_val() : 0.0F;
 				}
 				default:
-					if (CCM_UNLIKELY(x_abs > 0x7f80'0000U)) { return x; } // NaN
+					if (ccm::support::is_constant_evaluated() && CCM_UNLIKELY(x_abs > 0x7f80'0000U)) { return x; } // arithmetic on NaN is not constant
 					switch (y_u)
 					{
 					case 0x3f00'0000: // y = 0.5f
-- 
2.43.0


From 5fdec7a6466a3542c8ddb3aa1df58e8567592d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 36/62] fix: remainder's halfway quotients and zeros at run
 time (C04)

---
 .../internal/math/runtime/func/basic/remainder_rt.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp b/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp
index 0fd0f2d..3ea3a65 100644
--- a/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp
+++ b/include/ccmath/internal/math/runtime/func/basic/remainder_rt.hpp
@@ -25,7 +25,13 @@ namespace ccm::rt
 #if defined(_MSC_VER) && !defined(__clang__)
 		return detail::msvc_libm::remainder_call(x, y);
 #else
-		if constexpr (ccm::builtin::has_runtime_remainder<T>) { return ccm::builtin::remainder_rt(x, y); }
+		if constexpr (ccm::builtin::has_runtime_remainder<T>)
+		{
+			const T rem = ccm::builtin::remainder_rt(x, y);
+			// glibc's double remainder does not round every halfway quotient to even nor give every zero the sign of x.
+			if (rem == T(0) || rem + rem == y || rem + rem == -y) { return gen::remainder_gen(x, y); }
+			return rem;
+		}
 		else
 		{
 			return gen::remainder_gen(x, y);
-- 
2.43.0


From 3ea2e4ebfef598f215a95588fde9f95ec880cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 37/62] fix: deterministic fmin and fmax pick the same zero in
 every build (C19)

---
 include/ccmath/internal/math/generic/builtins/basic/fmax.hpp | 3 ++-
 include/ccmath/internal/math/generic/builtins/basic/fmin.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/builtins/basic/fmax.hpp b/include/ccmath/internal/math/generic/builtins/basic/fmax.hpp
index 6182a29..84e72fe 100644
--- a/include/ccmath/internal/math/generic/builtins/basic/fmax.hpp
+++ b/include/ccmath/internal/math/generic/builtins/basic/fmax.hpp
@@ -77,7 +77,8 @@ namespace ccm::builtin
 	template <typename T>
 	inline constexpr bool has_runtime_fmax =
 #ifdef CCMATH_HAS_BUILTIN_FMAX
-		is_valid_builtin_type<T>;
+		// Which zero fmax(+0, -0) returns is left to the compiler and libm, so deterministic builds do not use it.
+		is_valid_transcendental_builtin_type<T>;
 #else
 		false;
 #endif
diff --git a/include/ccmath/internal/math/generic/builtins/basic/fmin.hpp b/include/ccmath/internal/math/generic/builtins/basic/fmin.hpp
index 1742136..b6696ed 100644
--- a/include/ccmath/internal/math/generic/builtins/basic/fmin.hpp
+++ b/include/ccmath/internal/math/generic/builtins/basic/fmin.hpp
@@ -75,7 +75,8 @@ namespace ccm::builtin
 	template <typename T>
 	inline constexpr bool has_runtime_fmin =
 #ifdef CCMATH_HAS_BUILTIN_FMIN
-		is_valid_builtin_type<T>;
+		// Which zero fmin(+0, -0) returns is left to the compiler and libm, so deterministic builds do not use it.
+		is_valid_transcendental_builtin_type<T>;
 #else
 		false;
 #endif
-- 
2.43.0


From b03b18fb28c2f3313ce18381cdc65c88e24fdbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 38/62] fix: make the scalar SIMD mask operators and
 simd_storage compile when instantiated

---
 include/ccmath/internal/math/runtime/simd/common.hpp        | 6 +++---
 .../internal/math/runtime/simd/instructions/scalar.hpp      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/common.hpp b/include/ccmath/internal/math/runtime/simd/common.hpp
index bf627b2..61d28dd 100644
--- a/include/ccmath/internal/math/runtime/simd/common.hpp
+++ b/include/ccmath/internal/math/runtime/simd/common.hpp
@@ -103,15 +103,15 @@ namespace ccm::intrin
 
 		CCM_ALWAYS_INLINE simd_storage() = default;
 		static constexpr int size() { return simd<T, Abi>::size(); }
-		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value, element_aligned_tag()); }
+		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value.data(), element_aligned_tag()); }
 		CCM_ALWAYS_INLINE explicit simd_storage(T value) : simd_storage(simd<T, Abi>(value)) {}
 		CCM_ALWAYS_INLINE simd_storage& operator=(simd<T, Abi> const& value)
 		{
-			value.copy_to(m_value, element_aligned_tag());
+			value.copy_to(m_value.data(), element_aligned_tag());
 			return *this;
 		}
 		CCM_ALWAYS_INLINE T const* data() const { return m_value.data(); }
-		CCM_ALWAYS_INLINE T* data() { return m_value; }
+		CCM_ALWAYS_INLINE T* data() { return m_value.data(); }
 		CCM_ALWAYS_INLINE T const& operator[](int i) const { return m_value[i]; }
 		CCM_ALWAYS_INLINE T& operator[](int i) { return m_value[i]; }
 
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
index 3ad6f40..be2bc8e 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
@@ -31,9 +31,9 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE static constexpr int size() { return 1; }
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE explicit simd_mask(bool value) : m_value(value) {}
 		[[nodiscard]] CCM_GPU_HOST_DEVICE constexpr bool get() const { return m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return m_value || other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return m_value && other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return !m_value; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return simd_mask(m_value || other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return simd_mask(m_value && other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return simd_mask(!m_value); }
 
 	private:
 		bool m_value;
-- 
2.43.0


From e83f948205eb4d77a1c0e4e0d00806adc74a5ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 39/62] fix: negate SIMD lanes by their sign bit, so that -(+0)
 is -0

---
 .../ccmath/internal/math/runtime/simd/instructions/avx2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
index 76d5993..bfc2d1a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
@@ -85,7 +85,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_ps(_mm256_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_ps(_mm256_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_ps(ptr, m_value); }
 		[[nodiscard]] constexpr __m256 get() const { return m_value; }
@@ -158,7 +158,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_pd(_mm256_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_pd(_mm256_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_pd(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m256d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index ecc6787..8a6a9d4 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -83,7 +83,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 8fd7123..4997c8a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -84,7 +84,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
-- 
2.43.0


From 3e2b6f500a812bad70cdbdffa0616e42487c4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 40/62] fix: choose between SSE lanes without adding them, so
 that a chosen -0 stays -0

---
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index 8a6a9d4..c96dcda 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -100,7 +100,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse2> choose(simd_mask<float, abi::sse2> const &a, simd<float, abi::sse2> const &b, simd<float, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse2>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse2>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse2> choose(simd_mask<double, abi::sse2> const &a, simd<double, abi::sse2> const &b, simd<double, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse2>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse2>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 4997c8a..21bf7c2 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -101,7 +101,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse4> choose(simd_mask<float, abi::sse4> const &a, simd<float, abi::sse4> const &b, simd<float, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse4>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse4>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse4> choose(simd_mask<double, abi::sse4> const &a, simd<double, abi::sse4> const &b, simd<double, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse4>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse4>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
-- 
2.43.0


From 9cddc955bf53d8a7fc8425819118d1a78d669599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 41/62] fix: map scalar functions over every SIMD lane, not the
 first only

---
 .../math/runtime/simd/func/impl/avx2/pow.hpp  |  5 +++--
 .../math/runtime/simd/func/impl/neon/pow.hpp  |  5 +++--
 .../runtime/simd/func/impl/scalar/map.hpp     | 20 +++++++++++++++++--
 .../math/runtime/simd/func/impl/sse2/pow.hpp  |  5 +++--
 .../math/runtime/simd/func/impl/sse4/pow.hpp  |  5 +++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
index c2cfca1..a3dfd69 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/avx2/pow.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/func/power/sqrt_gen.hpp"
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -23,7 +24,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return simd<float, abi::avx2>(_mm256_pow_ps(a.get(), b.get()));
 		#else
-		return simd<float, abi::avx2>(gen::pow_gen(a.convert(), b.convert()));
+		return map_scalar(a, b, [](float base, float exp) { return gen::pow_gen(base, exp); });
 		#endif
 	}
 
@@ -32,7 +33,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return simd<double, abi::avx2>(_mm256_pow_pd(a.get(), b.get()));
 		#else
-		return simd<double, abi::avx2>(gen::pow_gen(a.convert(), b.convert()));
+		return map_scalar(a, b, [](double base, double exp) { return gen::pow_gen(base, exp); });
 		#endif
 	}
 
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp
index bbee0f4..04e3362 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/neon/pow.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "ccmath/internal/math/generic/func/power/pow_gen.hpp"
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -18,10 +19,10 @@
 namespace ccm::intrin
 {
 	CCM_ALWAYS_INLINE simd<float, abi::neon> pow(simd<float, abi::neon> const & a, simd<float, abi::neon> const & b)
-	{ return simd<float, abi::neon>(gen::pow_gen(a.convert(), b.convert())); }
+	{ return map_scalar(a, b, [](float base, float exp) { return gen::pow_gen(base, exp); }); }
 
 	CCM_ALWAYS_INLINE simd<double, abi::neon> pow(simd<double, abi::neon> const & a, simd<double, abi::neon> const & b)
-	{ return simd<double, abi::neon>(gen::pow_gen(a.convert(), b.convert())); }
+	{ return map_scalar(a, b, [](double base, double exp) { return gen::pow_gen(base, exp); }); }
 } // namespace ccm::intrin
 	#endif
 #endif
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp
index 48084b3..6669e17 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp
@@ -12,13 +12,29 @@
 
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
+#include <array>
+#include <cstddef>
+
 namespace ccm::intrin
 {
+	// Apply a scalar function to every lane.
 	template <class T, class Abi, typename Fn>
 	CCM_ALWAYS_INLINE simd<T, Abi> map_scalar(simd<T, Abi> const & input, Fn fn)
-	{ return simd<T, Abi>(fn(input.convert())); }
+	{
+		std::array<T, static_cast<std::size_t>(simd<T, Abi>::size())> lanes;
+		input.copy_to(lanes.data(), element_aligned_tag());
+		for (T & lane : lanes) { lane = fn(lane); }
+		return simd<T, Abi>(lanes.data(), element_aligned_tag());
+	}
 
 	template <class T, class Abi, typename Fn>
 	CCM_ALWAYS_INLINE simd<T, Abi> map_scalar(simd<T, Abi> const & lhs, simd<T, Abi> const & rhs, Fn fn)
-	{ return simd<T, Abi>(fn(lhs.convert(), rhs.convert())); }
+	{
+		std::array<T, static_cast<std::size_t>(simd<T, Abi>::size())> left;
+		std::array<T, static_cast<std::size_t>(simd<T, Abi>::size())> right;
+		lhs.copy_to(left.data(), element_aligned_tag());
+		rhs.copy_to(right.data(), element_aligned_tag());
+		for (std::size_t i = 0; i < left.size(); ++i) { left[i] = fn(left[i], right[i]); }
+		return simd<T, Abi>(left.data(), element_aligned_tag());
+	}
 } // namespace ccm::intrin
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp
index e011322..24c9e66 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/sse2/pow.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -32,7 +33,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_ps(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](float base, float exp) { return gen::pow_gen(base, exp); });
 		#endif
 	}
 
@@ -43,7 +44,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_pd(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](double base, double exp) { return gen::pow_gen(base, exp); });
 		#endif
 	}
 } // namespace ccm::intrin
diff --git a/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp b/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp
index 8ba53ca..a1057f0 100644
--- a/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp
+++ b/include/ccmath/internal/math/runtime/simd/func/impl/sse4/pow.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/math/runtime/simd/func/impl/scalar/map.hpp"
 #include "ccmath/internal/math/runtime/simd/simd.hpp"
 
 #ifdef CCMATH_HAS_SIMD
@@ -32,7 +33,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_ps(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](float base, float exp) { return gen::pow_gen(base, exp); });
 		#endif
 	}
 
@@ -43,7 +44,7 @@ namespace ccm::intrin
 		#ifdef CCMATH_HAS_SIMD_SVML
 		return { _mm_pow_pd(a.get(), b.get()) };
 		#else
-		return { gen::pow_gen(a.convert(), b.convert()) };
+		return map_scalar(a, b, [](double base, double exp) { return gen::pow_gen(base, exp); });
 		#endif
 	}
 } // namespace ccm::intrin
-- 
2.43.0


From 0755ae8d619b2d496d7fdad76855095ff2d4b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 42/62] fix: give pp::max the same result for equal and
 unordered lanes on every backend

---
 include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp | 8 ++++----
 include/ccmath/internal/math/runtime/pp/vec_ext.hpp     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp b/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp
index a166d81..9b345b0 100644
--- a/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp
+++ b/include/ccmath/internal/math/runtime/pp/msvc_intrin.hpp
@@ -111,7 +111,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static SimdMember op_sqrt(SimdMember v) { return _mm_sqrt_ps(v); }
 		CCM_ALWAYS_INLINE static SimdMember op_fabs(SimdMember v) { return _mm_andnot_ps(_mm_set1_ps(-0.0F), v); }
 		CCM_ALWAYS_INLINE static SimdMember op_min(SimdMember a, SimdMember b) { return _mm_min_ps(a, b); }
-		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm_max_ps(a, b); }
+		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm_max_ps(b, a); }
 	#define CCM_PP_MSVC_F32_ROUND(NAME, SFN)                                                                                                                   \
 		CCM_ALWAYS_INLINE static SimdMember NAME(SimdMember v)                                                                                                 \
 		{                                                                                                                                                      \
@@ -251,7 +251,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static SimdMember op_sqrt(SimdMember v) { return _mm_sqrt_pd(v); }
 		CCM_ALWAYS_INLINE static SimdMember op_fabs(SimdMember v) { return _mm_andnot_pd(_mm_set1_pd(-0.0), v); }
 		CCM_ALWAYS_INLINE static SimdMember op_min(SimdMember a, SimdMember b) { return _mm_min_pd(a, b); }
-		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm_max_pd(a, b); }
+		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm_max_pd(b, a); }
 	#define CCM_PP_MSVC_F64_ROUND(NAME, SFN)                                                                                                                   \
 		CCM_ALWAYS_INLINE static SimdMember NAME(SimdMember v)                                                                                                 \
 		{                                                                                                                                                      \
@@ -671,7 +671,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static SimdMember op_sqrt(SimdMember v) { return _mm256_sqrt_ps(v); }
 		CCM_ALWAYS_INLINE static SimdMember op_fabs(SimdMember v) { return _mm256_andnot_ps(_mm256_set1_ps(-0.0F), v); }
 		CCM_ALWAYS_INLINE static SimdMember op_min(SimdMember a, SimdMember b) { return _mm256_min_ps(a, b); }
-		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm256_max_ps(a, b); }
+		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm256_max_ps(b, a); }
 		#define CCM_PP_MSVC_F32X8_ROUND(NAME, SFN)                                                                                                             \
 			CCM_ALWAYS_INLINE static SimdMember NAME(SimdMember v)                                                                                             \
 			{                                                                                                                                                  \
@@ -814,7 +814,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static SimdMember op_sqrt(SimdMember v) { return _mm256_sqrt_pd(v); }
 		CCM_ALWAYS_INLINE static SimdMember op_fabs(SimdMember v) { return _mm256_andnot_pd(_mm256_set1_pd(-0.0), v); }
 		CCM_ALWAYS_INLINE static SimdMember op_min(SimdMember a, SimdMember b) { return _mm256_min_pd(a, b); }
-		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm256_max_pd(a, b); }
+		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return _mm256_max_pd(b, a); }
 		#define CCM_PP_MSVC_F64X4_ROUND(NAME, SFN)                                                                                                             \
 			CCM_ALWAYS_INLINE static SimdMember NAME(SimdMember v)                                                                                             \
 			{                                                                                                                                                  \
diff --git a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
index d9f93eb..ce032f5 100644
--- a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
+++ b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
@@ -272,7 +272,7 @@ namespace ccm::pp
 	#endif
 		}
 		CCM_ALWAYS_INLINE static SimdMember op_min(SimdMember a, SimdMember b) { return select(lt(a, b), a, b); }
-		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return select(lt(b, a), a, b); }
+		CCM_ALWAYS_INLINE static SimdMember op_max(SimdMember a, SimdMember b) { return select(lt(a, b), b, a); }
 
 		// Horizontal reductions.
 		CCM_ALWAYS_INLINE static T hadd(SimdMember v)
-- 
2.43.0


From 7fbc005538c06caeca18a7be11b32038cecaaef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 43/62] fix: keep the SIMD pow kernel's exact products exact
 when the compiler contracts

---
 .../func/power/pow_impl/pow_simd_impl.hpp     | 26 ++++---------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index 7ac1d9a..dee9276 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -56,30 +56,14 @@ namespace ccm::gen::impl
 			return v_exact_add(r.hi, r.lo + (a.lo + b.lo));
 		}
 
-		// Veltkamp's splitting.
-		template <typename Abi>
-		CCM_ALWAYS_INLINE VDD<Abi> v_split(pp::basic_simd<double, Abi> const & a) noexcept
-		{
-			using DVec = pp::basic_simd<double, Abi>;
-			const DVec c(0x1.0p27 + 1.0);
-			const DVec t1 = c * a;
-			const DVec t2 = a - t1;
-			const DVec hi = t1 + t2;
-			return { hi, a - hi };
-		}
-
-		// Dekker's product, mirroring types::exact_mult.
+		// Exact product, the value types::exact_mult has on the targets this kernel runs on. A
+		// compiler that contracts a * b + c on its own (GCC by default) would break Dekker's product.
 		template <typename Abi>
 		CCM_ALWAYS_INLINE VDD<Abi> v_exact_mult(pp::basic_simd<double, Abi> const & a, pp::basic_simd<double, Abi> const & b) noexcept
 		{
-			using DVec		  = pp::basic_simd<double, Abi>;
-			const VDD<Abi> as = v_split(a);
-			const VDD<Abi> bs = v_split(b);
-			const DVec hi	  = a * b;
-			const DVec t1	  = as.hi * bs.hi - hi;
-			const DVec t2	  = as.hi * bs.lo + t1;
-			const DVec t3	  = as.lo * bs.hi + t2;
-			return { hi, as.lo * bs.lo + t3 };
+			using DVec	  = pp::basic_simd<double, Abi>;
+			const DVec hi = a * b;
+			return { hi, pp::fma(a, b, -hi) };
 		}
 
 		// types::quick_mult(double, DoubleDouble).
-- 
2.43.0


From 39e62f1866e4c98c47c2b4c16cb7f78819c20b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 44/62] fix: BigInt converts to a wider signed integer in a
 constant expression

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..4cc07ed 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -833,7 +833,7 @@ namespace ccm::types
 			// sign-extend the result if the original value was negative.
 			if constexpr (Signed && (T_SIZE > Bits))
 			{
-				constexpr T MASK = (~T(0) << Bits);
+				constexpr T MASK = -(T(1) << Bits);
 				if (is_neg()) { lo |= MASK; }
 			}
 
-- 
2.43.0


From 567ab0974ef05227479c673436a723b57391525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 45/62] fix: BigInt widening extends by the sign of the source

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 4cc07ed..3a027a9 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -610,7 +610,7 @@ namespace ccm::types
 		constexpr BigInt(const BigInt<OtherBits, OtherSigned, OtherWordType>& other) // NOLINT(google-explicit-constructor)
 		{
 			using BigIntOther							   = BigInt<OtherBits, OtherSigned, OtherWordType>;
-			[[maybe_unused]] const bool should_sign_extend = Signed && other.is_neg();
+			[[maybe_unused]] const bool should_sign_extend = other.is_neg();
 
 			static_assert(!(Bits == OtherBits && WORD_SIZE != BigIntOther::WORD_SIZE),
 						  "Casting between BigInts with the same bit width but different word sizes is untested.");
-- 
2.43.0


From eee86b516528a035c9f79652d83d434e2c465f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 46/62] fix: BigInt widening to larger words extends the first
 new word too

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 3a027a9..3feef7d 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -645,7 +645,7 @@ namespace ccm::types
 						}
 					}
 					const WordType extension_bits = should_sign_extend ? std::numeric_limits<WordType>::max() : std::numeric_limits<WordType>::min();
-					if ((i % WORD_SIZE_RATIO) != 0) { cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO)); }
+					cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO));
 					val[i / WORD_SIZE_RATIO] = cur_word;
 					extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
 				}
-- 
2.43.0


From b4a493b7587146a10c8b971efdf16946a106c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 47/62] fix: BigInt rotl and rotr take negative amounts at
 widths that are no power of two

---
 include/ccmath/internal/types/big_int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 3feef7d..21f7a83 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1631,7 +1631,7 @@ namespace ccm::support
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
 		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		rotate				 = rotate % static_cast<int>(N);
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
 		return (value << rotate) | (value >> (N - rotate));
@@ -1641,7 +1641,7 @@ namespace ccm::support
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
 		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		rotate				 = rotate % static_cast<int>(N);
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
 		return (value >> rotate) | (value << (N - rotate));
-- 
2.43.0


From 90e2b9fc4579b27d866c8e965adae2f393b1e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 48/62] fix: first_trailing_one of zero is 0, of all ones 1

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 21f7a83..a6f6aea 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1702,7 +1702,7 @@ namespace ccm::support
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, int> first_trailing_one(T value)
-	{ return value == std::numeric_limits<T>::max() ? 0 : support::countr_zero(value) + 1; }
+	{ return value.is_zero() ? 0 : support::countr_zero(value) + 1; }
 } // namespace ccm::support
 
 #if defined(_MSC_VER) && !defined(__clang__)
-- 
2.43.0


From a2fca197f279f7bd8b05dfcad640bca35ad20f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 49/62] fix: BigInt -= on signed values reports overflow only
 when it overflows

---
 include/ccmath/internal/types/big_int.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index a6f6aea..d1d09b9 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -920,7 +920,11 @@ namespace ccm::types
 
 		constexpr BigInt& operator-=(const BigInt& other)
 		{
-			if (sub_overflow(other)) // Perform subtraction, and if the returned carry is true, we have an overflow.
+			const bool lhs_is_neg	 = is_neg();
+			const bool signs_differ	 = lhs_is_neg != other.is_neg();
+			const bool borrow		 = sub_overflow(other) != 0;
+			// Unsigned values overflow when they borrow, signed ones when the result has left the sign of the minuend.
+			if (SIGNED ? (signs_differ && is_neg() != lhs_is_neg) : borrow)
 			{
 				// Attempt to set errno to ERANGE and raise FE_OVERFLOW if we are able to.
 				support::fenv::set_errno_if_required(ERANGE);
-- 
2.43.0


From 8e5a1939bb01d4b1fd251a5a7068b693f0fd1e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 50/62] fix: BigInt ful_mul of signed values is their product

---
 include/ccmath/internal/types/big_int.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index d1d09b9..d384075 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -951,6 +951,13 @@ namespace ccm::types
 		{
 			BigInt<Bits + OtherBits, Signed, WordType> result;
 			multiword::multiply_with_carry(result.val, val, other.val);
+			if constexpr (Signed)
+			{
+				// The words were multiplied as unsigned ones, where a negative factor is 2^bits more than its value.
+				using result_type = BigInt<Bits + OtherBits, Signed, WordType>;
+				if (is_neg()) { result.sub_overflow(result_type(other) << Bits); }
+				if (other.is_neg()) { result.sub_overflow(result_type(*this) << OtherBits); }
+			}
 			return result;
 		}
 
-- 
2.43.0


From af2225c55c94bfde048af083c8aed7906e20f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 51/62] fix: BigInt mul by a word returns the carry out of the
 highest word

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index d384075..6a5ff37 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum();
 		}
 
 		/**
-- 
2.43.0


From d0506b0b6f1f13516fe20cc0a144a93b374f7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 52/62] fix: DyadicFloat::as compiles when it is to signal
 exceptions

---
 include/ccmath/internal/types/dyadic_float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 3385892..39d5701 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -389,7 +389,7 @@ namespace ccm::types
 				//		also raise FE_OVERFLOW and set ERANGE is debatable.
 				// TODO: Check what MSVC does for this case to match them when compiling with MSVC.
 				// This behavior matches Clang.
-				if constexpr (ShouldSignalExceptions && support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				if (ShouldSignalExceptions && support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
 
 				return r;
 			}
@@ -461,7 +461,7 @@ namespace ccm::types
 					// "tininess" before or after rounding for base-2 formats, as long as
 					// the same choice is made for all operations.
 					// Our choice to check after rounding might not be the same as the hardware's.
-					if constexpr (ShouldSignalExceptions && round_and_sticky)
+					if (ShouldSignalExceptions && round_and_sticky)
 					{
 						support::fenv::set_errno_if_required(ERANGE);
 						support::fenv::raise_except_if_required(FE_UNDERFLOW);
-- 
2.43.0


From b37265e291307cd3a53e09cfc70adf24b6ef9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 53/62] fix: rounding_direction of dyadic numbers with one bit,
 or all bits, shifted out

---
 include/ccmath/internal/types/dyadic_float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 39d5701..7ed13b4 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -62,12 +62,12 @@ namespace ccm::types
 			if (rshift > 0 && rshift <= Bits && value.get_bit(rshift - 1))
 			{
 				const bool round_bit = rshift < Bits ? value.get_bit(rshift) : false;
-				return round_bit || (value << (Bits - rshift + 1)) != 0 ? +1 : -1;
+				return round_bit || (rshift > 1 && (value << (Bits - rshift + 1)) != 0) ? +1 : -1;
 			}
 			return -1;
 		case FE_TOWARDZERO: return -1;
-		case FE_DOWNWARD: return logical_sign.is_neg() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
-		case FE_UPWARD: return logical_sign.is_pos() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
+		case FE_DOWNWARD: return logical_sign.is_neg() ? +1 : -1;
+		case FE_UPWARD: return logical_sign.is_pos() ? +1 : -1;
 		default: support::unreachable();
 		}
 	}
-- 
2.43.0


From 6c388693e64de40b74c716d7f0f54682be0f0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 54/62] fix: DyadicFloat::as_mantissa_type is 0 when every bit
 is shifted out

---
 include/ccmath/internal/types/dyadic_float.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 7ed13b4..c15fb9e 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -522,6 +522,7 @@ namespace ccm::types
 			else
 			{
 				const std::size_t shift = static_cast<std::size_t>(-static_cast<std::int64_t>(exponent));
+				if (shift >= Bits) { return 0; }
 				new_mant >>= shift;
 			}
 
-- 
2.43.0


From ebae240e0d67fe57b9f67cee3e38e40e478fb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 55/62] fix: dyadic numbers of 64 bits convert to long double
 exactly

---
 include/ccmath/internal/types/dyadic_float.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index c15fb9e..eea4429 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -281,10 +281,13 @@ namespace ccm::types
 					out_biased_exp = static_cast<StorageType>(unbiased_exp + FPBits::exponent_bias);
 				}
 
-				const mantissa_type round_mask	= mantissa_type(1) << static_cast<std::size_t>(extra_fraction_len - 1);
-				round							= (mantissa & round_mask) != 0;
-				const mantissa_type sticky_mask = round_mask - 1;
-				sticky							= (mantissa & sticky_mask) != 0;
+				if (extra_fraction_len > 0)
+				{
+					const mantissa_type round_mask	= mantissa_type(1) << static_cast<std::size_t>(extra_fraction_len - 1);
+					round							= (mantissa & round_mask) != 0;
+					const mantissa_type sticky_mask = round_mask - 1;
+					sticky							= (mantissa & sticky_mask) != 0;
+				}
 
 				out_mantissa = static_cast<StorageType>(mantissa >> static_cast<std::size_t>(extra_fraction_len));
 			}
@@ -417,8 +420,9 @@ namespace ccm::types
 			mantissa_type round_mask  = (shift - 1) >= mantissa_type::BITS ? mantissa_type(0) : mantissa_type(1) << (shift - 1);
 			mantissa_type sticky_mask = round_mask - mantissa_type(1);
 
-			const bool round_bit  = !(mantissa & round_mask).is_zero();
-			const bool sticky_bit = !(mantissa & sticky_mask).is_zero();
+			// Nothing is lost when the mantissa has as many bits as the output.
+			const bool round_bit  = shift != 0 && !(mantissa & round_mask).is_zero();
+			const bool sticky_bit = shift != 0 && !(mantissa & sticky_mask).is_zero();
 			int round_and_sticky  = (static_cast<int>(round_bit) * 2) + static_cast<int>(sticky_bit);
 
 			T d_lo{}; // GCC will lose its mind if {} is not used here.
-- 
2.43.0


From 81e01ef7810a39a7a7203f17394ddd497ec27f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 56/62] fix: quick_add keeps the exponent of the larger operand
 when the other is shifted out

---
 include/ccmath/internal/types/dyadic_float.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index eea4429..e45c7ab 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -601,6 +601,7 @@ namespace ccm::types
 		if (CCM_UNLIKELY(b.mantissa.is_zero())) { return a; }
 
 		// Align exponents
+		const int aligned_exponent = a.exponent > b.exponent ? a.exponent : b.exponent;
 		if (a.exponent > b.exponent) { b.shift_right(static_cast<unsigned>(a.exponent - b.exponent)); }
 		else if (b.exponent > a.exponent) { a.shift_right(static_cast<unsigned>(b.exponent - a.exponent)); }
 
@@ -610,7 +611,7 @@ namespace ccm::types
 		{
 			// Addition
 			result.sign		= a.sign;
-			result.exponent = a.exponent;
+			result.exponent = aligned_exponent;
 			result.mantissa = a.mantissa;
 			if (result.mantissa.add_overflow(b.mantissa))
 			{
-- 
2.43.0


From b59573539d1d10003e351ac6e901c40064246ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 57/62] fix: quick_add stays within its bound when operands an
 exponent apart cancel

---
 include/ccmath/internal/types/dyadic_float.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index e45c7ab..40c53aa 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -602,6 +602,9 @@ namespace ccm::types
 
 		// Align exponents
 		const int aligned_exponent = a.exponent > b.exponent ? a.exponent : b.exponent;
+		// The bit that aligning exponents one apart shifts out.
+		const bool lost_bit =
+			(a.exponent - b.exponent == 1 && b.mantissa.get_bit(0)) || (b.exponent - a.exponent == 1 && a.mantissa.get_bit(0));
 		if (a.exponent > b.exponent) { b.shift_right(static_cast<unsigned>(a.exponent - b.exponent)); }
 		else if (b.exponent > a.exponent) { a.shift_right(static_cast<unsigned>(b.exponent - a.exponent)); }
 
@@ -638,6 +641,13 @@ namespace ccm::types
 			result.mantissa = b.mantissa - a.mantissa;
 		}
 
+		// Cancellation would bring the lost bit above the bound on the error: it has room now, and is taken off.
+		if (lost_bit && !result.mantissa.get_bit(Bits - 1))
+		{
+			result.shift_left(1);
+			--result.mantissa;
+		}
+
 		return result.normalize();
 	}
 
-- 
2.43.0


From 10822cfacbb69a1b1548470cc8c3d4f97c301b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 58/62] fix: has_single_bit takes unsigned char, and with it
 is_power_of_two the 8-bit integers

---
 include/ccmath/internal/support/bits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 118969c..7387630 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -92,7 +92,7 @@ namespace ccm::support
 	}
 
 	template <class T,
-			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && !traits::is_char_v<T> && !std::is_same_v<T, bool>, bool> = true>
+			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && (!traits::is_char_v<T> || std::is_same_v<T, unsigned char>) && !std::is_same_v<T, bool>, bool> = true>
 	constexpr bool has_single_bit(T x) noexcept
 	{ return x && !(x & (x - 1)); }
 
-- 
2.43.0


From fe025e8606d9bfc9fb88d516357ca69bb9cc845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 59/62] fix: ext::ceil_div does not overflow when value +
 divisor does

---
 include/ccmath/ext/ceil_div.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..c25f857 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,7 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{ return static_cast<T>((value / divisor) + T(value % divisor > T(0))); }
 
 	namespace safe
 	{
-- 
2.43.0


From b8c9c6667792bf6706d45673fb487d5548233c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:12 +0000
Subject: [PATCH 60/62] fix: ext::repeat stays in [0, length)

---
 include/ccmath/ext/repeat.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/ext/repeat.hpp b/include/ccmath/ext/repeat.hpp
index 7d69825..2bcdd6c 100644
--- a/include/ccmath/ext/repeat.hpp
+++ b/include/ccmath/ext/repeat.hpp
@@ -10,7 +10,7 @@
 
 #pragma once
 
-#include "ccmath/math/nearest/floor.hpp"
+#include "ccmath/math/basic/fmod.hpp"
 
 #include <type_traits>
 
@@ -25,7 +25,14 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	[[nodiscard]] constexpr T repeat(T value, T length) noexcept
-	{ return value - (ccm::floor(value / length) * length); }
+	{
+		// The remainder is exact, so rounding the quotient cannot put the result outside the range.
+		const T remainder = ccm::fmod(value, length);
+		if (remainder == T(0) || (remainder < T(0)) == (length < T(0))) { return remainder; }
+		// Adding length may round up to length, which is where the next period begins.
+		const T repeated = remainder + length;
+		return repeated == length ? T(0) : repeated;
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 75f93991c8010476e3baa1fd62fecbc937a63365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 61/62] fix: multiply_add is usable in constant evaluation
 before the end of the translation unit

---
 include/ccmath/internal/support/fp/fma.hpp    |  1 +
 .../ccmath/internal/support/multiply_add.hpp  | 29 ++++++++++++-------
 .../ccmath/internal/types/dyadic_float.hpp    |  3 ++
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index c4eb010..608bba0 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -12,6 +12,7 @@
 
 #include "ccmath/internal/math/generic/builtins/basic/fma.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
+#include "ccmath/internal/support/unreachable.hpp"
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fenv/rounding_mode.hpp"
diff --git a/include/ccmath/internal/support/multiply_add.hpp b/include/ccmath/internal/support/multiply_add.hpp
index 0538dd6..8f9cba3 100644
--- a/include/ccmath/internal/support/multiply_add.hpp
+++ b/include/ccmath/internal/support/multiply_add.hpp
@@ -52,20 +52,27 @@ namespace ccm::support
 		}
 	};
 
+	// A template for every type, so that multiply_add_builtin, and with it fp::generic_fma, is
+	// instantiated where it is used and not already here, where fp::generic_fma has no definition.
+	template <typename T>
+	constexpr T multiply_add_dispatch(const T &x, const T &y, const T &z)
+	{
+#ifdef CCMATH_TARGET_CPU_HAS_FMA
+		if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) { return multiply_add_builtin<T>::call(x, y, z); }
+		else { return (x * y) + z; }
+#else
+		return (x * y) + z;
+#endif
+	}
+
 	template <typename T>
 	constexpr std::enable_if_t<(sizeof(T) > sizeof(void *)), T> multiply_add(const T &x, const T &y, const T &z)
-	{ return (x * y) + z; }
+	{ return multiply_add_dispatch<T>(x, y, z); }
 
 	template <typename T>
 	constexpr std::enable_if_t<(sizeof(T) <= sizeof(void *)), T> multiply_add(T x, T y, T z)
-	{ return (x * y) + z; }
-
-#ifdef CCMATH_TARGET_CPU_HAS_FMA
-
-	constexpr float multiply_add(float x, float y, float z)
-	{ return multiply_add_builtin<float>::call(x, y, z); }
-
-	constexpr double multiply_add(double x, double y, double z)
-	{ return multiply_add_builtin<double>::call(x, y, z); }
-#endif
+	{ return multiply_add_dispatch<T>(x, y, z); }
 } // namespace ccm::support
+
+// Not at the top: it depends on the declarations above. It defines fp::generic_fma.
+#include "ccmath/internal/types/dyadic_float.hpp"
diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 40c53aa..b241a4a 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -829,3 +829,6 @@ namespace ccm::types
 		return DyadicFloat<Bits>::round(result_sign, result_exponent, quotient, guard_bits);
 	}
 } // namespace ccm::types
+
+// Not at the top: it depends on the declarations above.
+#include "ccmath/internal/support/fp/fma.hpp"
-- 
2.43.0


From e80d74de628f4df10cc824da3b92d2e8543f520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:02 +0000
Subject: [PATCH 62/62] fix: log2.hpp and the simd headers include what they
 use

---
 include/ccmath/internal/math/runtime/simd/pack.hpp | 2 ++
 include/ccmath/math/expo/impl/log2_double_impl.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/ccmath/internal/math/runtime/simd/pack.hpp b/include/ccmath/internal/math/runtime/simd/pack.hpp
index 74b32d5..73b9acc 100644
--- a/include/ccmath/internal/math/runtime/simd/pack.hpp
+++ b/include/ccmath/internal/math/runtime/simd/pack.hpp
@@ -13,6 +13,8 @@
 #include "common.hpp"
 #include "simd_vectorize.hpp"
 
+#include <cstdint>
+
 namespace ccm::intrin
 {
 
diff --git a/include/ccmath/math/expo/impl/log2_double_impl.hpp b/include/ccmath/math/expo/impl/log2_double_impl.hpp
index beaa79c..e8dbe14 100644
--- a/include/ccmath/math/expo/impl/log2_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/log2_double_impl.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 
+#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/internal/types/fp_types.hpp"
-- 
2.43.0

