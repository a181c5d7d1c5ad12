From 8d7e1a41815ca1cfbc92e55dafbe1495958242ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 01/59] fix: constant-evaluated fmod is exact for every
 quotient

x - trunc(x / y) * y loses the remainder as soon as the quotient needs more
than the significand, and (0, NaN) returned 0. Use exact binary long division.
Integral arguments are converted to double, as std::fmod does, so a zero
integral divisor yields NaN, and the mixed-argument overload can be called.
---
 include/ccmath/math/basic/fmod.hpp | 39 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/ccmath/math/basic/fmod.hpp b/include/ccmath/math/basic/fmod.hpp
index 461a062..90dd8e5 100644
--- a/include/ccmath/math/basic/fmod.hpp
+++ b/include/ccmath/math/basic/fmod.hpp
@@ -18,19 +18,39 @@
 #include "ccmath/math/nearest/trunc.hpp"
 
 #include <limits>
+#include <type_traits>
 
 namespace ccm
 {
 	/// @cond CCMATH_INTERNAL
 	namespace internal::impl
 	{
+		/**
+		 * @brief Exact remainder of x / y for finite x and finite non-zero y.
+		 *
+		 * Binary long division: every doubling, halving and subtraction below is exact, so the result does not depend on the size of the quotient.
+		 */
 		template <typename T>
-		constexpr T fmod_impl_check(T x, T y) noexcept
+		constexpr T fmod_exact(T x, T y) noexcept
 		{
-			if constexpr (std::is_floating_point_v<T>)
+			const bool x_is_negative = x < T(0);
+			const T divisor			 = y < T(0) ? -y : y;
+			T remainder				 = x_is_negative ? -x : x;
+			T step					 = divisor;
+			while (step <= remainder / 2) { step += step; }
+			while (true)
 			{
-				if (!ccm::support::is_constant_evaluated()) { return ccm::rt::fmod_rt(x, y); }
+				if (remainder >= step) { remainder -= step; }
+				if (step == divisor) { break; }
+				step /= 2;
 			}
+			return x_is_negative ? -remainder : remainder;
+		}
+
+		template <typename T>
+		constexpr T fmod_impl_check(T x, T y) noexcept
+		{
+			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::fmod_rt(x, y); }
 
 			// Special edge cases for floating-point types.
 			if constexpr (std::numeric_limits<T>::is_iec559)
@@ -39,8 +59,8 @@ namespace ccm
 				const FPBits_t x_bits(x);
 				const FPBits_t y_bits(y);
 
-				// If x is ±0 and y is not zero, ±0 is returned.
-				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero()))
+				// If x is ±0 and y is neither zero nor NaN, ±0 is returned.
+				if (CCM_UNLIKELY(x_bits.is_zero() && !y_bits.is_zero() && !y_bits.is_nan()))
 				{
 					// The standard specifies that plus or minus 0 is returned depending on the sign of x.
 					return x;
@@ -68,10 +88,11 @@ namespace ccm
 				}
 			}
 
-			return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+			return fmod_exact(x, y);
 		}
 
-		template <typename T, typename U, typename TC = std::common_type_t<T, U>>
+		// Integral arguments are converted to double before the operation.
+		template <typename T, typename U, typename TC = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>>
 		constexpr TC fmod_impl_type_check(T x, U y) noexcept
 		{ return fmod_impl_check(static_cast<TC>(x), static_cast<TC>(y)); }
 	} // namespace internal::impl
@@ -111,8 +132,8 @@ namespace ccm
 	 * @return The floating-point remainder of the division operation x/y.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmod
 	 */
-	template <typename T, typename U>
-	constexpr auto fmod(T x, T y)
+	template <typename T, typename U, std::enable_if_t<std::is_arithmetic_v<T> && std::is_arithmetic_v<U> && !std::is_same_v<T, U>, bool> = true>
+	constexpr auto fmod(T x, U y)
 	{ return internal::impl::fmod_impl_type_check(x, y); }
 
 	/**
-- 
2.43.0


From 1c76d520133c905ae17c9083e267c04bd1454111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 02/59] fix: constant-evaluated remainder rounds the quotient
 to nearest even

It truncated the quotient (fmod semantics) and returned NaN for an infinite divisor.
---
 include/ccmath/math/basic/remainder.hpp | 27 ++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index e348688..43e6e82 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -15,8 +15,11 @@
 #include "ccmath/internal/predef/unlikely.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/math/basic/fmod.hpp"
 #include "ccmath/math/nearest/trunc.hpp"
 
+#include <limits>
+
 namespace ccm
 {
 	/**
@@ -48,7 +51,29 @@ namespace ccm
 			return -std::numeric_limits<T>::quiet_NaN();
 		}
 
-		return static_cast<T>(x - (ccm::trunc<T>(x / y) * y));
+		// Reduce |x| below 2|y| without rounding, then subtract |y| at most twice so that the quotient is rounded to nearest, ties to even.
+		const T divisor = y_bits.is_neg() ? -y : y;
+		T result		= x_bits.is_neg() ? -x : x;
+		if (divisor <= std::numeric_limits<T>::max() / 2) { result = ccm::fmod(result, divisor + divisor); }
+
+		if (divisor < 2 * std::numeric_limits<T>::min())
+		{
+			if (result + result > divisor)
+			{
+				result -= divisor;
+				if (result + result >= divisor) { result -= divisor; }
+			}
+		}
+		else
+		{
+			const T half_divisor = divisor / 2;
+			if (result > half_divisor)
+			{
+				result -= divisor;
+				if (result >= half_divisor) { result -= divisor; }
+			}
+		}
+		return x_bits.is_neg() ? -result : result;
 	}
 
 	/**
-- 
2.43.0


From 2dcca1f13dab86e5358645b4c47f915b1f1dda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 03/59] fix: constant-evaluated fdim overflows only when the
 difference does

The guard compared x with max + y, which rounds, so fdim(denorm_min, -max) was inf.
---
 include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..33475a5 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -40,7 +40,8 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
+			// Halve both operands so that the overflow test itself is exact at the edge of the range.
+			if (y < static_cast<T>(0.0) && (x / 2) - (y / 2) > std::numeric_limits<T>::max() / 2) { return std::numeric_limits<T>::infinity(); }
 			return x - y;
 		}
 	}
-- 
2.43.0


From 22f1020f34932e67f2092dc512c88b85d2ebfb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 04/59] fix: atan2 of a negative zero and a negative abscissa
 is -pi

The sign of a zero y was dropped because -0 >= 0.
---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 901028d..00513ce 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -263,7 +263,7 @@ namespace ccm::internal::impl
 
 		if (x < static_cast<T>(0))
 		{
-			if (y >= static_cast<T>(0)) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
+			if (!fp_bits_t(y).is_neg()) { return angle + static_cast<T>(ccm::numbers::pi_v<T>); }
 			return angle - static_cast<T>(ccm::numbers::pi_v<T>);
 		}
 		return angle;
-- 
2.43.0


From 32c10cdcf1c9ab968c78ecb7b9bc8b89bd44df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 05/59] fix: float exp kernel underflows to zero

0x1.4p-75F squared is 1.5625 * 2^-150, which rounds to the smallest subnormal,
so exp(-1000.0F) was 2^-149 instead of 0.
---
 include/ccmath/math/expo/impl/exp_float_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_float_impl.hpp b/include/ccmath/math/expo/impl/exp_float_impl.hpp
index 96afdbe..ebe259d 100644
--- a/include/ccmath/math/expo/impl/exp_float_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_float_impl.hpp
@@ -64,7 +64,7 @@ namespace ccm::internal::impl
 			// Handle underflow
 			if (x < -0x1.9fe368p6F) // x < log(0x1p-150) ~= -103.97
 			{
-				return 0x1.4p-75F * 0x1.4p-75F;
+				return 0x1p-95F * 0x1p-95F;
 			}
 		}
 
-- 
2.43.0


From e756c28ececb940081e9ecb0c2a1dfd8ee720f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 06/59] fix: generic double expm1 and log1p kernels lose up to
 a thousand ulp

expm1 returned exp(x) for x <= -512 and cut its series too early on
[1/16, 1/4]; log1p used Taylor coefficients where its reduction needs the
minimax ones.
---
 include/ccmath/math/expo/impl/exp_double_impl.hpp |  8 +++++++-
 include/ccmath/math/expo/impl/log1p_impl.hpp      | 14 +++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 44fd869..a698954 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -147,7 +147,10 @@ namespace ccm::internal::impl
 	constexpr double expm1_series(double x)
 	{
 		const double x2 = x * x;
-		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0)))))));
+		// Taylor terms up to x^13 / 13!: the remainder is below 2^-70 for |x| <= 1/8.
+		const double tail =
+			1.0 / 362880.0 + x * (1.0 / 3628800.0 + x * (1.0 / 39916800.0 + x * (1.0 / 479001600.0 + x * (1.0 / 6227020800.0))));
+		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0 + x * tail)))))));
 	}
 
 	constexpr double expm1_kernel(double x)
@@ -220,6 +223,9 @@ namespace ccm::internal::impl
 
 		if (x == -std::numeric_limits<double>::infinity()) { return -1.0; }
 
+		// exp(x) is below a quarter ulp of one; the special-case path of the kernel would drop the -1.
+		if (x < -64.0) { return -1.0; }
+
 		if (x >= 0.25 || x <= -0.25) { return expm1_kernel(x); }
 
 		if (x > 0.0625 || x < -0.0625)
diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index ad2e99b..765de12 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -32,13 +32,13 @@ namespace ccm::internal::impl
 	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
 	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
 
-	constexpr double log1p_lg1_d = 0x1.5555555555555p-1;
-	constexpr double log1p_lg2_d = 0x1.9999999999999p-2;
-	constexpr double log1p_lg3_d = 0x1.2492492492492p-2;
-	constexpr double log1p_lg4_d = 0x1.c71c71c71c6d6p-3;
-	constexpr double log1p_lg5_d = 0x1.745d1745d0a63p-3;
-	constexpr double log1p_lg6_d = 0x1.3b13b13b0ff6ep-3;
-	constexpr double log1p_lg7_d = 0x1.111111111126ep-3;
+	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
+	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
+	constexpr double log1p_lg3_d = 0x1.2492494229359p-2;
+	constexpr double log1p_lg4_d = 0x1.c71c51d8e78afp-3;
+	constexpr double log1p_lg5_d = 0x1.7466496cb03dep-3;
+	constexpr double log1p_lg6_d = 0x1.39a09d078c69fp-3;
+	constexpr double log1p_lg7_d = 0x1.2f112df3e5244p-3;
 
 	constexpr auto log1p_log_data_flt = ccm::internal::log_data<double>();
 	constexpr auto log1p_ln2_hi_d	  = log1p_log_data_flt.ln2hi;
-- 
2.43.0


From 5df4743b0003e74a429bcd66833c8e85c94ae2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 07/59] fix: float sine range reduction is accurate without
 hardware FMA

The Cody-Waite products were rounded to float before the cancellation when
FMA is unavailable (constant evaluation), an absolute error of up to 4e-3 for
arguments near 1e5. Reduce in double, where the leading products are exact.
---
 include/ccmath/math/trig/impl/sincos_float_impl.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 562f13e..253453c 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -37,9 +37,12 @@ namespace ccm::internal::impl
 			const float prod_hi = x * data::ONE_OVER_PI;
 			const float k		= support::fp::nearest_integer(prod_hi);
 
-			const float y_hi = support::multiply_add(k, data::MPI[0], x);
-			u				 = support::multiply_add(k, data::MPI[1], y_hi);
-			u				 = support::multiply_add(k, data::MPI[2], u);
+			// Without FMA the products must not be rounded to float before the cancellation, so reduce in double, where the leading ones are exact.
+			const auto kd = static_cast<double>(k);
+			double y	  = static_cast<double>(x) + kd * static_cast<double>(data::MPI[0]);
+			y += kd * static_cast<double>(data::MPI[1]);
+			y += kd * static_cast<double>(data::MPI[2]);
+			u = static_cast<float>(y);
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
-- 
2.43.0


From 15c381d6db49a4b05dc86ac003d65537af4c6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 08/59] fix: in-tree gamma and lgamma outside the moderate
 range

tgamma looped |x| times and converted |x| to int32 for large negative
arguments, lost results below -170 to an overflowing product and overflowed
early for floats in [34.8, 35.04]; lgamma's asymptotic series had wrong
coefficients (off by 1/(12 x)), overflowed before cancelling, treated integers
above 2^31 as small, and evaluated sin(pi * x) unreduced.
---
 .../math/misc/impl/gamma_double_impl.hpp      | 26 ++++++++++++++++---
 .../math/misc/impl/gamma_float_impl.hpp       |  2 +-
 .../math/misc/impl/lgamma_double_impl.hpp     | 14 +++++++---
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..04097a3 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -144,19 +144,39 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
+			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
 		}
 
+		// |tgamma(x)| < 2^-1075 here: the reduction below would only loop |x| times to underflow. Every non-integer fits in an int64.
+		if (CCM_UNLIKELY(x < -184.0))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			return (static_cast<std::int64_t>(ccm::floor(x)) & 1) != 0 ? -0.0 : 0.0;
+		}
+
+		// Below -160 the product in the reduction would overflow: reduce from x + 20 and divide by the remaining factors.
+		double divisor = 1.0;
+		double reduced = x;
+		if (CCM_UNLIKELY(x < -160.0))
+		{
+			for (std::int32_t j = 0; j < 20; ++j)
+			{
+				divisor *= reduced;
+				reduced += 1.0;
+			}
+		}
+
 		double w{};
-		const double f		= detail::gamma_reduce(x, w);
-		const double result = f * w;
+		const double f		= detail::gamma_reduce(reduced, w);
+		const double result = f * w / divisor;
 		if (CCM_UNLIKELY(fp_bits(result).is_inf()))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
diff --git a/include/ccmath/math/misc/impl/gamma_float_impl.hpp b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
index aa8c631..7c25b4d 100644
--- a/include/ccmath/math/misc/impl/gamma_float_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
@@ -53,7 +53,7 @@ namespace ccm::internal::impl
 			return fp_bits::inf(xbits.sign()).get_val();
 		}
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 34.8F))
+		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 0x1.18522p+5F))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..317f0a2 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -39,9 +39,14 @@ namespace ccm::internal::impl
 
 		constexpr double stirling(double x) noexcept
 		{
+			// The other terms are negligible and (x - 0.5) * log(x) could overflow before x is subtracted.
+			if (x >= 0x1p60) { return x * (ccm::log(x) - 1.0); }
+
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
+			// Bernoulli terms B(2n) / (2n (2n - 1) x^(2n - 1)).
+			const double corr =
+				inv_x * (1.0 / 12.0 + inv_x2 * (-1.0 / 360.0 + inv_x2 * (1.0 / 1260.0 + inv_x2 * (-1.0 / 1680.0 + inv_x2 * (1.0 / 1188.0)))));
 			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
 		}
 
@@ -102,8 +107,7 @@ namespace ccm::internal::impl
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(ccm::floor(x))); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
@@ -112,7 +116,9 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(x < 0.0))
 		{
-			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * x)) -
+			// |sin(pi * x)| has period one; reduce first, because pi * x is not exact.
+			const double fraction = x - ccm::floor(x + 0.5);
+			return ccm::log(ccm::numbers::pi_v<double>) - lgamma_detail::log_abs(x) - lgamma_detail::log_abs(ccm::sin(ccm::numbers::pi_v<double> * fraction)) -
 				   lgamma_double_impl(-x);
 		}
 
-- 
2.43.0


From 8d1e32028acc3c95bb9f03c309be1cb89339a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 09/59] fix: mixed-type nextafter and integral nexttoward
 promote as documented

nextafter(float, double) stepped a float, and mixed calls with a wider first
argument or an integer did not compile.
---
 include/ccmath/math/fmanip/nextafter.hpp  | 6 +++++-
 include/ccmath/math/fmanip/nexttoward.hpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..226add8 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,11 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::nextafter<shared_type>(static_cast<shared_type>(from), static_cast<shared_type>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..5c5e89a 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward<double>(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From 9b078f5c7d80eaf70acd695e5dd3f5f32f33454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 10/59] fix: constant-evaluated long double manipulation keeps
 long double range

frexp, modf, logb and ilogb went through double, scalbn rounded twice or
overflowed early, and nextafter stepped the raw bits of the 80-bit format
although the dedicated implementation was already there.
---
 .../math/generic/func/fmanip/frexp_gen.hpp    |  7 +--
 .../math/generic/func/fmanip/ilogb_gen.hpp    |  7 +--
 .../math/generic/func/fmanip/logb_gen.hpp     |  7 +--
 .../math/generic/func/fmanip/modf_gen.hpp     | 10 +---
 .../generic/func/fmanip/nextafter_gen.hpp     |  8 +++
 .../math/fmanip/impl/scalbn_ldouble_impl.hpp  | 50 +++++++++++--------
 include/ccmath/math/fmanip/modf.hpp           |  7 +--
 7 files changed, 41 insertions(+), 55 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
index 4b3f971..480be01 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/frexp_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T frexp_gen(T x, int & exp)
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::frexp_impl(x, exp); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::frexp_impl(static_cast<double>(x), exp));
-		}
+		return ccm::internal::impl::frexp_impl(x, exp);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
index 8dcb4d1..590693e 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/ilogb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr int ilogb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::ilogb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::ilogb_impl(num); }
-		else
-		{
-			return ccm::internal::impl::ilogb_impl(static_cast<double>(num));
-		}
+		return ccm::internal::impl::ilogb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
index 5ec1541..f97fe69 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/logb_gen.hpp
@@ -19,11 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T logb_gen(T num) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return ccm::internal::impl::logb_impl(num); }
-		else if constexpr (std::is_same_v<T, double>) { return ccm::internal::impl::logb_impl(num); }
-		else
-		{
-			return static_cast<T>(ccm::internal::impl::logb_impl(static_cast<double>(num)));
-		}
+		return ccm::internal::impl::logb_impl(num);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
index 16bb402..6a6d07c 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/modf_gen.hpp
@@ -19,14 +19,6 @@ namespace ccm::gen
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	constexpr T modf_gen(T x, T * iptr) noexcept
 	{
-		if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
-		else
-		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
-		}
+		return internal::impl::modf_impl(x, iptr);
 	}
 } // namespace ccm::gen
diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..5f2bb01 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -17,11 +17,19 @@
 
 namespace ccm::gen
 {
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+	constexpr long double nextafter(long double from, long double to);
+#endif
+
 	template <class TFrom,
 			  class TTo,
 			  std::enable_if_t<std::is_floating_point_v<TFrom> && std::is_floating_point_v<TTo> && (sizeof(TFrom) <= sizeof(TTo)), bool> = true>
 	[[nodiscard]] constexpr TFrom nextafter_gen(TFrom from, TTo to) noexcept
 	{
+#if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
+		// The explicit integer bit of the 80-bit format rules out stepping the raw bits.
+		if constexpr (std::is_same_v<TFrom, long double>) { return ccm::gen::nextafter(from, static_cast<long double>(to)); }
+#endif
 
 		ccm::support::fp::FPBits<TFrom> from_bits(from);
 		if (from_bits.is_nan()) { return from; }
diff --git a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
index 2a9105b..3ba5578 100644
--- a/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
+++ b/include/ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp
@@ -23,6 +23,21 @@ namespace ccm::internal
 {
 	namespace impl
 	{
+#if (LDBL_MANT_DIG == 64 || LDBL_MANT_DIG == 113) && LDBL_MAX_EXP == 16384
+		// 2^exp for an exponent in the normal range.
+		constexpr long double power_of_two(int exp) noexcept
+		{
+			long double base   = exp < 0 ? 0.5L : 2.0L;
+			long double result = 1.0L;
+			for (unsigned remaining = static_cast<unsigned>(exp < 0 ? -exp : exp); remaining != 0; remaining >>= 1)
+			{
+				if ((remaining & 1U) != 0) { result *= base; }
+				if (remaining > 1) { base *= base; }
+			}
+			return result;
+		}
+#endif
+
 		constexpr long double scalbn_ldouble_impl(long double arg, int exp) noexcept
 		{
 #if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024 // If long double is the same as double
@@ -40,33 +55,24 @@ namespace ccm::internal
 
 			if (ccm::isnan(arg)) { return std::numeric_limits<long double>::quiet_NaN(); }
 
-			long double mult(1);
-			if (exp > 0)
+			constexpr int max_step	= std::numeric_limits<long double>::max_exponent - 1;
+			constexpr int down_step = max_step - 1 - std::numeric_limits<long double>::digits;
+
+			// Only the last multiplication may round: step down while the value stays a full significand above the subnormal range.
+			for (int i = 0; i < 3 && exp > max_step; ++i)
 			{
-				mult = std::numeric_limits<long double>::radix;
-				--exp;
+				arg *= power_of_two(max_step);
+				exp -= max_step;
 			}
-			else
+			for (int i = 0; i < 3 && exp < -(max_step - 1); ++i)
 			{
-				++exp;
-				exp = -exp;
-				mult /= std::numeric_limits<long double>::radix;
+				arg *= power_of_two(-down_step);
+				exp += down_step;
 			}
+			if (exp > max_step) { exp = max_step; }
+			if (exp < -(max_step - 1)) { exp = -(max_step - 1); }
 
-			while (exp > 0)
-			{
-				if ((exp & 1) == 0)
-				{
-					mult *= mult;
-					exp >>= 1;
-				}
-				else
-				{
-					arg *= mult;
-					--exp;
-				}
-			}
-			return arg;
+			return arg * power_of_two(exp);
 #else
 			// This should never be called, but since we are not using templates here can can not static_assert it.
 			return 0;
diff --git a/include/ccmath/math/fmanip/modf.hpp b/include/ccmath/math/fmanip/modf.hpp
index bf3bcc0..85083b8 100644
--- a/include/ccmath/math/fmanip/modf.hpp
+++ b/include/ccmath/math/fmanip/modf.hpp
@@ -38,14 +38,9 @@ namespace ccm
 			*iptr			   = integer_part;
 			return fractional;
 		}
-		else if constexpr (std::is_same_v<T, float>) { return internal::impl::modf_impl(x, iptr); }
-		else if constexpr (std::is_same_v<T, double>) { return internal::impl::modf_impl(x, iptr); }
 		else
 		{
-			double integer_part{};
-			const double fractional = internal::impl::modf_impl(static_cast<double>(x), &integer_part);
-			*iptr					= static_cast<T>(integer_part);
-			return static_cast<T>(fractional);
+			return internal::impl::modf_impl(x, iptr);
 		}
 	}
 
-- 
2.43.0


From 4a673bed9108ea84f9d5cf160e49f18eb16a362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 11/59] fix: quiet comparisons of two integers recurse without
 end

---
 include/ccmath/math/compare/isgreater.hpp      | 7 ++++---
 include/ccmath/math/compare/isgreaterequal.hpp | 7 ++++---
 include/ccmath/math/compare/isless.hpp         | 7 ++++---
 include/ccmath/math/compare/islessequal.hpp    | 7 ++++---
 include/ccmath/math/compare/islessgreater.hpp  | 6 ++++--
 5 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/ccmath/math/compare/isgreater.hpp b/include/ccmath/math/compare/isgreater.hpp
index 6daf632..b7bbb34 100644
--- a/include/ccmath/math/compare/isgreater.hpp
+++ b/include/ccmath/math/compare/isgreater.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, with integers promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isgreaterequal.hpp b/include/ccmath/math/compare/isgreaterequal.hpp
index c2d8a3c..4238945 100644
--- a/include/ccmath/math/compare/isgreaterequal.hpp
+++ b/include/ccmath/math/compare/isgreaterequal.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isgreaterequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, with integers promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isgreaterequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/isless.hpp b/include/ccmath/math/compare/isless.hpp
index 91972a5..64b7ae6 100644
--- a/include/ccmath/math/compare/isless.hpp
+++ b/include/ccmath/math/compare/isless.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool isless(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, with integers promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return isless<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessequal.hpp b/include/ccmath/math/compare/islessequal.hpp
index fe2df04..6311bdd 100644
--- a/include/ccmath/math/compare/islessequal.hpp
+++ b/include/ccmath/math/compare/islessequal.hpp
@@ -45,11 +45,12 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessequal(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Find the common type of the two arguments, with integers promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 
 		// Then cast the arguments to the common type and call the single argument version
-		return static_cast<shared_type>(islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		return islessequal<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
diff --git a/include/ccmath/math/compare/islessgreater.hpp b/include/ccmath/math/compare/islessgreater.hpp
index 97b092b..2f18641 100644
--- a/include/ccmath/math/compare/islessgreater.hpp
+++ b/include/ccmath/math/compare/islessgreater.hpp
@@ -45,8 +45,10 @@ namespace ccm
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr bool islessgreater(Arithmetic1 x, Arithmetic2 y) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
-		return static_cast<shared_type>(islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
+		// Find the common type of the two arguments, with integers promoted to double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return islessgreater<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
 } // namespace ccm
 
-- 
2.43.0


From f4573a07e1e314b6fdf7bde385af4ffffae95314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 12/59] fix: remquo of two integers recurses without end

---
 include/ccmath/math/basic/remquo.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b977f9b..b267e73 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -85,9 +85,11 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/remquo
 	 */
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
-	constexpr std::common_type_t<Arithmetic1, Arithmetic2> remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
+	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		// Two integers have an integral common type and are promoted to double
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From 11c8eec8b119eddc900a93a7caffc0e649afd6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 13/59] fix: mixed min truncates its result and integral
 fmin/fmax wrap or are ambiguous

---
 include/ccmath/math/basic/max.hpp | 7 ++++---
 include/ccmath/math/basic/min.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index fbf9c72..a87e8f6 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -72,7 +72,7 @@ namespace ccm
 	 * @return If successful, returns the larger of two floating point values. The value returned is exact and does not depend on any rounding modes.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmax
 	 */
-	template <typename T>
+	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T fmax(T x, T y) noexcept
 	{ return max<T>(x, y); }
 
@@ -88,8 +88,9 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmax(T x, U y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<T, U>;
+		// Find the common type of the two arguments, two different integer types promote to double
+		using common_type = std::common_type_t<T, U>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(max<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 0a337d8..82ef58d 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -54,7 +54,7 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
 	 */
 	template <typename T, typename U>
-	constexpr T min(const T x, const U y) noexcept
+	constexpr auto min(const T x, const U y) noexcept
 	{
 		// Find the common type of the two arguments
 		using shared_type = std::common_type_t<T, U>;
@@ -87,8 +87,9 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmin(const T x, const U y) noexcept
 	{
-		// Find the common type of the two arguments
-		using shared_type = std::common_type_t<T, U>;
+		// Find the common type of the two arguments, two different integer types promote to double
+		using common_type = std::common_type_t<T, U>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(min<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
-- 
2.43.0


From c22583a8e220bd933877cb23adcb5f6af541256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 14/59] fix: three-argument hypot of integers does not
 terminate at compile time

---
 include/ccmath/math/power/hypot.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 2d3c5ea..f6cade2 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -62,7 +62,8 @@ namespace ccm
 			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && std::is_arithmetic_v<Arithmetic3>, bool> = true>
 	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y, Arithmetic3 z) noexcept
 	{
-		using shared_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		using common_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
+		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From 7639e08d01af7bfa7968a9a325c111f45dd0472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 15/59] fix: scalbn and scalbln clamp exponents outside the
 range of int

---
 include/ccmath/math/fmanip/scalbn.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..5768dd0 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,9 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <limits>
+#include <type_traits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -58,16 +61,10 @@ namespace ccm
 	template <typename T, std::enable_if_t<!std::is_integral_v<T>, bool> = true>
 	constexpr T scalbn(T num, long exp) noexcept
 	{
-		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
-		else
-		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
-
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
-		}
+		// Exponents beyond the range of int already saturate the result, so clamp instead of truncating.
+		constexpr long max_exp = (std::numeric_limits<int>::max)();
+		constexpr long min_exp = (std::numeric_limits<int>::min)();
+		return ccm::scalbn(num, static_cast<int>(exp > max_exp ? max_exp : (exp < min_exp ? min_exp : exp)));
 	}
 
 	/**
-- 
2.43.0


From d2302a290c37c39a39548d063b9aae8c0b77b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 16/59] fix: long double results of the software fma restore
 the explicit leading bit after a carry

---
 include/ccmath/internal/types/dyadic_float.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 7ceb24a..21bc0cf 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -307,6 +307,14 @@ namespace ccm::types
 			default: break;
 			}
 
+			if constexpr (FPBits::fraction_length < FPBits::significand_length)
+			{
+				// The format stores its leading digit: a carry out of (or, for subnormals, into) that digit moves the exponent.
+				constexpr StorageType EXPLICIT_BIT = static_cast<StorageType>(FPBits::significand_mask - FPBits::fraction_mask);
+				if ((result & FPBits::exponent_mask) != 0) { result |= EXPLICIT_BIT; }
+				else if ((result & EXPLICIT_BIT) != 0) { result |= EXPLICIT_BIT << 1; }
+			}
+
 			if constexpr (ShouldSignalExceptions)
 			{
 				if (round || sticky)
-- 
2.43.0


From 07491f57f41a4f24bdd4205ab9ec8b8a5bd2d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 17/59] fix: long double software fma keeps the sign of an
 underflowing product

---
 include/ccmath/internal/support/fp/fma.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fma.hpp b/include/ccmath/internal/support/fp/fma.hpp
index 429a3d8..ea061e3 100644
--- a/include/ccmath/internal/support/fp/fma.hpp
+++ b/include/ccmath/internal/support/fp/fma.hpp
@@ -510,7 +510,9 @@ namespace ccm::support::fp
 				return FPBits::quiet_nan().get_val();
 			}
 
-			if (CCM_UNLIKELY(x == T(0) || y == T(0) || z == T(0))) { return x * y + z; }
+			if (CCM_UNLIKELY(x == T(0) || y == T(0))) { return x * y + z; }
+			// The product is not zero, so its sign is kept even when it underflows.
+			if (CCM_UNLIKELY(z == T(0))) { return x * y; }
 
 			int x_exp = 0;
 			int y_exp = 0;
-- 
2.43.0


From 6594eefbdbd45352afd09effbffc5161ff8ffbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 18/59] fix: float pow of base two and ten rounds correctly in
 every mode

The shortcuts to exp2 and exp10 are faithful only to nearest and lose results
below the smallest subnormal; the general path handles both bases. The small
integer power loop underflowed in double and lost the sign in directed modes.
---
 .../math/generic/func/power/pow_impl/powf_impl.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
index dcdfdc4..51113c0 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp
@@ -25,11 +25,9 @@
 #include "ccmath/internal/support/fp/nearest_integer.hpp"
 #include "ccmath/internal/support/fp/ops/add.hpp"
 #include "ccmath/internal/support/fp/ops/mul.hpp"
-#include "ccmath/internal/support/helpers/exp10.hpp"
 #include "ccmath/internal/support/poly_eval.hpp"
 #include "ccmath/internal/types/double_double.hpp"
 #include "ccmath/internal/types/triple_double.hpp"
-#include "ccmath/math/expo/impl/exp2_float_impl.hpp"
 
 #include <optional>
 #include <type_traits>
@@ -226,10 +224,12 @@ namespace ccm::gen::impl
 
 							if (const auto iter = static_cast<std::int_fast32_t>(y); extra_bits * iter <= FloatBits::fraction_length + 2)
 							{
-								const auto x_d = static_cast<double>(x);
+								// Multiply magnitudes, and stop well outside the float range, so that the sign and the
+								// final conversion see a correctly signed non-zero value in every rounding mode.
+								const auto x_d = static_cast<double>(support::bit_cast<float>(x_abs));
 								double result  = x_d;
-								for (int i = 1; i < iter; ++i) { result *= x_d; }
-								return static_cast<float>(result);
+								for (int i = 1; i < iter && result > 0x1.0p-800 && result < 0x1.0p800; ++i) { result *= x_d; }
+								return static_cast<float>((x_u & FloatBits::sign_mask) != 0 && (iter & 1) != 0 ? -result : result);
 							}
 						}
 						if (y_abs > 0x4f17'0000)
@@ -251,10 +251,6 @@ namespace ccm::gen::impl
 				{
 				case 0x3f80'0000: // x = 1.0f
 					return 1.0F;
-				case 0x4000'0000: // x = 2.0f
-					return ccm::internal::exp2_float(y);
-				case 0x4120'0000: // x = 10.0f
-					return ccm::support::helpers::exp10_float(y);
 				default: break;
 				}
 
-- 
2.43.0


From 006452419191668ca452c0206116d36900493f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 19/59] fix: double pow rounds once when the result is next to
 the smallest normal number

A pair just below the smallest normal collapsed onto it and skipped the
single rounding onto the subnormal grid.
---
 .../internal/math/generic/func/power/pow_impl/pow_impl.hpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
index 785851e..a7f4387 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
@@ -521,7 +521,8 @@ namespace ccm::gen::impl
 			// untouched (a normal reconstruction times a power-of-two scale is already exact).
 			if (scale < 1.0)
 			{
-				if (const FPBits_t rb(result); rb.is_subnormal() || rb.is_zero())
+				// The smallest normal number is included: a pair just below it collapses onto it.
+				if (const FPBits_t rb(result); rb.is_subnormal() || rb.is_zero() || rb.abs() == FPBits_t::min_normal())
 				{
 					// Every subnormal shares the lsb 2^-1074; with scale = 2^-512 the pre-scale grid
 					// is 2^-562, so scaling the pair up by 2^562 makes that grid the unit and the
-- 
2.43.0


From c343fba563fb7bcacee6ea4550e207682fae92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 20/59] fix: long double sqrt kernel keeps the carry of a
 rounded-up significand

When rounding up overflows the significand the exponent has to grow; the
80-bit kernel halved the result (constant evaluation with an upward
rounding-mode policy).
---
 include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
index b4a19c5..1bbc83d 100644
--- a/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/sqrt_gen.hpp
@@ -155,7 +155,8 @@ namespace ccm::gen
 
 					// Extract output
 					support::fp::FPBits<long double> out(0.0L);
-					out.set_biased_exponent(static_cast<storage_type>(x_exp));
+					// Rounding up may have carried into the exponent field.
+					out.set_biased_exponent(y >> (Bits::fraction_length + 1));
 					out.set_implicit_bit(true);
 					out.set_mantissa(y & (one - 1));
 
-- 
2.43.0


From 135feecf8c18384155b17dff88156f9a11fb8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 21/59] fix: double-double products are not contracted into
 later additions

GCC contracts across expressions by default on FMA targets. Fusing the high part
of an error-free product into the subtraction that follows counts its low part
twice, which cost pow up to y/2 ulp in directed rounding modes.
---
 .../math/generic/func/power/pow_impl/pow_impl.hpp  |  2 +-
 include/ccmath/internal/types/double_double.hpp    | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
index a7f4387..afc7954 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp
@@ -125,7 +125,7 @@ namespace ccm::gen::impl
 
 			constexpr DoubleDouble two_prod(double a, double b) noexcept
 			{
-				const double hi = a * b;
+				const double hi = ccm::types::rounded_product(a, b);
 				const double lo = ccm::types::exact_fma(a, b, -hi);
 				return DoubleDouble{ hi, lo };
 			}
diff --git a/include/ccmath/internal/types/double_double.hpp b/include/ccmath/internal/types/double_double.hpp
index 1bf6495..c46e65a 100644
--- a/include/ccmath/internal/types/double_double.hpp
+++ b/include/ccmath/internal/types/double_double.hpp
@@ -35,6 +35,18 @@ namespace ccm
 #endif
 		}
 
+		// a * b rounded once. The error-free transforms pair this value with its exact residual, so a
+		// compiler that contracts across expressions (GCC's default on FMA targets) must not fuse the
+		// product into a later addition.
+		constexpr double rounded_product(double a, double b) noexcept
+		{
+#if CCM_HAS_BUILTIN(__builtin_assoc_barrier)
+			return __builtin_assoc_barrier(a * b);
+#else
+			return a * b;
+#endif
+		}
+
 		// The output of Dekker's FastTwoSum algorithm is correct, i.e.:
 		//   r.hi + r.lo = a + b exactly
 		//   and |r.lo| < eps(r.lo)
@@ -82,7 +94,7 @@ namespace ccm
 			// Dekker's Product.
 			const DoubleDouble as = split(a);
 			const DoubleDouble bs = split(b);
-			r.hi				  = a * b;
+			r.hi				  = rounded_product(a, b);
 			const double t1		  = as.hi * bs.hi - r.hi;
 			const double t2		  = as.hi * bs.lo + t1;
 			const double t3		  = as.lo * bs.hi + t2;
-- 
2.43.0


From 2a48c0539830e1d0494f688f66eadfa8db180931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 22/59] fix: asin of a negative argument beyond one half is the
 negated asin of its magnitude

pi/2 - acos(x) rounded twice (acos is itself pi minus a kernel value there), so in-tree asin and atan were not odd and
double atan missed its accuracy on the negative side.
---
 include/ccmath/math/trig/impl/inv_trig_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/trig/impl/inv_trig_impl.hpp b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
index 00513ce..4f1a535 100644
--- a/include/ccmath/math/trig/impl/inv_trig_impl.hpp
+++ b/include/ccmath/math/trig/impl/inv_trig_impl.hpp
@@ -143,7 +143,12 @@ namespace ccm::internal::impl
 
 		if (ccm::fabs(x) <= static_cast<T>(0.5)) { return inv_trig_detail::asin_small_impl(x); }
 
-		return static_cast<T>(ccm::numbers::pi_v<T>) / static_cast<T>(2) - acos_impl(x);
+		// acos of a negative argument is itself pi minus a kernel value; reflecting first avoids that second
+		// cancellation and keeps asin an odd function.
+		const T half_pi = static_cast<T>(ccm::numbers::pi_v<T>) / static_cast<T>(2);
+		if (x < static_cast<T>(0)) { return acos_impl(-x) - half_pi; }
+
+		return half_pi - acos_impl(x);
 	}
 
 	template <typename T>
-- 
2.43.0


From f23dd928b32e55fcd278a8f72e2e3bb887dbb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:57 +0000
Subject: [PATCH 23/59] fix: double trig argument reduction keeps its relative
 accuracy next to multiples of pi/8

The three-part Cody-Waite reduction rounded k * MPI[2], and Payne-Hanek subtracted 1 from the high part only, so
arguments that reduce to a tiny remainder lost up to 40 ulp.
---
 .../math/trig/impl/sincos_double_data.hpp     |  7 +++---
 .../math/trig/impl/sincos_double_impl.hpp     |  1 +
 .../math/trig/impl/sincos_payne_hanek.hpp     | 23 ++++++++++++-------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_double_data.hpp b/include/ccmath/math/trig/impl/sincos_double_data.hpp
index 46da2cd..adef5ec 100644
--- a/include/ccmath/math/trig/impl/sincos_double_data.hpp
+++ b/include/ccmath/math/trig/impl/sincos_double_data.hpp
@@ -25,10 +25,11 @@ namespace ccm::internal::sincos_double_data
 		0.0, -0x1.87de2a6aea963p-2, -0x1.6a09e667f3bcdp-1, -0x1.d906bcf328d46p-1, -1.0, -0x1.d906bcf328d46p-1, -0x1.6a09e667f3bcdp-1, -0x1.87de2a6aea963p-2,
 	};
 
-	// Cody-Waite three-part -pi/8 for the small-range reduction. The high part has 31 significant
+	// Cody-Waite four-part -pi/8 for the small-range reduction. The high part has 31 significant
 	// bits so k * MPI[0] is exact for |k| < 2^22, which covers the small-range threshold (|x| < 2^20,
-	// |k| < 2^21.4); the lower parts carry pi/8 to ~115 bits total.
-	constexpr std::array<double, 3> MPI = { -0x1.921fb544p-2, -0x1.0b4611a8p-36, 0x1.d9cceba3f91f2p-68 };
+	// |k| < 2^21.4). The products with the next two parts are exact as well, so that a reduced argument
+	// left tiny by cancellation keeps its relative accuracy; the parts carry pi/8 to ~150 bits total.
+	constexpr std::array<double, 4> MPI = { -0x1.921fb544p-2, -0x1.0b4611a8p-36, 0x1.d9cceba0p-68, 0x1.fc8f8cbb5bf6cp-99 };
 
 	// 8/pi as a double.
 	constexpr double ONE_OVER_PI = 0x1.45f306dc9c883p+1;
diff --git a/include/ccmath/math/trig/impl/sincos_double_impl.hpp b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
index 661d38f..a7145c9 100644
--- a/include/ccmath/math/trig/impl/sincos_double_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_double_impl.hpp
@@ -40,6 +40,7 @@ namespace ccm::internal::impl
 			const double y_hi = support::multiply_add(k, data::MPI[0], x);
 			u				  = support::multiply_add(k, data::MPI[1], y_hi);
 			u				  = support::multiply_add(k, data::MPI[2], u);
+			u				  = support::multiply_add(k, data::MPI[3], u);
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
diff --git a/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp b/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
index 3aea528..83d7fea 100644
--- a/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
+++ b/include/ccmath/math/trig/impl/sincos_payne_hanek.hpp
@@ -127,16 +127,23 @@ namespace ccm::internal::impl::sincos_ph
 		const std::uint64_t a3 = acc[3] & 0x0fffffffffffffffULL; // fraction bits below the integer
 		const bool round_up	   = ((a3 >> 59) & 1ULL) != 0ULL;	 // fraction >= 1/2
 
-		// Fraction as a double-double: top 64 bits in w0 (2^-1..2^-64), next 64 in w1.
-		const std::uint64_t w0 = (a3 << 4) | (acc[2] >> 60);
-		const std::uint64_t w1 = (acc[2] << 4) | (acc[1] >> 60);
-		double r_hi			   = static_cast<double>(w0 >> 11) * 0x1.0p-53;
-		const double r_lo	   = static_cast<double>(w0 & 0x7ffULL) * 0x1.0p-64 + static_cast<double>(w1) * 0x1.0p-128;
-
+		// Fraction as a double-double: top 64 bits in w0 (2^-1..2^-64), next 64 in w1. A fraction in
+		// [1/2, 1) maps to [-1/2, 0) and is negated while it is still exact, so that no cancellation
+		// between the two parts loses the low bits of a reduced argument just below zero.
+		std::uint64_t w0 = (a3 << 4) | (acc[2] >> 60);
+		std::uint64_t w1 = (acc[2] << 4) | (acc[1] >> 60);
+		if (round_up)
+		{
+			w1 = ~w1 + 1ULL;
+			w0 = ~w0 + (w1 == 0ULL ? 1ULL : 0ULL);
+			k  = (k + 1) & 15U;
+		}
+		double r_hi = static_cast<double>(w0 >> 11) * 0x1.0p-53;
+		double r_lo = static_cast<double>(w0 & 0x7ffULL) * 0x1.0p-64 + static_cast<double>(w1) * 0x1.0p-128;
 		if (round_up)
 		{
-			r_hi -= 1.0; // fraction in [1/2, 1) maps to r in [-1/2, 0)
-			k = (k + 1) & 15U;
+			r_hi = -r_hi;
+			r_lo = -r_lo;
 		}
 
 		// y = (r_hi + r_lo) * pi/8 with pi/8 as a double-double, rounded once into y.
-- 
2.43.0


From c2fd1974f5652b3fc1d0312bf62cecc2b095f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 24/59] fix: three-argument hypot returns NaN when a pair
 overflows and the third argument is a NaN

---
 include/ccmath/math/power/hypot.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index f6cade2..c7f35ab 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -14,6 +14,8 @@
 #include "ccmath/internal/math/generic/func/power/hypot_gen.hpp"
 #include "ccmath/internal/math/runtime/func/power/hypot_rt.hpp"
 #include "ccmath/internal/support/is_constant_evaluated.hpp"
+#include "ccmath/math/compare/isinf.hpp"
+#include "ccmath/math/compare/isnan.hpp"
 
 #include <type_traits>
 
@@ -38,6 +40,17 @@ namespace ccm
 		}
 	}
 
+	namespace internal
+	{
+		template <typename T>
+		constexpr T hypot3(T x, T y, T z) noexcept
+		{
+			// An infinity from an overflowing pair must not hide a NaN the way an infinite argument does.
+			if (ccm::isnan(z) && !ccm::isinf(x) && !ccm::isinf(y)) { return z; }
+			return ccm::hypot(ccm::hypot(x, y), z);
+		}
+	} // namespace internal
+
 	/**
 	 * @brief Computes the length of the three-dimensional hypotenuse.
 	 * @tparam T Floating-point type.
@@ -48,13 +61,13 @@ namespace ccm
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/hypot
 	 */
 	constexpr float hypot(float x, float y, float z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return ccm::internal::hypot3(x, y, z); }
 
 	constexpr double hypot(double x, double y, double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return ccm::internal::hypot3(x, y, z); }
 
 	constexpr long double hypot(long double x, long double y, long double z) noexcept
-	{ return ccm::hypot(ccm::hypot(x, y), z); }
+	{ return ccm::internal::hypot3(x, y, z); }
 
 	template <typename Arithmetic1,
 			  typename Arithmetic2,
-- 
2.43.0


From c03b324ac66f74c3da1b7fb99ef95e038e637eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 25/59] fix: nan, nanf and nanl reject a hexadecimal payload
 with an invalid character

---
 include/ccmath/math/basic/impl/nan_double_impl.hpp  | 12 ++++++++++++
 include/ccmath/math/basic/impl/nan_float_impl.hpp   | 12 ++++++++++++
 include/ccmath/math/basic/impl/nan_ldouble_impl.hpp | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/include/ccmath/math/basic/impl/nan_double_impl.hpp b/include/ccmath/math/basic/impl/nan_double_impl.hpp
index 1aa6946..5432e58 100644
--- a/include/ccmath/math/basic/impl/nan_double_impl.hpp
+++ b/include/ccmath/math/basic/impl/nan_double_impl.hpp
@@ -65,6 +65,18 @@ namespace ccm::internal::impl
 			}
 		}
 
+		if (has_hex_been_detected)
+		{
+			// As for decimal payloads, a character that is not a (hexadecimal) digit selects the default NaN.
+			for (std::size_t i = 0; arg[i] != '\0'; ++i)
+			{
+				if (arg[i] != '0' && ccm::support::helpers::digit_to_int(arg[i]) == 0)
+				{
+					return std::numeric_limits<double>::quiet_NaN(); // Default NaN
+				}
+			}
+		}
+
 		if (has_hex_been_detected)
 		{
 			for (std::size_t i = 0; arg[i] != '\0'; ++i)
diff --git a/include/ccmath/math/basic/impl/nan_float_impl.hpp b/include/ccmath/math/basic/impl/nan_float_impl.hpp
index 3512376..e951309 100644
--- a/include/ccmath/math/basic/impl/nan_float_impl.hpp
+++ b/include/ccmath/math/basic/impl/nan_float_impl.hpp
@@ -55,6 +55,18 @@ namespace ccm::internal::impl
 			}
 		}
 
+		if (has_hex_been_detected)
+		{
+			// As for decimal payloads, a character that is not a (hexadecimal) digit selects the default NaN.
+			for (std::size_t i = 0; arg[i] != '\0'; ++i)
+			{
+				if (arg[i] != '0' && ccm::support::helpers::digit_to_int(arg[i]) == 0)
+				{
+					return std::numeric_limits<float>::quiet_NaN(); // Default NaN
+				}
+			}
+		}
+
 		if (has_hex_been_detected)
 		{
 			for (std::size_t i = 0; arg[i] != '\0'; ++i)
diff --git a/include/ccmath/math/basic/impl/nan_ldouble_impl.hpp b/include/ccmath/math/basic/impl/nan_ldouble_impl.hpp
index 41238dd..4d911d1 100644
--- a/include/ccmath/math/basic/impl/nan_ldouble_impl.hpp
+++ b/include/ccmath/math/basic/impl/nan_ldouble_impl.hpp
@@ -70,6 +70,18 @@ namespace ccm::internal::impl
 
 		ccm::types::uint128_t dbl_bits{ 0 };
 
+		if (has_hex_been_detected)
+		{
+			// As for decimal payloads, a character that is not a (hexadecimal) digit selects the default NaN.
+			for (std::size_t i = 0; arg[i] != '\0'; ++i)
+			{
+				if (arg[i] != '0' && ccm::support::helpers::digit_to_int(arg[i]) == 0)
+				{
+					return std::numeric_limits<long double>::quiet_NaN(); // Default NaN
+				}
+			}
+		}
+
 		if (has_hex_been_detected)
 		{
 			for (std::size_t i = 0; arg[i] != '\0'; ++i)
-- 
2.43.0


From 8a0321f8e59084e3942139180f1385874bea6abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 26/59] fix: constant-evaluated long double pow rounds its
 scaled exponent to an integer, not to a half

---
 .../math/generic/func/power/pow_impl/powl_ld80_kernel.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 0ee6cce..9bfd27b 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -85,7 +85,7 @@ namespace ccm::gen::internal::impl::bit80
 
 			if (constexpr long double max_exact_int = 0x1.0p63L; x < max_exact_int && x > -max_exact_int)
 			{
-				constexpr long double round_offset = 0x1.0p62L;
+				constexpr long double round_offset = 0x1.0p63L;
 				return x < 0.0L ? (x - round_offset) + round_offset : (x + round_offset) - round_offset;
 			}
 			return x;
-- 
2.43.0


From ac34c1d042dd02a4eedebb922380fef4148dae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 27/59] fix: in-tree long double pow keeps the sign of odd
 powers that leave the range and the smallest subnormals

---
 .../generic/func/power/pow_impl/powl_ld80_kernel.hpp   |  2 +-
 .../internal/math/generic/func/power/powl_gen.hpp      | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
index 9bfd27b..2252b4e 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/powl_ld80_kernel.hpp
@@ -39,7 +39,7 @@ namespace ccm::gen::internal::impl::bit80
 		inline constexpr long double kScaleDown			 = 0x1.0p-512L;
 		inline constexpr long double kUpperY6Bound		 = 512.0L * 64.0L;
 		inline constexpr long double kOverflowY6HiClamp	 = (static_cast<long double>(LDBL_MAX_EXP - 2) + 513.0L) * 64.0L;
-		inline constexpr long double kUnderflowY6HiClamp = (static_cast<long double>(LDBL_MIN_EXP - (LDBL_MANT_DIG - 1)) + 512.0L) * 64.0L;
+		inline constexpr long double kUnderflowY6HiClamp = (static_cast<long double>(LDBL_MIN_EXP - LDBL_MANT_DIG - 2) + 512.0L) * 64.0L;
 
 		constexpr LongDoublePair exact_add(long double a, long double b) noexcept
 		{
diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index 45d6e3e..f18bf6e 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -238,8 +238,8 @@ namespace ccm::gen
 				{
 					const long double r0 = 1.0L / p.hi;
 					if (r0 == 0.0L || ccm::isinf(r0) || ccm::isnan(r0)) { return r0; }
-					// p.hi near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
-					if (abs_ld(p.hi) >= kSplitSafe) { return r0; }
+					// p.hi or r0 near LDBL_MAX would overflow the split. r0 alone is already within an ULP.
+					if (abs_ld(p.hi) >= kSplitSafe || abs_ld(r0) >= kSplitSafe) { return r0; }
 					const Pair pr		  = bit80::powl_ld80_detail::exact_mult(p.hi, r0);
 					const long double res = ((1.0L - pr.hi) - pr.lo) - p.lo * r0;
 					return r0 + r0 * res;
@@ -293,7 +293,9 @@ namespace ccm::gen
 							const std::int64_t int_exp = static_cast<std::int64_t>(exp);
 							if (int_exp >= -powl_bits::kBoundedExponentMax && int_exp <= powl_bits::kBoundedExponentMax)
 							{
-								return powl_bounded_integer(base, int_exp);
+								// As below: trust the round trip only when it lands on a normal value.
+								const long double result = powl_bounded_integer(base, int_exp);
+								if (const PowlFPBits_t r_bits(result); r_bits.is_finite() && !r_bits.is_zero() && !r_bits.is_subnormal()) { return result; }
 							}
 						}
 					}
@@ -379,7 +381,7 @@ namespace ccm::gen
 					if (exp_abs > kPowlHugeExponentThreshold) { working_exp = exp_abs_bits.is_neg() ? -0x1.0p100L : 0x1.0p100L; }
 
 					long double result = bit80::powl_ld80_general_finite(working_base, working_exp);
-					if (result_is_neg && result != 0.0L && !ccm::isinf(result) && !ccm::isnan(result)) { result = -result; }
+					if (result_is_neg && !ccm::isnan(result)) { result = -result; }
 					return result;
 				}
 			} // namespace bit80
-- 
2.43.0


From bfecc16af654e8bccb6754978211e28237022af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 28/59] fix: log and log10 of a quiet NaN no longer raise
 FE_INVALID

---
 include/ccmath/math/expo/log.hpp   | 6 +++---
 include/ccmath/math/expo/log10.hpp | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/math/expo/log.hpp b/include/ccmath/math/expo/log.hpp
index 5fe4398..a21869e 100644
--- a/include/ccmath/math/expo/log.hpp
+++ b/include/ccmath/math/expo/log.hpp
@@ -58,6 +58,9 @@ namespace ccm
 				return -std::numeric_limits<T>::infinity();
 			}
 
+			// If the argument is NaN, NaN is returned. Checked before the ordered comparisons below, which raise FE_INVALID for NaN.
+			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
+
 			// If the argument is negative, -NaN is returned.
 			if (num < static_cast<T>(0))
 			{
@@ -69,9 +72,6 @@ namespace ccm
 			// If the argument is +∞, +∞ is returned.
 			if (CCM_UNLIKELY(num == std::numeric_limits<T>::infinity())) { return std::numeric_limits<T>::infinity(); }
 
-			// If the argument is NaN, NaN is returned.
-			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
-
 			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::log_rt(num); }
 
 			return gen::log_gen(num);
diff --git a/include/ccmath/math/expo/log10.hpp b/include/ccmath/math/expo/log10.hpp
index 3690111..d124abb 100644
--- a/include/ccmath/math/expo/log10.hpp
+++ b/include/ccmath/math/expo/log10.hpp
@@ -60,6 +60,8 @@ namespace ccm
 				ccm::support::fenv::raise_except_if_required(FE_DIVBYZERO);
 				return -std::numeric_limits<T>::infinity();
 			}
+			// Checked before the ordered comparisons below, which raise FE_INVALID for NaN.
+			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
 			if (num < static_cast<T>(0))
 			{
 				ccm::support::fenv::set_errno_if_required(EDOM);
@@ -67,7 +69,6 @@ namespace ccm
 				return -std::numeric_limits<T>::quiet_NaN();
 			}
 			if (CCM_UNLIKELY(num == std::numeric_limits<T>::infinity())) { return std::numeric_limits<T>::infinity(); }
-			if (CCM_UNLIKELY(ccm::isnan(num))) { return std::numeric_limits<T>::quiet_NaN(); }
 
 			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::log10_rt(num); }
 
-- 
2.43.0


From 620990dd33dc4a79dfcd5e903363bfd8573a3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 29/59] fix: repeat stays within [0, length) when the quotient
 rounds

---
 include/ccmath/ext/repeat.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/ext/repeat.hpp b/include/ccmath/ext/repeat.hpp
index 7d69825..ef6d498 100644
--- a/include/ccmath/ext/repeat.hpp
+++ b/include/ccmath/ext/repeat.hpp
@@ -10,7 +10,7 @@
 
 #pragma once
 
-#include "ccmath/math/nearest/floor.hpp"
+#include "ccmath/math/basic/fmod.hpp"
 
 #include <type_traits>
 
@@ -25,7 +25,22 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_floating_point_v<T>, bool> = true>
 	[[nodiscard]] constexpr T repeat(T value, T length) noexcept
-	{ return value - (ccm::floor(value / length) * length); }
+	{
+		// fmod is exact, so unlike value - floor(value / length) * length this cannot leave the range when the quotient rounds.
+		T result = ccm::fmod(value, length);
+
+		if (result == T(0)) { return T(0); }
+
+		if ((result < T(0)) != (length < T(0)))
+		{
+			result += length;
+
+			// A remainder too small to move length ends up on the excluded bound.
+			if (result == length) { return T(0); }
+		}
+
+		return result;
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 99021181ddfc5e0b1672c6cd4ee5b008a18a425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 30/59] fix: ceil_div does not overflow near the end of the
 range

---
 include/ccmath/ext/ceil_div.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..e4e4055 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,12 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{
+		// Rounding up from the quotient avoids the overflow of value + divisor - 1 near the end of the range.
+		const T quotient = static_cast<T>(value / divisor);
+
+		return static_cast<T>(quotient + T((value % divisor != T(0)) && ((value > T(0)) == (divisor > T(0)))));
+	}
 
 	namespace safe
 	{
-- 
2.43.0


From 7f97cb5fcd0f01eb2f9c5648ac75ed1bd527eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:42 +0000
Subject: [PATCH 31/59] fix: power-of-two helpers reject unsigned char

---
 include/ccmath/internal/support/bits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 118969c..a7700b9 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -92,7 +92,9 @@ namespace ccm::support
 	}
 
 	template <class T,
-			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && !traits::is_char_v<T> && !std::is_same_v<T, bool>, bool> = true>
+			  std::enable_if_t<traits::ccm_is_integral_v<T> && traits::ccm_is_unsigned_v<T> && (!traits::is_char_v<T> || std::is_same_v<T, unsigned char>) &&
+								   !std::is_same_v<T, bool>,
+							   bool> = true>
 	constexpr bool has_single_bit(T x) noexcept
 	{ return x && !(x & (x - 1)); }
 
-- 
2.43.0


From e60d21389c1720e5713f091230b2074c116bbae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 32/59] fix: BigInt rotation by a negative count when the width
 is not a power of two

---
 include/ccmath/internal/types/big_int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..4e7cf9e 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1630,8 +1630,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
 		return (value << rotate) | (value >> (N - rotate));
@@ -1640,8 +1640,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
 		return (value >> rotate) | (value << (N - rotate));
-- 
2.43.0


From 830f7de5ace373f256c9e0efaab17faeafce019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 33/59] fix: BigInt first_trailing_one of zero and of all ones

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 4e7cf9e..f4e43b2 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1702,7 +1702,7 @@ namespace ccm::support
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, int> first_trailing_one(T value)
-	{ return value == std::numeric_limits<T>::max() ? 0 : support::countr_zero(value) + 1; }
+	{ return value == std::numeric_limits<T>::min() ? 0 : support::countr_zero(value) + 1; }
 } // namespace ccm::support
 
 #if defined(_MSC_VER) && !defined(__clang__)
-- 
2.43.0


From 2687e96a9b6e7a925d243fac74732cebc2bd58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 34/59] fix: BigInt single-word multiplication drops its carry

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f4e43b2..fd23d9a 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum();
 		}
 
 		/**
-- 
2.43.0


From 75597c170361461100b2befe3ea79c7c5f0805bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 35/59] fix: BigInt widening conversions lose the sign

---
 include/ccmath/internal/types/big_int.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index fd23d9a..772ff2c 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -610,7 +610,7 @@ namespace ccm::types
 		constexpr BigInt(const BigInt<OtherBits, OtherSigned, OtherWordType>& other) // NOLINT(google-explicit-constructor)
 		{
 			using BigIntOther							   = BigInt<OtherBits, OtherSigned, OtherWordType>;
-			[[maybe_unused]] const bool should_sign_extend = Signed && other.is_neg();
+			[[maybe_unused]] const bool should_sign_extend = other.is_neg();
 
 			static_assert(!(Bits == OtherBits && WORD_SIZE != BigIntOther::WORD_SIZE),
 						  "Casting between BigInts with the same bit width but different word sizes is untested.");
@@ -645,9 +645,13 @@ namespace ccm::types
 						}
 					}
 					const WordType extension_bits = should_sign_extend ? std::numeric_limits<WordType>::max() : std::numeric_limits<WordType>::min();
-					if ((i % WORD_SIZE_RATIO) != 0) { cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO)); }
-					val[i / WORD_SIZE_RATIO] = cur_word;
-					extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
+					if ((i % WORD_SIZE_RATIO) != 0)
+					{
+						cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO));
+						val[i / WORD_SIZE_RATIO] = cur_word;
+						extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
+					}
+					else { extend(i / WORD_SIZE_RATIO, should_sign_extend); }
 				}
 			}
 			else if constexpr (BigIntOther::WORD_SIZE == WORD_SIZE)
-- 
2.43.0


From e35553c88cf94f8dcf1e200e6017fc1a31906ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 36/59] fix: DyadicFloat sum takes the exponent of an operand
 that was shifted out

---
 include/ccmath/internal/types/dyadic_float.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 21bc0cf..78ce063 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -597,7 +597,12 @@ namespace ccm::types
 
 		// Align exponents
 		if (a.exponent > b.exponent) { b.shift_right(static_cast<unsigned>(a.exponent - b.exponent)); }
-		else if (b.exponent > a.exponent) { a.shift_right(static_cast<unsigned>(b.exponent - a.exponent)); }
+		else if (b.exponent > a.exponent)
+		{
+			a.shift_right(static_cast<unsigned>(b.exponent - a.exponent));
+			// Nothing of a is left (and its exponent is no longer aligned).
+			if (a.mantissa.is_zero()) { return b; }
+		}
 
 		DyadicFloat<Bits> result;
 
-- 
2.43.0


From fdab82f5e25612361cb53d4c11d31650678dbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 37/59] fix: DyadicFloat integer part of small values and
 half-way ties

---
 include/ccmath/internal/types/dyadic_float.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 78ce063..0ab2f8e 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -62,12 +62,12 @@ namespace ccm::types
 			if (rshift > 0 && rshift <= Bits && value.get_bit(rshift - 1))
 			{
 				const bool round_bit = rshift < Bits ? value.get_bit(rshift) : false;
-				return round_bit || (value << (Bits - rshift + 1)) != 0 ? +1 : -1;
+				return round_bit || (rshift > 1 && (value << (Bits - rshift + 1)) != 0) ? +1 : -1;
 			}
 			return -1;
 		case FE_TOWARDZERO: return -1;
-		case FE_DOWNWARD: return logical_sign.is_neg() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
-		case FE_UPWARD: return logical_sign.is_pos() && (rshift < Bits && (value << (Bits - rshift)) != 0) ? +1 : -1;
+		case FE_DOWNWARD: return logical_sign.is_neg() ? +1 : -1;
+		case FE_UPWARD: return logical_sign.is_pos() ? +1 : -1;
 		default: support::unreachable();
 		}
 	}
@@ -522,7 +522,11 @@ namespace ccm::types
 			else
 			{
 				const std::size_t shift = static_cast<std::size_t>(-static_cast<std::int64_t>(exponent));
-				new_mant >>= shift;
+				if (shift >= Bits) { new_mant = 0; }
+				else
+				{
+					new_mant >>= shift;
+				}
 			}
 
 			if (sign.is_neg()) { new_mant = (~new_mant) + 1; }
-- 
2.43.0


From 92d552702ce0ee7cf36837225edbb0c56563ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 38/59] fix: DyadicFloat signalling conversion does not compile

---
 include/ccmath/internal/types/dyadic_float.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index 0ab2f8e..ad11a02 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -389,7 +389,10 @@ namespace ccm::types
 				//		also raise FE_OVERFLOW and set ERANGE is debatable.
 				// TODO: Check what MSVC does for this case to match them when compiling with MSVC.
 				// This behavior matches Clang.
-				if constexpr (ShouldSignalExceptions && support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				if constexpr (ShouldSignalExceptions)
+				{
+					if (support::fp::FPBits<T>(r).is_inf()) { support::fenv::set_errno_if_required(ERANGE); }
+				}
 
 				return r;
 			}
@@ -461,10 +464,13 @@ namespace ccm::types
 					// "tininess" before or after rounding for base-2 formats, as long as
 					// the same choice is made for all operations.
 					// Our choice to check after rounding might not be the same as the hardware's.
-					if constexpr (ShouldSignalExceptions && round_and_sticky)
+					if constexpr (ShouldSignalExceptions)
 					{
-						support::fenv::set_errno_if_required(ERANGE);
-						support::fenv::raise_except_if_required(FE_UNDERFLOW);
+						if (round_and_sticky != 0)
+						{
+							support::fenv::set_errno_if_required(ERANGE);
+							support::fenv::raise_except_if_required(FE_UNDERFLOW);
+						}
 					}
 				}
 
-- 
2.43.0


From 7f407864dfdfef5469b2d087c0f7b832ef9d0a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 39/59] fix: DyadicFloat<64> to long double rounds with a bit
 that does not exist

---
 include/ccmath/internal/types/dyadic_float.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/internal/types/dyadic_float.hpp b/include/ccmath/internal/types/dyadic_float.hpp
index ad11a02..9a93be6 100644
--- a/include/ccmath/internal/types/dyadic_float.hpp
+++ b/include/ccmath/internal/types/dyadic_float.hpp
@@ -281,10 +281,14 @@ namespace ccm::types
 					out_biased_exp = static_cast<StorageType>(unbiased_exp + FPBits::exponent_bias);
 				}
 
-				const mantissa_type round_mask	= mantissa_type(1) << static_cast<std::size_t>(extra_fraction_len - 1);
-				round							= (mantissa & round_mask) != 0;
-				const mantissa_type sticky_mask = round_mask - 1;
-				sticky							= (mantissa & sticky_mask) != 0;
+				// With no extra bits the mantissa is represented exactly.
+				if (extra_fraction_len > 0)
+				{
+					const mantissa_type round_mask	= mantissa_type(1) << static_cast<std::size_t>(extra_fraction_len - 1);
+					round							= (mantissa & round_mask) != 0;
+					const mantissa_type sticky_mask = round_mask - 1;
+					sticky							= (mantissa & sticky_mask) != 0;
+				}
 
 				out_mantissa = static_cast<StorageType>(mantissa >> static_cast<std::size_t>(extra_fraction_len));
 			}
@@ -418,7 +422,7 @@ namespace ccm::types
 						 .get_val();
 
 			mantissa_type round_mask  = (shift - 1) >= mantissa_type::BITS ? mantissa_type(0) : mantissa_type(1) << (shift - 1);
-			mantissa_type sticky_mask = round_mask - mantissa_type(1);
+			mantissa_type sticky_mask = shift == 0 ? mantissa_type(0) : round_mask - mantissa_type(1);
 
 			const bool round_bit  = !(mantissa & round_mask).is_zero();
 			const bool sticky_bit = !(mantissa & sticky_mask).is_zero();
-- 
2.43.0


From 9d14ec0840f096a824eb86da3a129d37ec74d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 40/59] fix: next_toward_inf makes an invalid 80-bit encoding
 at binade ends

---
 include/ccmath/internal/support/fp/fp_bits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fp/fp_bits.hpp b/include/ccmath/internal/support/fp/fp_bits.hpp
index eb9278d..e104386 100644
--- a/include/ccmath/internal/support/fp/fp_bits.hpp
+++ b/include/ccmath/internal/support/fp/fp_bits.hpp
@@ -546,7 +546,7 @@ namespace ccm::support::fp
 				{
 					if (exp_sig_bits() == max_normal().uintval()) { return inf(sign()); }
 					if (exp_sig_bits() == max_subnormal().uintval()) { return min_normal(sign()); }
-					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::zero())); }
+					if (sig_bits() == significand_mask) { return RetT(encode(sign(), ++biased_exponent(), Significand::msb())); }
 					return RetT(bits + static_cast<storage_type>(1));
 				}
 				return RetT(bits);
-- 
2.43.0


From 8d84b2d842e6ecfdb9b7ddb8fea6adeb36b1a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 41/59] fix: assignment between SIMD lane proxies rebinds the
 proxy

---
 include/ccmath/internal/math/runtime/pp/reference.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ccmath/internal/math/runtime/pp/reference.hpp b/include/ccmath/internal/math/runtime/pp/reference.hpp
index 4236fdf..654b478 100644
--- a/include/ccmath/internal/math/runtime/pp/reference.hpp
+++ b/include/ccmath/internal/math/runtime/pp/reference.hpp
@@ -32,6 +32,14 @@ namespace ccm::pp::detail
 
 		SimdReference(SimdReference const &) = default;
 
+		// Assigning one lane proxy to another writes the value (a[i] = b[j]); it must
+		// not rebind the proxy.
+		CCM_ALWAYS_INLINE SimdReference &operator=(SimdReference const &other)
+		{
+			Traits::set(*data_, index_, static_cast<T>(other));
+			return *this;
+		}
+
 		CCM_ALWAYS_INLINE operator T() const { return Traits::get(*data_, index_); } // NOLINT(google-explicit-constructor)
 
 		CCM_ALWAYS_INLINE SimdReference &operator=(T value)
-- 
2.43.0


From 667c85eff40cb0dc6378360125c392ef5d4c72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 42/59] fix: where-division of integers traps on a zero divisor
 in an unselected lane

---
 include/ccmath/internal/math/runtime/pp/where.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/runtime/pp/where.hpp b/include/ccmath/internal/math/runtime/pp/where.hpp
index 01660b9..2e08426 100644
--- a/include/ccmath/internal/math/runtime/pp/where.hpp
+++ b/include/ccmath/internal/math/runtime/pp/where.hpp
@@ -45,7 +45,10 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE void operator+=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ + rhs, *data_); }
 		CCM_ALWAYS_INLINE void operator-=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ - rhs, *data_); }
 		CCM_ALWAYS_INLINE void operator*=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ * rhs, *data_); }
-		CCM_ALWAYS_INLINE void operator/=(SimdType const& rhs) { *data_ = simd_select(mask_, *data_ / rhs, *data_); }
+		// Only the selected lanes are divided: an unselected lane must not trap on a
+		// zero divisor (or on the most negative integer over -1).
+		CCM_ALWAYS_INLINE void operator/=(SimdType const& rhs)
+		{ *data_ = simd_select(mask_, *data_ / simd_select(mask_, rhs, SimdType(value_type(1))), *data_); }
 
 		// Masked load: read only the selected lanes from memory, leave the rest.
 		template <typename Flags = simd_flags<>>
-- 
2.43.0


From c5290fbbc8b216efacc67a8d74a90b04d90e93b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 43/59] fix: array-backed SIMD vectors next to intrinsic ones
 do not compile

---
 .../internal/math/runtime/pp/vec_ext.hpp      | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
index d9f93eb..5bd1df0 100644
--- a/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
+++ b/include/ccmath/internal/math/runtime/pp/vec_ext.hpp
@@ -317,13 +317,30 @@ namespace ccm::pp
 		{ return reinterpret_cast<MaskMember>(c); }
 	};
 #else // CCM_PP_HAS_VECTOR_EXT == 0 : portable array fallback
+	namespace detail
+	{
+		// Masks are shared by all element types of one size, so their storage is that
+		// of the mask integer's own traits (which may be an intrinsic type).
+		template <typename T, typename MaskInt, SimdSizeType N>
+		struct array_mask_member
+		{
+			using type = typename SimdTraits<MaskInt, VecAbi<N>>::MaskMember;
+		};
+		template <typename MaskInt, SimdSizeType N>
+		struct array_mask_member<MaskInt, MaskInt, N>
+		{
+			using type = std::array<MaskInt, static_cast<std::size_t>(N)>;
+		};
+	} // namespace detail
+
 	template <typename T, detail::SimdSizeType N>
 	struct SimdTraits<T, VecAbi<N>>
 	{
 		using value_type						   = T;
 		using MaskInt							   = detail::mask_integer_from<sizeof(T)>;
 		using SimdMember						   = std::array<T, static_cast<std::size_t>(N)>;
-		using MaskMember						   = std::array<MaskInt, static_cast<std::size_t>(N)>;
+		using MaskTraits						   = SimdTraits<MaskInt, VecAbi<N>>;
+		using MaskMember						   = typename detail::array_mask_member<T, MaskInt, N>::type;
 		static constexpr detail::SimdSizeType size = N;
 		static constexpr std::size_t simd_align	   = alignof(SimdMember);
 		static constexpr std::size_t mask_align	   = alignof(MaskMember);
@@ -366,8 +383,8 @@ namespace ccm::pp
 	#define CCM_PP_ARRAY_CMP(NAME, OP)                                                                                                                         \
 		CCM_ALWAYS_INLINE static MaskMember NAME(SimdMember a, SimdMember b)                                                                                   \
 		{                                                                                                                                                      \
-			MaskMember r;                                                                                                                                      \
-			detail::unroll<N>([&](auto i) { r[i] = (a[i] OP b[i]) ? static_cast<MaskInt>(-1) : MaskInt{ 0 }; });                                               \
+			MaskMember r{};                                                                                                                                    \
+			detail::unroll<N>([&](auto i) { MaskTraits::mset(r, i, a[i] OP b[i]); });                                                                          \
 			return r;                                                                                                                                          \
 		}
 		CCM_PP_ARRAY_CMP(eq, ==)
@@ -434,7 +451,7 @@ namespace ccm::pp
 		CCM_ALWAYS_INLINE static SimdMember select(MaskMember m, SimdMember a, SimdMember b)
 		{
 			SimdMember r;
-			detail::unroll<N>([&](auto i) { r[i] = (m[i] != 0) ? a[i] : b[i]; });
+			detail::unroll<N>([&](auto i) { r[i] = MaskTraits::mget(m, i) ? a[i] : b[i]; });
 			return r;
 		}
 
@@ -460,17 +477,17 @@ namespace ccm::pp
 		}
 
 		template <typename U>
-		CCM_ALWAYS_INLINE static std::array<U, static_cast<std::size_t>(N)> convert(SimdMember v)
+		CCM_ALWAYS_INLINE static typename SimdTraits<U, VecAbi<N>>::SimdMember convert(SimdMember v)
 		{
-			std::array<U, static_cast<std::size_t>(N)> r;
-			detail::unroll<N>([&](auto i) { r[i] = static_cast<U>(v[i]); });
+			typename SimdTraits<U, VecAbi<N>>::SimdMember r{};
+			detail::unroll<N>([&](auto i) { SimdTraits<U, VecAbi<N>>::set(r, i, static_cast<U>(v[i])); });
 			return r;
 		}
 		template <typename U>
-		CCM_ALWAYS_INLINE static std::array<U, static_cast<std::size_t>(N)> bitcast(SimdMember v)
+		CCM_ALWAYS_INLINE static typename SimdTraits<U, VecAbi<N>>::SimdMember bitcast(SimdMember v)
 		{
-			std::array<U, static_cast<std::size_t>(N)> r;
-			std::memcpy(r.data(), v.data(), sizeof(r));
+			typename SimdTraits<U, VecAbi<N>>::SimdMember r;
+			std::memcpy(&r, v.data(), sizeof(r));
 			return r;
 		}
 
-- 
2.43.0


From 06c8e0a9ee4410dd96d6581c28888e2ef85f8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 44/59] fix: parse_bigint does not compile

---
 include/ccmath/internal/support/integer_literals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/integer_literals.hpp b/include/ccmath/internal/support/integer_literals.hpp
index 441ec8c..37252df 100644
--- a/include/ccmath/internal/support/integer_literals.hpp
+++ b/include/ccmath/internal/support/integer_literals.hpp
@@ -212,7 +212,7 @@ namespace ccm::support
 			auto positive = internal::parse_with_prefix<T>(view.substr(1).data());
 			return view[0] == '-' ? -positive : positive;
 		}
-		return internal::parse_with_prefix<T>(view);
+		return internal::parse_with_prefix_internal<T>(view);
 	}
 
 	template <typename T>
-- 
2.43.0


From 65bda7b84a8da0264fdb70e35bde0152846895d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 45/59] fix: rotl negates the most negative count

---
 include/ccmath/internal/support/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index a7700b9..9f969f0 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -198,7 +198,8 @@ namespace ccm::support
 			else if constexpr (std::is_same_v<T, std::uint64_t>) { return _rotl64(t, cnt); }
 		}
 #endif
-		return rotr(t, -cnt);
+		// Reduced first, as the most negative count has no negation
+		return rotr(t, -(cnt % std::numeric_limits<T>::digits));
 	}
 
 // Macro to allow simplified creation of specializations
-- 
2.43.0


From 0aaf54b45ffc26253ec65e7197f4b9c19fcdcc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 46/59] fix: portable popcount masks before it subtracts

---
 include/ccmath/internal/support/bits.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 9f969f0..5e21761 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -431,10 +431,10 @@ namespace ccm::support
 
 	constexpr int popcount(unsigned short n)
 	{
-		n = n - (n >> 1) & 0x5555;
-		n = (n & 0x3333) + (n >> 2) & 0x3333;
+		n = n - ((n >> 1) & 0x5555);
+		n = (n & 0x3333) + ((n >> 2) & 0x3333);
 		n = (n + (n >> 4)) & 0x0F0F;
-		return (n * 0x0101) >> 16;
+		return ((n * 0x0101) >> 8) & 0xFF;
 	}
 
 	constexpr int popcount(unsigned int n)
@@ -442,17 +442,17 @@ namespace ccm::support
 		// int can be 32 or 16 bits, so we need to check.
 		if constexpr (constexpr int bits = std::numeric_limits<unsigned int>::digits; bits == 32) // 32 bit int
 		{
-			n = n - (n >> 1) & 0x55555555;
-			n = (n & 0x33333333) + (n >> 2) & 0x33333333;
+			n = n - ((n >> 1) & 0x55555555);
+			n = (n & 0x33333333) + ((n >> 2) & 0x33333333);
 			n = (n + (n >> 4)) & 0x0F0F0F0F;
 			return (n * 0x01010101) >> 24;
 		}
 		else // 16 bit int
 		{
-			n = n - (n >> 1) & 0x5555;
-			n = (n & 0x3333) + (n >> 2) & 0x3333;
+			n = n - ((n >> 1) & 0x5555);
+			n = (n & 0x3333) + ((n >> 2) & 0x3333);
 			n = (n + (n >> 4)) & 0x0F0F;
-			return (n * 0x0101) >> 16;
+			return (n * 0x0101) >> 8;
 		}
 	}
 #endif
@@ -465,8 +465,8 @@ namespace ccm::support
 		// long can be 32 or 64 bits, so we need to check.
 		if constexpr (constexpr long bits = std::numeric_limits<unsigned long>::digits; bits == 32) // 32 bit long
 		{
-			n = n - (n >> 1) & 0x55555555;
-			n = (n & 0x33333333) + (n >> 2) & 0x33333333;
+			n = n - ((n >> 1) & 0x55555555);
+			n = (n & 0x33333333) + ((n >> 2) & 0x33333333);
 			n = (n + (n >> 4)) & 0x0F0F0F0F;
 			return (n * 0x01010101) >> 24;
 		}
-- 
2.43.0


From 3527826049ca92f78914f3f42c1b6efa480e7ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 47/59] fix: mixed float and integer arguments are promoted to
 double

---
 .../ccmath/internal/math/common/basic/fma.hpp | 23 ++++++++-----------
 include/ccmath/math/basic/max.hpp             |  5 ++--
 include/ccmath/math/basic/remquo.hpp          |  6 ++---
 3 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/include/ccmath/internal/math/common/basic/fma.hpp b/include/ccmath/internal/math/common/basic/fma.hpp
index d5a97f6..9fee92a 100644
--- a/include/ccmath/internal/math/common/basic/fma.hpp
+++ b/include/ccmath/internal/math/common/basic/fma.hpp
@@ -45,21 +45,18 @@ namespace ccm
 	 * @return If successful, returns the value of x * y + z as if calculated to infinite precision and rounded once to fit the result type (or, alternatively,
 	 * calculated as a single ternary floating-point operation).
 	 */
-	template <typename T, typename U, typename V>
+	template <typename T,
+			  typename U,
+			  typename V,
+			  std::enable_if_t<std::is_arithmetic_v<T> && std::is_arithmetic_v<U> && std::is_arithmetic_v<V> &&
+								   !(std::is_integral_v<T> && std::is_integral_v<U> && std::is_integral_v<V>),
+							   bool> = true>
 	constexpr auto fma(T x, U y, V z) noexcept
 	{
-		constexpr auto TCommon = std::numeric_limits<T>::epsilon() > 0 ? std::numeric_limits<T>::epsilon() : 1;
-		constexpr auto UCommon = std::numeric_limits<U>::epsilon() > 0 ? std::numeric_limits<U>::epsilon() : 1;
-		constexpr auto VCommon = std::numeric_limits<V>::epsilon() > 0 ? std::numeric_limits<V>::epsilon() : 1;
-
-		using epsilon_type = std::common_type_t<decltype(TCommon), decltype(UCommon), decltype(VCommon)>;
-
-		using shared_type = std::conditional_t<
-			TCommon <= std::numeric_limits<epsilon_type>::epsilon() && TCommon <= UCommon,
-			T,
-			std::conditional_t<UCommon <= std::numeric_limits<epsilon_type>::epsilon() && UCommon <= TCommon,
-							   U,
-							   std::conditional_t<VCommon <= std::numeric_limits<epsilon_type>::epsilon() && VCommon <= UCommon, V, epsilon_type>>>;
+		// An integer argument counts as a double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>,
+											   std::conditional_t<std::is_integral_v<U>, double, U>,
+											   std::conditional_t<std::is_integral_v<V>, double, V>>;
 
 		return ccm::fma<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
diff --git a/include/ccmath/math/basic/max.hpp b/include/ccmath/math/basic/max.hpp
index a87e8f6..462d0e5 100644
--- a/include/ccmath/math/basic/max.hpp
+++ b/include/ccmath/math/basic/max.hpp
@@ -88,9 +88,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmax(T x, U y) noexcept
 	{
-		// Find the common type of the two arguments, two different integer types promote to double
-		using common_type = std::common_type_t<T, U>;
-		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
+		// Find the common type of the two arguments, an integer argument counts as a double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(max<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/basic/remquo.hpp b/include/ccmath/math/basic/remquo.hpp
index b267e73..c585993 100644
--- a/include/ccmath/math/basic/remquo.hpp
+++ b/include/ccmath/math/basic/remquo.hpp
@@ -87,9 +87,9 @@ namespace ccm
 	template <class Arithmetic1, class Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto remquo(Arithmetic1 x, Arithmetic2 y, int * quo)
 	{
-		// Two integers have an integral common type and are promoted to double
-		using common_type = std::common_type_t<Arithmetic1, Arithmetic2>;
-		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
+		// An integer argument counts as a double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
 		return ccm::remquo<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y), quo);
 	}
 
-- 
2.43.0


From f3235132a6d807c8bfad90e1875c23db96bca1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 48/59] fix: fmin and three-argument hypot promote integers
 next to a float to double

---
 include/ccmath/math/basic/min.hpp   | 5 ++---
 include/ccmath/math/power/hypot.hpp | 5 +++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index 82ef58d..bc67510 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -87,9 +87,8 @@ namespace ccm
 	template <typename T, typename U>
 	constexpr auto fmin(const T x, const U y) noexcept
 	{
-		// Find the common type of the two arguments, two different integer types promote to double
-		using common_type = std::common_type_t<T, U>;
-		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
+		// Find the common type of the two arguments, an integer argument counts as a double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		// Then cast the arguments to the common type and call the single argument version
 		return static_cast<shared_type>(min<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y)));
diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index c7f35ab..92b3963 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -75,8 +75,9 @@ namespace ccm
 			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && std::is_arithmetic_v<Arithmetic3>, bool> = true>
 	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y, Arithmetic3 z) noexcept
 	{
-		using common_type = std::common_type_t<Arithmetic1, Arithmetic2, Arithmetic3>;
-		using shared_type = std::conditional_t<std::is_integral_v<common_type>, double, common_type>;
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>,
+											   std::conditional_t<std::is_integral_v<Arithmetic3>, double, Arithmetic3>>;
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
-- 
2.43.0


From e91bec48fb26d40c11c8e92ee14846fd6da4bc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 49/59] fix: mixed, integral and suffixed overloads that
 <cmath> provides are missing

---
 include/ccmath/math/basic/fdim.hpp         | 13 +++++++------
 include/ccmath/math/basic/min.hpp          | 20 ++++++++++++++++++++
 include/ccmath/math/basic/remainder.hpp    | 19 +++++++++++++++++++
 include/ccmath/math/compare/fpclassify.hpp | 10 ++++++++++
 include/ccmath/math/fmanip/copysign.hpp    | 19 +++++++++++++++++++
 include/ccmath/math/fmanip/ilogb.hpp       | 10 ++++++++++
 include/ccmath/math/fmanip/logb.hpp        | 10 ++++++++++
 include/ccmath/math/power/cbrt.hpp         | 10 ++++++++++
 include/ccmath/math/power/hypot.hpp        | 21 +++++++++++++++++++++
 include/ccmath/math/trig/atan2.hpp         | 21 +++++++++++++++++++++
 10 files changed, 147 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/math/basic/fdim.hpp b/include/ccmath/math/basic/fdim.hpp
index d0bcdb9..f6a42ce 100644
--- a/include/ccmath/math/basic/fdim.hpp
+++ b/include/ccmath/math/basic/fdim.hpp
@@ -38,17 +38,18 @@ namespace ccm
 
 	/**
 	 * @brief Computes the positive difference of two floating point values (max(0,x−y))
-	 * @tparam T A floating-point type.
-	 * @tparam U A floating-point type.
-	 * @param x A floating-point value.
-	 * @param y A floating-point value.
+	 * @tparam T A floating-point or integral type.
+	 * @tparam U A floating-point or integral type.
+	 * @param x A floating-point or integer value.
+	 * @param y A floating-point or integer value.
 	 * @return If successful, returns the positive difference between x and y.
 	 * @see https://en.cppreference.com/w/cpp/numeric/math/fdim
 	 */
-	template <typename T, typename U, std::enable_if_t<std::is_floating_point_v<T> && std::is_floating_point_v<U>, bool> = true>
+	template <typename T, typename U, std::enable_if_t<std::is_arithmetic_v<T> && std::is_arithmetic_v<U> && !std::is_same_v<T, U>, bool> = true>
 	constexpr auto fdim(T x, U y)
 	{
-		using shared_type = std::common_type_t<T, U>;
+		// An integer argument counts as a double
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<T>, double, T>, std::conditional_t<std::is_integral_v<U>, double, U>>;
 
 		return ccm::fdim<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
 	}
diff --git a/include/ccmath/math/basic/min.hpp b/include/ccmath/math/basic/min.hpp
index bc67510..b455dac 100644
--- a/include/ccmath/math/basic/min.hpp
+++ b/include/ccmath/math/basic/min.hpp
@@ -105,6 +105,26 @@ namespace ccm
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr Integer fmin(const Integer x, const Integer y) noexcept
 	{ return min<Integer>(x, y); }
+
+	/**
+	 * @brief Computes the smaller of the two floating point values.
+	 * @param x Left-hand side of the comparison.
+	 * @param y Right-hand side of the comparison.
+	 * @return If successful, returns the smaller of two floating point values. The value returned is exact and does not depend on any rounding modes.
+	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
+	 */
+	constexpr float fminf(float x, float y) noexcept
+	{ return fmin<float>(x, y); }
+
+	/**
+	 * @brief Computes the smaller of the two floating point values.
+	 * @param x Left-hand side of the comparison.
+	 * @param y Right-hand side of the comparison.
+	 * @return If successful, returns the smaller of two floating point values. The value returned is exact and does not depend on any rounding modes.
+	 * @see https://en.cppreference.com/w/cpp/numeric/math/fmin
+	 */
+	constexpr long double fminl(long double x, long double y) noexcept
+	{ return fmin<long double>(x, y); }
 } // namespace ccm
 
 /// @ingroup basic
diff --git a/include/ccmath/math/basic/remainder.hpp b/include/ccmath/math/basic/remainder.hpp
index 43e6e82..7783f53 100644
--- a/include/ccmath/math/basic/remainder.hpp
+++ b/include/ccmath/math/basic/remainder.hpp
@@ -88,6 +88,25 @@ namespace ccm
 	constexpr double remainder(Integer x, Integer y)
 	{ return ccm::remainder<double>(static_cast<double>(x), static_cast<double>(y)); }
 
+	/**
+	 * @brief Computes the IEEE remainder of two values of different types.
+	 * @tparam Arithmetic1 Type of the first argument.
+	 * @tparam Arithmetic2 Type of the second argument.
+	 * @param x A floating-point or integer value.
+	 * @param y A floating-point or integer value.
+	 * @return The result in the common type of the arguments, where an integer counts as a double.
+	 * @see https://en.cppreference.com/w/cpp/numeric/math/remainder
+	 */
+	template <typename Arithmetic1,
+			  typename Arithmetic2,
+			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && !std::is_same_v<Arithmetic1, Arithmetic2>, bool> = true>
+	constexpr auto remainder(Arithmetic1 x, Arithmetic2 y)
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::remainder<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
+	}
+
 	/**
 	 * @brief Returns the remainder of the division of x by y.
 	 * @param x Dividend.
diff --git a/include/ccmath/math/compare/fpclassify.hpp b/include/ccmath/math/compare/fpclassify.hpp
index 977587a..45490d6 100644
--- a/include/ccmath/math/compare/fpclassify.hpp
+++ b/include/ccmath/math/compare/fpclassify.hpp
@@ -35,4 +35,14 @@ namespace ccm
 		if (ccm::abs(num) < std::numeric_limits<T>::min() && ccm::abs(num) > 0) { return ccm::support::helpers::floating_point_defines::eFP_SUBNORMAL; }
 		return ccm::support::helpers::floating_point_defines::eFP_NORMAL;
 	}
+
+	/**
+	 * @brief Categorizes an integer as zero or normal.
+	 * @tparam Integer An integral type.
+	 * @param num An integer value, converted to double.
+	 * @return The result for the value converted to double.
+	 */
+	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
+	constexpr int fpclassify(Integer num)
+	{ return ccm::fpclassify<double>(static_cast<double>(num)); }
 } // namespace ccm
diff --git a/include/ccmath/math/fmanip/copysign.hpp b/include/ccmath/math/fmanip/copysign.hpp
index 5d7bf3b..e77d0d6 100644
--- a/include/ccmath/math/fmanip/copysign.hpp
+++ b/include/ccmath/math/fmanip/copysign.hpp
@@ -58,6 +58,25 @@ namespace ccm
 	constexpr double copysign(Integer mag, Integer sgn)
 	{ return ccm::copysign<double>(static_cast<double>(mag), static_cast<double>(sgn)); }
 
+	/**
+	 * @brief Copies the sign of one value to the magnitude of another of a different type.
+	 * @tparam Arithmetic1 Type of the first argument.
+	 * @tparam Arithmetic2 Type of the second argument.
+	 * @param mag A floating-point or integer value.
+	 * @param sgn A floating-point or integer value.
+	 * @return The result in the common type of the arguments, where an integer counts as a double.
+	 * @see https://en.cppreference.com/w/cpp/numeric/math/copysign
+	 */
+	template <typename Arithmetic1,
+			  typename Arithmetic2,
+			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> && !std::is_same_v<Arithmetic1, Arithmetic2>, bool> = true>
+	constexpr auto copysign(Arithmetic1 mag, Arithmetic2 sgn)
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::copysign<shared_type>(static_cast<shared_type>(mag), static_cast<shared_type>(sgn));
+	}
+
 	/**
 	 * @brief Copies the sign of a floating point value.
 	 * @param mag A floating-point.
diff --git a/include/ccmath/math/fmanip/ilogb.hpp b/include/ccmath/math/fmanip/ilogb.hpp
index dc29685..94d802e 100644
--- a/include/ccmath/math/fmanip/ilogb.hpp
+++ b/include/ccmath/math/fmanip/ilogb.hpp
@@ -37,6 +37,16 @@ namespace ccm
 		}
 	}
 
+	/**
+	 * @brief Extracts the exponent of an integer.
+	 * @tparam Integer An integral type.
+	 * @param num An integer value, converted to double.
+	 * @return The result for the value converted to double.
+	 */
+	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
+	constexpr int ilogb(Integer num) noexcept
+	{ return ccm::ilogb<double>(static_cast<double>(num)); }
+
 	/**
 	 * @brief Extracts the unbiased integer exponent of a float.
 	 * @param num Floating-point value.
diff --git a/include/ccmath/math/fmanip/logb.hpp b/include/ccmath/math/fmanip/logb.hpp
index 218c20e..e3f5ced 100644
--- a/include/ccmath/math/fmanip/logb.hpp
+++ b/include/ccmath/math/fmanip/logb.hpp
@@ -37,6 +37,16 @@ namespace ccm
 		}
 	}
 
+	/**
+	 * @brief Extracts the exponent of an integer as a floating-point value.
+	 * @tparam Integer An integral type.
+	 * @param num An integer value, converted to double.
+	 * @return The result for the value converted to double.
+	 */
+	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
+	constexpr double logb(Integer num) noexcept
+	{ return ccm::logb<double>(static_cast<double>(num)); }
+
 	/**
 	 * @brief Extracts the unbiased exponent of a float.
 	 * @param num Floating-point value.
diff --git a/include/ccmath/math/power/cbrt.hpp b/include/ccmath/math/power/cbrt.hpp
index eb4f5f8..3cb7cd0 100644
--- a/include/ccmath/math/power/cbrt.hpp
+++ b/include/ccmath/math/power/cbrt.hpp
@@ -37,6 +37,16 @@ namespace ccm
 		}
 	}
 
+	/**
+	 * @brief Computes the cube root of an integer.
+	 * @tparam Integer An integral type.
+	 * @param num An integer value, converted to double.
+	 * @return The result for the value converted to double.
+	 */
+	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
+	constexpr double cbrt(Integer num) noexcept
+	{ return ccm::cbrt<double>(static_cast<double>(num)); }
+
 	/**
 	 * @brief Computes the cube root of a float.
 	 * @param num Floating-point value.
diff --git a/include/ccmath/math/power/hypot.hpp b/include/ccmath/math/power/hypot.hpp
index 92b3963..5204697 100644
--- a/include/ccmath/math/power/hypot.hpp
+++ b/include/ccmath/math/power/hypot.hpp
@@ -81,6 +81,27 @@ namespace ccm
 		return ccm::hypot(static_cast<shared_type>(x), static_cast<shared_type>(y), static_cast<shared_type>(z));
 	}
 
+	/**
+	 * @brief Computes the length of the hypotenuse from two integer coordinates, or from coordinates of different types.
+	 * @tparam Arithmetic1 Type of the first value.
+	 * @tparam Arithmetic2 Type of the second value.
+	 * @param x First value.
+	 * @param y Second value.
+	 * @return sqrt(x*x + y*y) in the common type of the arguments, where an integer counts as a double.
+	 * @see https://en.cppreference.com/w/cpp/numeric/math/hypot
+	 */
+	template <typename Arithmetic1,
+			  typename Arithmetic2,
+			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> &&
+								   (std::is_integral_v<Arithmetic1> || !std::is_same_v<Arithmetic1, Arithmetic2>),
+							   bool> = true>
+	constexpr auto hypot(Arithmetic1 x, Arithmetic2 y) noexcept
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::hypot<shared_type>(static_cast<shared_type>(x), static_cast<shared_type>(y));
+	}
+
 	/**
 	 * @brief Computes the hypotenuse for float values.
 	 * @param x First value.
diff --git a/include/ccmath/math/trig/atan2.hpp b/include/ccmath/math/trig/atan2.hpp
index de4598c..b7b5c35 100644
--- a/include/ccmath/math/trig/atan2.hpp
+++ b/include/ccmath/math/trig/atan2.hpp
@@ -46,6 +46,27 @@ namespace ccm
 		}
 	}
 
+	/**
+	 * @brief Computes the arc tangent of y/x for integers or for values of different types.
+	 * @tparam Arithmetic1 Type of the first argument.
+	 * @tparam Arithmetic2 Type of the second argument.
+	 * @param y A floating-point or integer value.
+	 * @param x A floating-point or integer value.
+	 * @return The result in the common type of the arguments, where an integer counts as a double.
+	 * @see https://en.cppreference.com/w/cpp/numeric/math/atan2
+	 */
+	template <typename Arithmetic1,
+			  typename Arithmetic2,
+			  std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2> &&
+								   (std::is_integral_v<Arithmetic1> || !std::is_same_v<Arithmetic1, Arithmetic2>),
+							   bool> = true>
+	constexpr auto atan2(Arithmetic1 y, Arithmetic2 x)
+	{
+		using shared_type = std::common_type_t<std::conditional_t<std::is_integral_v<Arithmetic1>, double, Arithmetic1>,
+											   std::conditional_t<std::is_integral_v<Arithmetic2>, double, Arithmetic2>>;
+		return ccm::atan2<shared_type>(static_cast<shared_type>(y), static_cast<shared_type>(x));
+	}
+
 	/**
 	 * @brief Computes two-argument arc tangent for float inputs.
 	 * @param y Numerator component.
-- 
2.43.0


From f89992161a0fc304674bf0840ac81d7116964128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 50/59] fix: packed pow is not bit identical to the scalar
 kernel under contraction

---
 .../func/power/pow_impl/pow_simd_impl.hpp     | 26 ++++---------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index 61327ef..b604197 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -56,30 +56,14 @@ namespace ccm::gen::impl
 			return v_exact_add(r.hi, r.lo + (a.lo + b.lo));
 		}
 
-		// Veltkamp's splitting.
-		template <typename Abi>
-		CCM_ALWAYS_INLINE VDD<Abi> v_split(pp::basic_simd<double, Abi> const & a) noexcept
-		{
-			using DVec = pp::basic_simd<double, Abi>;
-			const DVec c(0x1.0p27 + 1.0);
-			const DVec t1 = c * a;
-			const DVec t2 = a - t1;
-			const DVec hi = t1 + t2;
-			return { hi, a - hi };
-		}
-
-		// Dekker's product, mirroring types::exact_mult.
+		// Product with its exact residual, as types::exact_mult. This path is only built for FMA targets, where one
+		// fused operation gives the residual. The rounded product must not be contracted into a later addition.
 		template <typename Abi>
 		CCM_ALWAYS_INLINE VDD<Abi> v_exact_mult(pp::basic_simd<double, Abi> const & a, pp::basic_simd<double, Abi> const & b) noexcept
 		{
-			using DVec		  = pp::basic_simd<double, Abi>;
-			const VDD<Abi> as = v_split(a);
-			const VDD<Abi> bs = v_split(b);
-			const DVec hi	  = a * b;
-			const DVec t1	  = as.hi * bs.hi - hi;
-			const DVec t2	  = as.hi * bs.lo + t1;
-			const DVec t3	  = as.lo * bs.hi + t2;
-			return { hi, as.lo * bs.lo + t3 };
+			using DVec = pp::basic_simd<double, Abi>;
+			const DVec hi([&](auto i) { return types::rounded_product(a[i], b[i]); });
+			return { hi, pp::fma(a, b, -hi) };
 		}
 
 		// types::quick_mult(double, DoubleDouble).
-- 
2.43.0


From c4d2a791027796a1cdf509bbb828c2603ac70c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 51/59] fix: packed pow raises spurious flags for NaN or huge
 exponents

---
 .../math/generic/func/power/pow_impl/pow_simd_impl.hpp     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
index b604197..956d432 100644
--- a/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
+++ b/include/ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp
@@ -148,8 +148,11 @@ namespace ccm::gen::impl
 			// zero exponent, base one, non-finite operands, zero, negative, or subnormal
 			// bases, integer and half-integer exponents (the exact ipow / sqrt paths), and
 			// huge exponents that take the clamped over/underflow route.
-			const DVec two_y	   = y * DVec(2.0);
-			const auto is_half_int = (sd::v_nearest_integer(two_y) == two_y) & (pp::abs(two_y) <= DVec(2048.0));
+			// Exponents that are too large for the exact paths are masked out first, a NaN or a huge
+			// exponent would raise an exception in the comparison or the doubling.
+			const auto small_y	   = y_abs <= U64(0x4090'0000'0000'0000ULL); // |y| <= 1024
+			const DVec two_y	   = pp::simd_select(small_y, y, DVec(0.25)) * DVec(2.0);
+			const auto is_half_int = sd::v_nearest_integer(two_y) == two_y;
 
 			auto special = (y_abs == U64(0)) | (xu == U64(0x3ff0'0000'0000'0000ULL)) | (x_abs >= U64(0x7ff0'0000'0000'0000ULL)) |
 						   (y_abs >= U64(0x7ff0'0000'0000'0000ULL)) | (x_abs == U64(0)) | ((xu & U64(0x8000'0000'0000'0000ULL)) != U64(0)) |
-- 
2.43.0


From 3c06ebfd0a6b73cd595741747db36cc7079b3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 52/59] fix: long double pow converts out-of-range exponents to
 an integer

---
 .../ccmath/internal/math/generic/func/power/powl_gen.hpp   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
index f18bf6e..10ef105 100644
--- a/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/power/powl_gen.hpp
@@ -287,11 +287,12 @@ namespace ccm::gen
 
 					if (support::is_constant_evaluated() && base > 0.0L && !ccm::isinf(base))
 					{
-						const long double rounded_exp = static_cast<long double>(static_cast<std::int64_t>(exp));
-						if (exp == rounded_exp)
+						// The conversion is only defined inside the bound, so test the range on the long double itself.
+						constexpr auto bound = static_cast<long double>(powl_bits::kBoundedExponentMax);
+						if (exp >= -bound && exp <= bound)
 						{
 							const std::int64_t int_exp = static_cast<std::int64_t>(exp);
-							if (int_exp >= -powl_bits::kBoundedExponentMax && int_exp <= powl_bits::kBoundedExponentMax)
+							if (exp == static_cast<long double>(int_exp))
 							{
 								// As below: trust the round trip only when it lands on a normal value.
 								const long double result = powl_bounded_integer(base, int_exp);
-- 
2.43.0


From c2cceb82e0115273df6256ec311b94f053e279c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 53/59] fix: scalar simd_mask operators do not compile

---
 .../internal/math/runtime/simd/instructions/scalar.hpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
index 3ad6f40..be2bc8e 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/scalar.hpp
@@ -31,9 +31,9 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE static constexpr int size() { return 1; }
 		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE explicit simd_mask(bool value) : m_value(value) {}
 		[[nodiscard]] CCM_GPU_HOST_DEVICE constexpr bool get() const { return m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return m_value || other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return m_value && other.m_value; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return !m_value; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator||(simd_mask const &other) const { return simd_mask(m_value || other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator&&(simd_mask const &other) const { return simd_mask(m_value && other.m_value); }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd_mask operator!() const { return simd_mask(!m_value); }
 
 	private:
 		bool m_value;
-- 
2.43.0


From f6dc96fffcb4ce0a799516dda5c54a588135f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:33 +0000
Subject: [PATCH 54/59] fix: simd_storage does not compile

---
 include/ccmath/internal/math/runtime/simd/common.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/common.hpp b/include/ccmath/internal/math/runtime/simd/common.hpp
index bf627b2..61d28dd 100644
--- a/include/ccmath/internal/math/runtime/simd/common.hpp
+++ b/include/ccmath/internal/math/runtime/simd/common.hpp
@@ -103,15 +103,15 @@ namespace ccm::intrin
 
 		CCM_ALWAYS_INLINE simd_storage() = default;
 		static constexpr int size() { return simd<T, Abi>::size(); }
-		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value, element_aligned_tag()); }
+		CCM_ALWAYS_INLINE explicit simd_storage(simd<T, Abi> const& value) { value.copy_to(m_value.data(), element_aligned_tag()); }
 		CCM_ALWAYS_INLINE explicit simd_storage(T value) : simd_storage(simd<T, Abi>(value)) {}
 		CCM_ALWAYS_INLINE simd_storage& operator=(simd<T, Abi> const& value)
 		{
-			value.copy_to(m_value, element_aligned_tag());
+			value.copy_to(m_value.data(), element_aligned_tag());
 			return *this;
 		}
 		CCM_ALWAYS_INLINE T const* data() const { return m_value.data(); }
-		CCM_ALWAYS_INLINE T* data() { return m_value; }
+		CCM_ALWAYS_INLINE T* data() { return m_value.data(); }
 		CCM_ALWAYS_INLINE T const& operator[](int i) const { return m_value[i]; }
 		CCM_ALWAYS_INLINE T& operator[](int i) { return m_value[i]; }
 
-- 
2.43.0


From e9f940d357f367d2cdc42fe67ef3ba730e37e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 55/59] fix: SIMD negation of +0 gives +0

---
 .../ccmath/internal/math/runtime/simd/instructions/avx2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
index 76d5993..bfc2d1a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/avx2.hpp
@@ -85,7 +85,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_ps(_mm256_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_ps(_mm256_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_ps(ptr, m_value); }
 		[[nodiscard]] constexpr __m256 get() const { return m_value; }
@@ -158,7 +158,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm256_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm256_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm256_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_sub_pd(_mm256_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE CCM_GPU_HOST_DEVICE simd operator-() const { return { _mm256_xor_pd(_mm256_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm256_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm256_storeu_pd(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m256d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index ecc6787..8a6a9d4 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -83,7 +83,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 8fd7123..4997c8a 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -84,7 +84,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_ps(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_ps(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_ps(_mm_set1_ps(0.0F), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_ps(_mm_set1_ps(-0.0F), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(float const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_ps(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(float *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_ps(ptr, m_value); }
 		[[nodiscard]] CCM_ALWAYS_INLINE constexpr __m128 get() const { return m_value; }
@@ -160,7 +160,7 @@ namespace ccm::intrin
 		CCM_ALWAYS_INLINE simd operator/(simd const &other) const { return { _mm_div_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator+(simd const &other) const { return { _mm_add_pd(m_value, other.m_value) }; }
 		CCM_ALWAYS_INLINE simd operator-(simd const &other) const { return { _mm_sub_pd(m_value, other.m_value) }; }
-		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_sub_pd(_mm_set1_pd(0.0), m_value) }; }
+		CCM_ALWAYS_INLINE simd operator-() const { return { _mm_xor_pd(_mm_set1_pd(-0.0), m_value) }; }
 		CCM_ALWAYS_INLINE void copy_from(double const *ptr, element_aligned_tag /*unused*/) { m_value = _mm_loadu_pd(ptr); }
 		CCM_ALWAYS_INLINE void copy_to(double *ptr, element_aligned_tag /*unused*/) const { _mm_storeu_pd(ptr, m_value); }
 		[[nodiscard]] constexpr __m128d get() const { return m_value; }
-- 
2.43.0


From 94c843964ec31ea549382062acdd42d6f4b4e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 56/59] fix: SIMD choose loses the sign of a selected -0

---
 .../ccmath/internal/math/runtime/simd/instructions/sse2.hpp   | 4 ++--
 .../ccmath/internal/math/runtime/simd/instructions/sse4.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
index 8a6a9d4..c96dcda 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse2.hpp
@@ -100,7 +100,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse2> choose(simd_mask<float, abi::sse2> const &a, simd<float, abi::sse2> const &b, simd<float, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse2>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse2>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse2> choose(simd_mask<double, abi::sse2> const &a, simd<double, abi::sse2> const &b, simd<double, abi::sse2> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse2>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse2>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
diff --git a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
index 4997c8a..21bf7c2 100644
--- a/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
+++ b/include/ccmath/internal/math/runtime/simd/instructions/sse4.hpp
@@ -101,7 +101,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<float, abi::sse4> choose(simd_mask<float, abi::sse4> const &a, simd<float, abi::sse4> const &b, simd<float, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<float, abi::sse4>(_mm_add_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
+		return simd<float, abi::sse4>(_mm_or_ps(_mm_and_ps(a.get(), b.get()), _mm_andnot_ps(a.get(), c.get())));
 	}
 
 	template <>
@@ -178,7 +178,7 @@ namespace ccm::intrin
 	CCM_ALWAYS_INLINE simd<double, abi::sse4> choose(simd_mask<double, abi::sse4> const &a, simd<double, abi::sse4> const &b, simd<double, abi::sse4> const &c)
 	{
 		// NOLINTNEXTLINE(modernize-return-braced-init-list)
-		return simd<double, abi::sse4>(_mm_add_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
+		return simd<double, abi::sse4>(_mm_or_pd(_mm_and_pd(a.get(), b.get()), _mm_andnot_pd(a.get(), c.get())));
 	}
 } // namespace ccm::intrin
 
-- 
2.43.0


From 8313b63e5fb5f517ab86d98e82b3ab49c56de9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 57/59] fix: set_errno_if_required is usable in constant
 expressions

Conversions and products that overflow or underflow were not constant expressions.
---
 include/ccmath/internal/support/fenv/fenv_support.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/support/fenv/fenv_support.hpp b/include/ccmath/internal/support/fenv/fenv_support.hpp
index 6f77cec..dc921ee 100644
--- a/include/ccmath/internal/support/fenv/fenv_support.hpp
+++ b/include/ccmath/internal/support/fenv/fenv_support.hpp
@@ -174,7 +174,7 @@ namespace ccm::support::fenv
 		return 0;
 	}
 
-	inline void set_errno_if_required(const int err)
+	constexpr void set_errno_if_required(const int err)
 	{
 		if (is_constant_evaluated()) { return; }
 		if constexpr (!is_errno_enabled()) { return; }
-- 
2.43.0


From 7ebd585015ff3aa9b8c989f69ffe23fd38e0caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 58/59] fix: nearest_integer of values whose ulp is one half,
 and just below one half in directed modes

---
 .../internal/support/fp/nearest_integer.hpp    | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/support/fp/nearest_integer.hpp b/include/ccmath/internal/support/fp/nearest_integer.hpp
index 0abbcce..8cc471b 100644
--- a/include/ccmath/internal/support/fp/nearest_integer.hpp
+++ b/include/ccmath/internal/support/fp/nearest_integer.hpp
@@ -22,8 +22,8 @@ namespace ccm::support::fp
 {
 	constexpr float nearest_integer(float x)
 	{
-		// Maximum float value that can be exactly represented as an integer
-		if (constexpr float float_max_exact_int = 0x1p24F; x < float_max_exact_int && x > -float_max_exact_int)
+		// Every value from here on is an integer already
+		if (constexpr float float_max_exact_int = 0x1p23F; x < float_max_exact_int && x > -float_max_exact_int)
 		{
 			constexpr float round_offset = 0x1.0p23F; // Offset used for rounding to nearest integer
 			// This expression is correct for the default rounding mode, round-to-nearest, tie-to-even.
@@ -34,10 +34,9 @@ namespace ccm::support::fp
 			{
 				constexpr float round_increment = 1.0F; // Increment for rounding correction
 				constexpr float round_threshold = 0.5F; // Threshold for correcting rounding modes at runtime
-				const float diff				= x - r;
 				// Correct for non-default rounding modes at runtime
-				if (CCM_UNLIKELY(diff > round_threshold)) { return r + round_increment; }
-				if (CCM_UNLIKELY(diff < -round_threshold)) { return r - round_increment; }
+				if (CCM_UNLIKELY(r + round_threshold < x)) { return r + round_increment; }
+				if (CCM_UNLIKELY(r - round_threshold > x)) { return r - round_increment; }
 			}
 			return r;
 		}
@@ -46,8 +45,8 @@ namespace ccm::support::fp
 
 	constexpr double nearest_integer(double x)
 	{
-		// Maximum float value that can be exactly represented as an integer
-		if (constexpr double float_max_exact_int = 0x1p53; x < float_max_exact_int && x > -float_max_exact_int)
+		// Every value from here on is an integer already
+		if (constexpr double float_max_exact_int = 0x1p52; x < float_max_exact_int && x > -float_max_exact_int)
 		{
 			constexpr double round_offset = 0x1.0p52; // Offset used for rounding to nearest integer
 			// This expression is correct for the default rounding mode, round-to-nearest, tie-to-even.
@@ -58,10 +57,9 @@ namespace ccm::support::fp
 			{
 				constexpr double round_increment = 1.0F; // Increment for rounding correction
 				constexpr double round_threshold = 0.5F; // Threshold for correcting rounding modes at runtime
-				const double diff				 = x - r;
 				// Correct for non-default rounding modes at runtime
-				if (CCM_UNLIKELY(diff > round_threshold)) { return r + round_increment; }
-				if (CCM_UNLIKELY(diff < -round_threshold)) { return r - round_increment; }
+				if (CCM_UNLIKELY(r + round_threshold < x)) { return r + round_increment; }
+				if (CCM_UNLIKELY(r - round_threshold > x)) { return r - round_increment; }
 			}
 			return r;
 		}
-- 
2.43.0


From d4abe150349bd6fcff078347968fc247f24663ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:05 +0000
Subject: [PATCH 59/59] fix: software addition and subtraction with zeros,
 infinities, subnormals and mixed signs

x +- 0 returned the zero operand, mixed-sign results had the wrong sign when |y| > |x|, x - inf had the
wrong sign, subnormal operands were aligned by one bit too many, and the sticky bits were computed from
the storage width. The operations are now usable in constant expressions.
---
 .../internal/support/fp/ops/add_or_sub.hpp    | 44 ++++++++-----------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/include/ccmath/internal/support/fp/ops/add_or_sub.hpp b/include/ccmath/internal/support/fp/ops/add_or_sub.hpp
index e11549a..8f720e3 100644
--- a/include/ccmath/internal/support/fp/ops/add_or_sub.hpp
+++ b/include/ccmath/internal/support/fp/ops/add_or_sub.hpp
@@ -20,6 +20,7 @@
 #include "ccmath/internal/support/bits.hpp"
 #include "ccmath/internal/support/fenv/fenv_support.hpp"
 #include "ccmath/internal/support/fenv/rounding_mode.hpp"
+#include "ccmath/internal/support/fp/cast.hpp"
 #include "ccmath/internal/support/fp/fp_bits.hpp"
 #include "ccmath/internal/types/dyadic_float.hpp"
 
@@ -86,12 +87,18 @@ namespace ccm::support::fp::op
 				return OutFPBits::inf(x_bits.sign()).get_val();
 			}
 
-			if (y_bits.is_inf()) { return OutFPBits::inf(y_bits.sign()).get_val(); }
+			if (y_bits.is_inf())
+			{
+				const bool is_result_neg = y_bits.is_neg() != IsSub;
+				return OutFPBits::inf(is_result_neg ? types::Sign::NEG : types::Sign::POS).get_val();
+			}
 
 			if (x_bits.is_zero())
 			{
 				if (y_bits.is_zero())
 				{
+					// Zeros of the same effective sign keep it, opposite ones give the zero of the rounding mode.
+					if (is_effectively_add) { return OutFPBits::zero(x_bits.sign()).get_val(); }
 					switch (fenv::get_rounding_mode())
 					{
 					case FE_DOWNWARD: return OutFPBits::zero(types::Sign::NEG).get_val();
@@ -99,19 +106,10 @@ namespace ccm::support::fp::op
 					}
 				}
 
-				// volatile prevents Clang from converting tmp to OutType and then
-				// immediately back to InType before negating it, resulting in double
-				// rounding.
-				volatile InType tmp = y;
-				if constexpr (IsSub) { tmp = -tmp; }
-				return static_cast<OutType>(tmp);
-			}
-			if (y_bits.is_zero())
-			{
-				volatile InType tmp = y;
-				if constexpr (IsSub) { tmp = -tmp; }
-				return static_cast<OutType>(tmp);
+				return cast<OutType>(IsSub ? -y : y);
 			}
+
+			if (y_bits.is_zero()) { return cast<OutType>(x); }
 		}
 
 		InType x_abs = x_bits.abs().get_val();
@@ -126,20 +124,14 @@ namespace ccm::support::fp::op
 			}
 		}
 
-		types::Sign result_sign = types::Sign::POS;
-
-		if (x_abs > y_abs) { result_sign = x_bits.sign(); } // NOLINT(bugprone-branch-clone)
-		else if (x_abs < y_abs)
-		{
-			if (is_effectively_add) { result_sign = y_bits.sign(); }
-			else if (y_bits.is_pos()) { result_sign = types::Sign::NEG; }
-		}
-		else if (is_effectively_add) { result_sign = x_bits.sign(); }
+		// The operand of the larger magnitude decides the sign; a subtraction flips the sign of y.
+		types::Sign result_sign = x_bits.sign();
+		if (x_abs < y_abs && !is_effectively_add) { result_sign = x_bits.is_pos() ? types::Sign::NEG : types::Sign::POS; }
 
 		InFPBits max_bits(ccm::gen::max(x_abs, y_abs));
 		InFPBits min_bits(ccm::gen::min(x_abs, y_abs));
 
-		InStorageType result_mant;
+		InStorageType result_mant{};
 
 		if (max_bits.is_subnormal())
 		{
@@ -157,13 +149,13 @@ namespace ccm::support::fp::op
 		{
 			InStorageType max_mant = max_bits.get_explicit_mantissa() << guard_bits_length;
 			InStorageType min_mant = min_bits.get_explicit_mantissa() << guard_bits_length;
-			int alignment		   = max_bits.get_biased_exponent() - min_bits.get_biased_exponent();
+			int alignment		   = max_bits.get_explicit_exponent() - min_bits.get_explicit_exponent();
 
 			InStorageType aligned_min_mant = min_mant >> ccm::gen::min(alignment, result_mantissa_length);
 			bool aligned_min_mant_sticky   = false;
 
 			if (alignment <= 3) { aligned_min_mant_sticky = false; }
-			else if (alignment <= InFPBits::fraction_length + 3) { aligned_min_mant_sticky = (min_mant << (InFPBits::storage_length - alignment)) != 0; }
+			else if (alignment <= InFPBits::fraction_length + 3) { aligned_min_mant_sticky = (min_mant & ((InStorageType(1) << alignment) - 1)) != 0; }
 			else
 			{
 				aligned_min_mant_sticky = true;
@@ -178,7 +170,7 @@ namespace ccm::support::fp::op
 			}
 		}
 
-		int result_exp = max_bits.get_exponent() - result_fraction_length;
+		int result_exp = max_bits.get_explicit_exponent() - result_fraction_length;
 		DyadicFloat result(result_sign, result_exp, result_mant);
 		return result.template as<OutType, /*ShouldSignalExceptions=*/true>();
 	}
-- 
2.43.0

