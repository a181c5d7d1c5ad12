#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, one JSON object per line)."""
import json, os
M = "include/ccmath/math/"; I = "include/ccmath/internal/"; G = I + "math/generic/func/"; R = I + "math/runtime/"; X = "include/ccmath/ext/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["return value of the public ccm:: function"], hook_needed=None)))

p("C01", "Rounding functions return the exact integer for every input and mode",
  "For every finite float, double and long double, floor, ceil, trunc and round return the mathematically exact integer (round half away from zero), and rint and nearbyint return the integer selected by the current rounding mode. The sign of a zero result is the sign of the argument, infinities and NaNs pass through, integer arguments give their exact double value, and nearbyint never raises inexact. The answer is the same in run-time and constant evaluation (constant evaluation of rint and nearbyint rounds to nearest, ties to even).",
  ["inputs", "configurations"], "every bit pattern of every floating type, every integer argument type, the four rounding modes, both compilers, run time and constant evaluation",
  "The tests sample a few hundred values per function; a wrong mask or shift shows only for one exponent, one tie or one sign, and only on the path (builtin, bit manipulation, SIMD) that a configuration selects.",
  [M+"nearest/", G+"nearest/", R+"func/nearest/", I+"support/fp/nearest_integer.hpp"],
  [("mantissa masking by exponent", G+"nearest/trunc_gen.hpp"), ("rounding-mode dependent increment", G+"nearest/rint_gen.hpp"), ("run-time scalar truncation", R+"func/detail/trunc_scalar.hpp")])
p("C02", "Classification and comparison predicates follow IEEE 754 for every value",
  "For every value of every floating type exactly one of the five classes is reported by fpclassify, and isnan, isinf, isfinite, isnormal and signbit agree with it and with the bits. isless, islessequal, isgreater, isgreaterequal, islessgreater and isunordered agree with IEEE comparison for every pair, are false (isunordered true) when an operand is a NaN, and raise no floating-point exception for quiet NaNs. Integer arguments behave as the double of the same value.",
  ["inputs", "configurations"], "all bit patterns (signed zeros, subnormals, boundary exponents, quiet and signalling NaNs) and all ordered pairs of them, three floating types and the integer types",
  "The predicates partition the whole bit space; the tests touch one representative of each class and a handful of pairs.",
  [M+"compare/", G+"compare/", I+"support/helpers/fpclassify_helper.hpp"],
  [("bit-pattern classification", I+"support/helpers/fpclassify_helper.hpp"), ("generic comparison", G+"compare/")])
p("C03", "abs, copysign, fmin/fmax and fdim are exact on every pair of values",
  "abs and fabs clear exactly the sign bit; copysign takes the magnitude of its first and the sign of its second argument, including for zeros and NaNs. fmin/fmax (and min/max) return one of their arguments, the smaller/larger, and the other argument when exactly one is a NaN. fdim returns max(x-y,+0) correctly rounded (overflowing to infinity, NaN for a NaN argument), never a negative zero and never a spurious NaN for equal infinities.",
  ["inputs", "configurations"], "all values and all ordered pairs over the three floating types, and integer and mixed arguments",
  "Pairs of special values (infinities, opposite zeros, NaN on one side, near-overflow differences) are a quadratic space the tests sample at a few points per type.",
  [M+"basic/", G+"basic/", M+"fmanip/copysign.hpp"],
  [("NaN-aware selection", G+"basic/max_gen.hpp"), ("guarded difference", G+"basic/fdim_gen.hpp"), ("sign-bit transfer", G+"fmanip/copysign_gen.hpp")])
p("C04", "frexp, modf, logb and ilogb decompose every value exactly",
  "For every finite non-zero value, frexp returns a fraction in [0.5,1) and an exponent that rebuild the argument exactly, modf returns an integral and a fractional part that carry the argument's sign and add up to it exactly, and logb and ilogb return the exponent of the leading bit, subnormals included. Zeros, infinities and NaNs give the values the C standard prescribes (ilogb: FP_ILOGB0, INT_MAX, FP_ILOGBNAN).",
  ["inputs", "configurations"], "every value of float, double and long double, run time and constant evaluation, both compilers",
  "Subnormals have one normalisation path per leading-zero count and each floating type has its own bit layout; tests check a few of them.",
  [M+"fmanip/", G+"fmanip/", R+"func/fmanip/"],
  [("subnormal normalisation", G+"fmanip/impl/frexp_impl.hpp"), ("leading-zero exponent", G+"fmanip/impl/ilogb_impl.hpp"), ("integral mask", M+"fmanip/impl/modf_impl.hpp")])
p("C05", "ldexp, scalbn and scalbln scale by a power of two with a single rounding",
  "ldexp, scalbn and scalbln return x times two to the n rounded exactly once to nearest even, for every value and every int or long exponent. The result overflows to a signed infinity or underflows to a signed zero or subnormal exactly when the scaled value does; zeros, infinities and NaNs are returned unchanged whatever the exponent.",
  ["inputs", "configurations"], "every value crossed with every exponent in the range where the result changes, and extreme exponents of the parameter type, three floating types, run time and constant evaluation",
  "Double rounding into the subnormal range needs a particular mantissa tail and a particular exponent together; the tests use round mantissas and modest exponents.",
  [M+"fmanip/scalbn.hpp", M+"fmanip/ldexp.hpp", M+"fmanip/impl/", G+"fmanip/", I+"support/helpers/internal_ldexp.hpp"],
  [("two-step scaling with clamped exponents", M+"fmanip/impl/scalbn_double_impl.hpp"), ("long to int clamp", M+"fmanip/scalbn.hpp"), ("rounding of the shifted mantissa", G+"fmanip/ldexp_gen.hpp")])
p("C06", "nextafter, nexttoward, nextup and nextdown step exactly one representable value",
  "For x different from y, nextafter and nexttoward return the representable neighbour of x in the direction of y with nothing in between, crossing zero to the smallest subnormal of the right sign and stepping to and from infinity; for equal arguments they return y, and a NaN if either argument is a NaN. nextup and nextdown are the neighbours towards plus and minus infinity. nexttoward compares in long double, so a direction that is not representable in the type of x still counts, and mixed or integer arguments act as if promoted.",
  ["inputs", "configurations"], "every value with every direction (including directions a fraction of an ulp away), three floating types, integer and mixed arguments, run time and constant evaluation",
  "Carries across binades, the zero crossing and the long double explicit integer bit are single points in the space; tests hit some for one type.",
  [M+"fmanip/nextafter.hpp", M+"fmanip/nexttoward.hpp", M+"fmanip/nextup.hpp", M+"fmanip/nextdown.hpp", G+"fmanip/nextafter_gen.hpp"],
  [("ordered integer increment of the bit pattern", G+"fmanip/nextafter_gen.hpp"), ("80-bit specialisation", G+"fmanip/nextafter_gen.hpp")])
p("C07", "fmod, remainder and remquo are exact for every pair",
  "For finite x and non-zero y, fmod returns exactly x - n*y with n the truncated quotient and the sign of x, and remainder and remquo return exactly x - n*y with n the quotient rounded to nearest even, however far apart the exponents are. remquo also delivers the sign and at least the low three bits of that n. Invalid arguments (infinite x, zero y) give NaN, an infinite y returns x, and run-time and constant evaluation agree (long double remquo is documented to be evaluated in double and is outside this property).",
  ["inputs", "configurations"], "all ordered pairs of values, quotients from below one to 2^2098, halfway quotients, integer and mixed arguments, run time and constant evaluation, both compilers",
  "The number of reduction steps depends on the exponent gap of the pair; constant evaluation runs a different algorithm that tests only touch with small quotients.",
  [M+"basic/fmod.hpp", M+"basic/remainder.hpp", M+"basic/remquo.hpp", M+"basic/impl/", G+"basic/"],
  [("shift-subtract reduction", G+"basic/fmod_gen.hpp"), ("halfway correction", G+"basic/remainder_gen.hpp"), ("quotient bits", G+"basic/remquo_impl/")])
p("C08", "fma rounds x*y+z exactly once in every rounding mode",
  "For all finite arguments fma returns the exact value of x*y+z rounded once in the current rounding mode: no intermediate overflow, no double rounding into the subnormal range, and the IEEE sign for exact zero sums. Infinities and NaNs follow IEEE rules. Constant evaluation gives the round-to-nearest result, whichever implementation (hardware, builtin, software) is used.",
  ["inputs", "configurations"], "all triples of values - in particular those with cancellation, sticky bits far below the result, and subnormal results - for float and double (and long double), four rounding modes, builtin and software path",
  "A misplaced sticky bit is visible only for triples whose product and addend overlap at one specific bit distance; tests use a few dozen hand-picked triples.",
  [M+"basic/fma.hpp", G+"basic/fma_gen.hpp", I+"support/fp/fma.hpp", R+"func/basic/fma_rt.hpp", I+"types/big_int.hpp"],
  [("wide-integer product, alignment and sticky bit", I+"support/fp/fma.hpp"), ("rounding-mode dispatch", R+"func/basic/fma_rt.hpp")])
p("C09", "sqrt is correctly rounded for every value",
  "sqrt returns the correctly rounded square root of every non-negative value of float, double and long double, subnormals included, in the current rounding mode at run time and in the configured one (to nearest by default) in constant evaluation. sqrt(-0) is -0, sqrt(+inf) is +inf, and every other negative value gives a NaN; integers are computed in double. The packed form returns the same bits lane by lane.",
  ["inputs", "configurations"], "all float bit patterns, every binade and leading mantissa pattern of double and long double together with values one step from perfect squares, run time, in-tree kernel and constant evaluation",
  "A square root that is wrong in the last place fails for isolated mantissas just beside a midpoint, which sampled tests do not contain.",
  [M+"power/sqrt.hpp", G+"power/sqrt_gen.hpp", R+"func/power/sqrt_rt.hpp", R+"simd/func/sqrt.hpp"],
  [("digit recurrence with final rounding decision", G+"power/sqrt_gen.hpp"), ("explicit-bit 80-bit variant", G+"power/sqrt_gen.hpp")])
p("C10", "pow is correctly rounded and follows the IEEE special-value table",
  "For float and double the in-tree pow (constant evaluation under Clang, the deterministic mode, and run time in a directed rounding mode) returns the exact power correctly rounded in the current rounding mode, overflow, underflow and subnormal results included; only where the exact power lies within 2^-40 of a unit in the last place of a rounding boundary (in particular is exactly representable with a fractional exponent) may it return either neighbour; building for a target with fused multiply-add changes nothing. The default run-time pow is within one ulp to nearest, and long double pow within two ulp plus a quarter ulp per binary order of the result. Every zero, infinity, NaN, one and odd/even-integer combination gives the C standard's value and sign, and integer and mixed arguments behave as if promoted.",
  ["inputs", "configurations"], "all base/exponent pairs over a structured alphabet of values (every binade, every reduction-table index, exactly representable powers, pairs at the overflow and underflow thresholds), four rounding modes, scalar and packed kernels",
  "The kernel has fast paths, an accurate path and an exactness path chosen by the operand; tests carry a few hundred hard pairs out of 2^128.",
  [M+"power/pow.hpp", G+"power/pow_gen.hpp", G+"power/pow_impl/", R+"func/power/pow_rt.hpp", R+"simd/func/pow.hpp"],
  [("extra-precision log/exp with rounding test", G+"power/pow_impl/pow_impl.hpp"), ("exact-case detection", G+"power/pow_impl/pow_impl.hpp"), ("float kernel", G+"power/pow_impl/powf_impl.hpp")])
p("C11", "exp, exp2 and expm1 are accurate over their whole range",
  "exp and exp2 are within 1 ulp, and expm1 within 1.5 ulp, of the exact value for every float and double argument in round-to-nearest at run time, and within 1.5 and 3 ulp in constant evaluation and deterministic mode. They overflow to +infinity, underflow gradually through the subnormals to +0 (expm1: to -1), keep the sign of zero for expm1, return exactly 1 (0 for expm1) at zero, and exp2 of an integer in range is the exact power of two.",
  ["inputs", "configurations"], "all 2^32 floats; every binade, leading mantissa pattern and threshold neighbourhood of double; all configurations of the dispatch",
  "Each table entry, polynomial segment and threshold covers its own slice of inputs; the tests sample some slices of some paths.",
  [M+"expo/exp.hpp", M+"expo/exp2.hpp", M+"expo/expm1.hpp", M+"expo/impl/", G+"expo/"],
  [("table lookup plus polynomial", M+"expo/impl/exp_double_impl.hpp"), ("special-range scaling", M+"expo/impl/exp_double_impl.hpp"), ("series around zero", M+"expo/impl/expm1_impl.hpp")])
p("C12", "log, log2, log10 and log1p are accurate over their whole range",
  "log and log2 are within 1.25 ulp (double: 1), log10 within 2.5 (double: 2.25) and log1p within 1.75 (double: 1.25; 3 in constant evaluation and deterministic mode) of the exact value for every positive float and double (log1p: above -1) in round-to-nearest, subnormals and arguments next to one included. log(1) is +0, zero gives -infinity, negative arguments give NaN, +infinity gives +infinity, log1p keeps signed zeros, and log2 of an exact power of two is the exact exponent.",
  ["inputs", "configurations"], "all 2^32 floats; every binade, reduction interval and near-one neighbourhood of double; all configurations of the dispatch",
  "Each of the 16 to 128 table intervals and the near-one polynomial is a separate case; the tests sample a fraction of the intervals for a fraction of the binades.",
  [M+"expo/log.hpp", M+"expo/log2.hpp", M+"expo/log10.hpp", M+"expo/log1p.hpp", M+"expo/impl/", G+"expo/"],
  [("interval table", M+"expo/impl/log_data.hpp"), ("near-one polynomial", M+"expo/impl/log_double_impl.hpp"), ("subnormal normalisation", M+"expo/impl/log2_double_impl.hpp")])
p("C13", "sin, cos and tan are accurate for every finite argument",
  "For every finite float and double, however large, sin, cos and tan are within 5 ulp of the exact value in deterministic mode, 10 ulp in constant evaluation and 1 ulp (tan: 2) at run time, where beyond 10^8 the platform library's double value is also accepted (round-to-nearest). Infinities and NaNs give NaN, sin and tan keep signed zeros, cos is exactly even, and sin and tan are exactly odd.",
  ["inputs", "configurations"], "all float bit patterns; every binade of double with structured mantissas, multiples of pi/2 and their neighbours, the hardest-to-reduce arguments; all configurations of the dispatch",
  "Range reduction has several regimes (no reduction, multi-part pi/2, full-width 2/pi words selected by the exponent); an error in one word shows only for the exponents that select it.",
  [M+"trig/sin.hpp", M+"trig/cos.hpp", M+"trig/tan.hpp", M+"trig/impl/", G+"trig/"],
  [("multi-part reduction", M+"trig/impl/sincos_double_impl.hpp"), ("large-argument reduction", M+"trig/impl/sincos_payne_hanek.hpp"), ("table and polynomial", M+"trig/impl/sincos_double_data.hpp")])
p("C14", "asin, acos, atan and atan2 are accurate and pick the right quadrant",
  "asin, acos and atan are within 1.25 ulp (double: 1), and atan2 within 2 ulp, of the exact value for every float and double in their domain (round-to-nearest) at run time, and all four within 5 ulp in constant evaluation and in deterministic mode. Outside [-1,1] asin and acos give NaN, asin and atan are odd and keep signed zeros, acos(1) is +0. atan2 returns the C standard's value and sign for every combination of signed zeros, infinities and quadrants.",
  ["inputs", "configurations"], "all floats; every binade and segment of double; all pairs over a structured alphabet for atan2; all configurations of the dispatch",
  "Segment boundaries, values next to 1 and the special pairs of atan2 are isolated points; tests sample a few hundred.",
  [M+"trig/asin.hpp", M+"trig/acos.hpp", M+"trig/atan.hpp", M+"trig/atan2.hpp", M+"trig/impl/inv_trig_impl.hpp", G+"trig/"],
  [("segmented polynomial", M+"trig/impl/inv_trig_impl.hpp"), ("quadrant table", G+"trig/atan2_gen.hpp")])
p("C15", "cbrt and hypot are accurate with no spurious overflow or underflow",
  "cbrt is within 5 ulp of the exact value for every float and double (2 ulp in the in-tree kernels), odd, and exact for signed zeros and infinities. hypot is within 3 ulp of the exact value for every pair, is symmetric and even in both arguments, overflows or underflows only when the exact result does, and returns +infinity when either argument is infinite even if the other is a NaN. The three-argument hypot behaves likewise where it is provided.",
  ["inputs", "configurations"], "all floats and every binade of double for cbrt; all pairs over a structured alphabet of values with every exponent gap for hypot; all configurations of the dispatch",
  "Scaling decisions depend on the exponents of both arguments; tests contain a few dozen pairs and the extreme combinations only for one type.",
  [M+"power/cbrt.hpp", M+"power/hypot.hpp", G+"power/cbrt_gen.hpp", G+"power/hypot_gen.hpp", G+"power/impl/"],
  [("scaling by powers of two", G+"power/impl/hypot_impl.hpp"), ("initial estimate plus iteration", G+"power/impl/cbrt_impl.hpp")])
p("C16", "gamma and lgamma are accurate, with the right poles and signs",
  "At run time the gamma function is within 10 ulp of the exact value for every float and double, and lgamma is within 2^-20 (float) or 2^-48 (double) of max(1,|exact|); in constant evaluation and the in-tree kernels both are within 2^-20 in the same metric (gamma relative). gamma of a positive integer that fits is the factorial within that bound, gamma overflows to +infinity above the largest representable argument and gives a zero of alternating sign far below zero; negative integers give NaN for gamma and +infinity for lgamma, and both terminate promptly for every argument.",
  ["inputs", "configurations"], "all float bit patterns and every binade of double, poles and their neighbours, the overflow thresholds; run time, constant evaluation, deterministic mode",
  "Between two poles the sign and magnitude change completely; tests check a few dozen points and never the large negative range.",
  [M+"misc/gamma.hpp", M+"misc/lgamma.hpp", M+"misc/impl/"],
  [("reflection for negative arguments", M+"misc/impl/gamma_impl.hpp"), ("asymptotic series for large arguments", M+"misc/impl/lgamma_impl.hpp")])
p("C17", "lerp is exact at the ends, monotonic, bounded and consistent",
  "For finite a and b, lerp(a,b,0) is a and lerp(a,b,1) is b exactly, lerp(a,a,t) is a for finite t, and the result is finite whenever t is in [0,1]. It is monotonic in t and stays between a and b for t in [0,1]. Infinite and NaN arguments follow the arithmetic of a + t(b-a) as std::lerp does, identically in constant evaluation and for all promoted argument types.",
  ["inputs", "configurations"], "all triples over a structured alphabet (opposite signs, huge spreads, adjacent values, t around 0 and 1 and outside), three floating types, both compilers, run time and constant evaluation",
  "Monotonicity and boundedness are statements about all neighbouring t; tests check isolated triples.",
  [M+"misc/lerp.hpp", G+"misc/lerp_gen.hpp", I+"math/common/misc/lerp.hpp"],
  [("case split on the signs of a and b", G+"misc/lerp_gen.hpp"), ("final clamp near t = 1", G+"misc/lerp_gen.hpp")])
p("C18", "nan, nanf and nanl return a quiet NaN carrying the requested payload",
  "For every character sequence, nan, nanf and nanl return a positive quiet NaN. A decimal digit string without leading zeros, or 0x with hexadecimal digits, of at most 15 digits (7 for float) sets the payload to that number modulo the payload width. A string with any other character, and the empty string, set payload zero.",
  ["inputs", "configurations"], "all strings over a small alphabet of digits, letters and signs up to a bounded length, and long digit strings; both compilers, run time and constant evaluation",
  "The input is a string: tests check a few literals.",
  [M+"basic/nan.hpp", M+"basic/impl/", I+"math/common/basic/nan.hpp", I+"support/helpers/digit_to_int.hpp"],
  [("payload parser", M+"basic/impl/nan_double_impl.hpp")])
p("C19", "Constant evaluation gives the same answer as run time",
  "Every public function the library documents as constexpr can be evaluated in a constant expression under Clang for every argument tuple without NaNs whose result is not a NaN, infinities, poles and range errors included, and under GCC, which folds its own builtins, for every finite argument with a finite result that is not an underflow. For exactly specified functions (rounding, classification, manipulation, remainder, fma, sqrt, min/max, extensions) the constant result is bit-identical to the run-time result; for approximated functions the two differ by no more than the sum of the stated error bounds and agree on every special value.",
  ["inputs", "programs", "configurations"], "every function, an alphabet of arguments per function evaluated inside genuine constant expressions, two compilers, C++17 and C++20",
  "The compile-time path is a different implementation; tests evaluate it with a handful of static_asserts and only under GCC where it is mostly the compiler's own builtin.",
  ["include/ccmath/", I+"support/is_constant_evaluated.hpp", I+"math/common/"],
  [("is-constant-evaluated dispatch", I+"math/common/"), ("in-tree kernels", G)])
p("C20", "Deterministic mode gives bit-identical results on every compiler and flag set",
  "With the deterministic configuration selected and contraction off, every transcendental function returns bit-identical results whichever compiler, optimisation level and instruction set it was built with. It never depends on the platform's math library for those functions.",
  ["inputs", "configurations"], "every function over structured argument alphabets, GCC and Clang, -O0/-O2/-O3, baseline and native instruction sets, C++17 and C++20",
  "Bit identity is a relation between builds; each test run sees a single build.",
  [G, I+"math/runtime/func/rt_dispatch.hpp", "README.md", "docs/STATUS.md"],
  [("routing to in-tree kernels", R+"func/rt_dispatch.hpp")])
p("C21", "Calls leave the floating-point environment as they found it",
  "No public function changes the rounding mode or the exception-trap state, in any of the four rounding modes. A call never clears exception flags that were already raised, and functions specified as silent (classification, quiet comparison, abs, copysign, frexp, modf, logb of finite non-zero values, nearbyint without inexact) raise none.",
  ["inputs", "histories", "configurations"], "every public function over an alphabet of arguments, from every initial rounding mode and every initial set of raised flags, and all short sequences of calls",
  "Environment leaks are visible only when a call is observed from a non-default environment; tests run in the default one.",
  [I+"support/fenv/", R+"func/", M],
  [("rounding-mode query and switch", I+"support/fenv/rounding_mode.hpp"), ("exception raising", I+"support/fenv/fenv_support.hpp")])
p("C22", "Domain and pole errors report errno and exceptions as the C standard says",
  "At run time in the default configuration a domain error sets errno to EDOM and raises invalid, and a pole error sets errno to ERANGE and raises divide-by-zero, with the NaN or infinity the C standard prescribes. Arguments that are neither (including quiet NaNs and infinities with exact results) leave errno untouched and raise neither invalid nor divide-by-zero.",
  ["inputs", "histories", "configurations"], "every function with a domain over all boundary arguments, errno preset to several values, both compilers",
  "Each combination of function, argument class and prior errno value is a separate state; tests check a few.",
  [I+"support/fenv/fenv_support.hpp", R+"func/", I+"config/compiler.hpp"],
  [("errno and exception helpers", I+"support/fenv/fenv_support.hpp"), ("libm builtins", R+"func/")])
p("C23", "Switching errno handling off changes no result",
  "With errno handling disabled by configuration, every function returns the bits it returns in the default configuration, for every argument (any NaN counts as any other). No in-tree code path writes errno in that configuration.",
  ["inputs", "configurations"], "every function over structured alphabets, the two configurations, default and deterministic mode",
  "The relation is between two builds; tests run each build alone.",
  [I+"support/fenv/fenv_support.hpp", I+"config/compiler.hpp"],
  [("configuration guard", I+"support/fenv/fenv_support.hpp")])
p("C24", "Angle and wrapping helpers keep their ranges and identities",
  "For a positive length and finite arguments away from the overflow limit, repeat lies in [0,length) and differs from its argument by a multiple of length, ping_pong reflects its argument into [0,length] with period 2*length, normalize maps its interval onto [0,1] and saturates outside, and delta_angle is the difference of least magnitude (within [-180,180]) that leads from one angle to the other modulo a turn. lerp_angle starts at the first angle and ends at the second modulo a turn, moving towards a target never overshoots it and never moves more than the step, and degrees and radians are correctly scaled inverses of each other. The forms in the safe namespace agree with the plain ones and return 0 for a zero length or an empty range.",
  ["inputs", "configurations"], "all tuples over a structured alphabet of angles, lengths and steps (negative, many turns, exact boundaries, adjacent values), three floating types and integers, run time and constant evaluation",
  "Wrap-around bugs appear only at exact boundaries or for a sign/turn-count combination; the tests check a few examples per helper.",
  [X+"repeat.hpp", X+"ping_pong.hpp", X+"normalize.hpp", X+"delta_angle.hpp", X+"lerp_angle.hpp", X+"move_towards.hpp", X+"move_towards_angle.hpp", X+"degrees.hpp", X+"radians.hpp"],
  [("floor-based wrap", X+"repeat.hpp"), ("half-turn fold", X+"delta_angle.hpp"), ("step clamp", X+"move_towards.hpp")])
p("C25", "Interpolation and range helpers meet their end points and bounds",
  "clamp and saturate return the nearest value in the interval, step, sign, chgsign, fract, rcp, mix and abs_diff return the value their definition gives, and smoothstep, lerp_smooth and cubic meet their end points, are monotonic where documented and saturate outside. remap, inverse_lerp and unlerp send the ends of the input interval to the ends of the output interval and are inverse to interpolation within rounding. For a degenerate interval the safe forms return their documented fallback instead of dividing by zero.",
  ["inputs", "configurations"], "all tuples over a structured alphabet of values and interval ends, three floating types and integers where accepted, run time and constant evaluation",
  "The helpers are defined by identities over whole intervals; the tests check a few points.",
  [X+"clamp.hpp", X+"saturate.hpp", X+"smoothstep.hpp", X+"step.hpp", X+"mix.hpp", X+"remap.hpp", X+"inverse_lerp.hpp", X+"unlerp.hpp", X+"lerp_smooth.hpp", X+"cubic.hpp", X+"fract.hpp", X+"sign.hpp", X+"chgsign.hpp", X+"rcp.hpp", X+"abs_diff.hpp", X+"approximately.hpp"],
  [("closed-form definitions", X)])
p("C26", "Integer helpers are exact for every value of every integer width",
  "align, align_up and align_down return a multiple of the alignment on the requested side and nearest to the argument, ceil_div of non-negative values returns the smallest integer not below the quotient, abs_diff the exact distance whenever it fits the type, and is_power_of_two is true exactly for powers of two. No call whose result fits overflows on the way, and for invalid arguments the safe forms return their documented fallback.",
  ["inputs", "configurations"], "all pairs of 8-bit and 16-bit values, boundary alphabets of 32- and 64-bit values, signed and unsigned, run time and constant evaluation",
  "Intermediate overflow happens only next to the limits of the type, where the tests have a few points.",
  [X+"align.hpp", X+"ceil_div.hpp", X+"abs_diff.hpp", X+"is_power_of_two.hpp"],
  [("mask and remainder arithmetic", X+"align.hpp"), ("overflow-free rounding division", X+"ceil_div.hpp")])
p("C27", "Wide integers compute exact modular arithmetic of their width",
  "Addition, subtraction, multiplication, division, shifts, bitwise and comparison operators of the wide integer types return the exact mathematical result modulo two to the width (signed types in two's complement) for every operand and every in-range shift count. Conversions to and from builtin integers and other widths preserve the value or truncate modulo the target width, bit scans count exactly, single- and full-width products and their carries are exact for unsigned types, and (a/b)*b+a%b gives a back.",
  ["inputs", "histories", "configurations"], "all operand tuples over carry- and boundary-provoking limb alphabets, all shift counts, widths 16 to 1024 with 16-, 32- and 64-bit limbs, signed and unsigned, and all operator sequences to a small depth; run time and constant evaluation",
  "A lost carry needs particular neighbouring limbs; the type has almost no direct tests.",
  [I+"types/big_int.hpp", I+"types/number_pair.hpp", I+"types/int128_types.hpp"],
  [("limb-wise carry chain", I+"types/big_int.hpp"), ("schoolbook multiplication", I+"types/big_int.hpp"), ("long division", I+"types/big_int.hpp")])
p("C28", "Dyadic floats and bit-level float views convert with a single correct rounding",
  "Converting a dyadic number (sign, exponent, wide mantissa) to float, double or long double gives the correctly rounded value in every rounding mode, with gradual underflow, overflow and signed zeros. Its quick sums and products stay within the documented error (sums relative to the larger operand when they cancel, and exact when no bit is shifted out), its rounded products, quotients and integer parts are correctly rounded. The bit-level views of the floating types read and write sign, exponent and mantissa faithfully for every value.",
  ["inputs", "histories", "configurations"], "all operands over mantissa patterns around the rounding position and exponents around every range boundary, mantissa widths 64 to 256, four rounding modes",
  "Rounding at the conversion needs a particular sticky pattern at a particular exponent; no test reaches it directly.",
  [I+"types/dyadic_float.hpp", I+"support/fp/fp_bits.hpp", I+"types/normalized_float.hpp"],
  [("round and sticky bits", I+"types/dyadic_float.hpp"), ("alignment in addition", I+"types/dyadic_float.hpp")])
p("C29", "SIMD values and masks act lane by lane as the scalar type does",
  "For every element type, width and backend, each lane of an arithmetic, bitwise, shift, comparison or conversion result is what the scalar operation gives for the same lane of the operands, and no lane affects another. Masks round-trip through their integer and bitset forms, select and where change exactly the chosen lanes, and loads and stores touch exactly the addressed (and selected) elements.",
  ["inputs", "histories", "configurations"], "every element type and lane count, native, portable and array backends, baseline and native instruction sets, all mask patterns up to 16 lanes, lane values over boundary alphabets, all sequences of operations to a small depth",
  "Each width and backend selects other code, and a wrong lane shows only when lanes hold different values in that position; tests use a few fixed vectors.",
  [R+"pp/"],
  [("vector-extension, intrinsic and array backends", R+"pp/vec_ext.hpp"), ("proxy and where expressions", R+"pp/where.hpp")])
p("C30", "SIMD math, reductions, concatenation and splitting match their scalar meaning",
  "The packed math functions return in every lane what the scalar function returns for it (exactly for rounding, square root, absolute value, fused multiply-add, minimum and maximum; within the scalar accuracy bounds for exp, log and pow). Reductions combine exactly the selected lanes, min/max index and count agree with the mask, and concatenation and splitting keep every lane in order and are inverse to each other.",
  ["inputs", "configurations"], "every element type, lane count and backend, all masks up to 16 lanes, lane values over boundary alphabets including special values in each lane position",
  "Mixed lanes (one special value among ordinary ones) take blended paths the tests do not enumerate.",
  [R+"pp/simd_math.hpp", R+"pp/reduce.hpp", R+"pp/mask_reductions.hpp", R+"pp/simd_cat.hpp"],
  [("vectorised kernels with scalar fallback", R+"pp/simd_math.hpp"), ("tree reduction", R+"pp/reduce.hpp")])
p("C31", "Overloads promote arguments and pick result types as <cmath> does",
  "Every function accepts each floating type, every integer type and the mixtures the standard allows; its result type is the standard's: float for floats, long double if any argument is long double, double otherwise (fmin and all-integer fma of one integer type, and lerp, use the documented common type). The value is the one obtained by converting the arguments to the result type first, and the f- and l-suffixed names are the float and long double overloads.",
  ["inputs", "programs"], "all functions crossed with all tuples of arithmetic argument types (18 types, one and two arguments; 8 types, three arguments) and a value alphabet per type, both compilers, C++17 and C++20, and the forced constant-evaluation paths",
  "The overload set is functions times type tuples; tests instantiate a few tuples for some functions.",
  [M, I+"support/type_traits.hpp"],
  [("integral and mixed overloads", M)])
p("C32", "Building with or without SIMD, and packed versus scalar kernels, agree",
  "The packed pow kernels return in every lane the bits the scalar in-tree kernel returns and raise no other exception flags. The internal SIMD register types compute lane-wise IEEE arithmetic, comparison, choice and square root for every instruction set. In-tree pow and every function with an exactly specified result return the same bits whether SIMD use is enabled or not and whichever instruction set is selected.",
  ["inputs", "configurations"], "every pack width and instruction set available, lane values over the power alphabet including special values, all public exact functions with SIMD on and off",
  "The relation is between builds for different instruction sets; tests build one.",
  [R+"simd/", R+"func/power/pow_rt.hpp", I+"config/arch/"],
  [("packed kernels", R+"simd/func/pow.hpp"), ("instruction-set selection", I+"config/arch/check_simd_support.hpp")])
p("C33", "Mathematical constants and bit, carry and literal helpers are exact",
  "Each mathematical constant is the value nearest to the true one for float, double and long double. Bit counting, scanning, rotating, power-of-two rounding, bit casting, masks, overflow-checked addition and subtraction, carry and borrow chains return the exact result for every value of every integer width, with and without compiler built-ins. Integer literals and parsed digit strings have the value their digits denote.",
  ["inputs", "configurations"], "every constant and type; all 8- and 16-bit values (all 32-bit values in the thorough tier) and all pairs of 8-bit values, structured bit patterns of wider types, all rotation counts, digit strings in all bases, with and without bit built-ins",
  "Tests compare a few constants in one type and a few bit patterns; the portable fallbacks are not built by any test.",
  [M+"numbers.hpp", I+"support/bits.hpp", I+"support/ctz.hpp", I+"types/"],
  [("literal tables", M+"numbers.hpp"), ("bit algorithms", I+"support/bits.hpp")])
p("C34", "No call has undefined behaviour, traps or hangs, whatever its arguments",
  "For every argument of every public function the call terminates promptly and performs no signed overflow, out-of-range shift, invalid conversion, out-of-bounds access or other undefined operation, except where a documented precondition is broken. This holds for the run-time paths, for the in-tree kernels and, as a consequence, for constant evaluation.",
  ["inputs", "configurations"], "every function over structured alphabets of all argument types (special values, extreme exponents, extreme integers), run-time and forced in-tree paths, both compilers' sanitizers",
  "Undefined operations are input-dependent and invisible in a passing test; the tests do not run under sanitizers on extreme inputs.",
  ["include/ccmath/"],
  [("range guards before shifts and conversions", G)])
p("C35", "Software add, subtract and multiply, and error-free transforms, are exact",
  "Software addition, subtraction and multiplication return the exact result rounded once to the result type, which may be narrower than the operands, for every pair of operands in every rounding mode and in constant evaluation, with IEEE zero signs, infinities and NaNs. The error-free transforms (two-sum, fast two-sum, splitting, exact product) return a rounded result and its exact error, double-double sums and products keep their documented accuracy, with and without contraction. Directional rounding and nearest-integer helpers return the exact integer, and the rounding-mode queries report the current mode.",
  ["inputs", "rounding modes", "configurations"], "pairs of structured alphabets of three formats, every alignment of short significands at the range limits, all floats for the unary helpers, four rounding modes, both compilers, run-time and in-tree constant-evaluation paths",
  "Wrong guard or sticky bits, alignments at the subnormal boundary and signs of cancelled results show up for few operand pairs; contraction depends on the build.",
  ["include/ccmath/internal/support/fp/ops/add_or_sub.hpp", "include/ccmath/internal/support/fp/ops/mul.hpp", "include/ccmath/internal/types/double_double.hpp", "include/ccmath/internal/support/math_support.hpp", "include/ccmath/internal/support/fp/nearest_integer.hpp", "include/ccmath/internal/support/fp/directional_rounding_utils.hpp"],
  [("guard, round and sticky bits; volatile-free exact transforms", "include/ccmath/internal/support/fp/ops/add_or_sub.hpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
