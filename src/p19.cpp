// C19 genuine constant evaluation against run time.  Every table entry is computed by the compiler in a constant
// expression (whether it can be is probed by substitution failure), every run-time value by a call on hidden operands.
#include "lib.hpp"
#include "ccmath/ext/abs_diff.hpp"
#include "ccmath/ext/align.hpp"
#include "ccmath/ext/approximately.hpp"
#include "ccmath/ext/ceil_div.hpp"
#include "ccmath/ext/chgsign.hpp"
#include "ccmath/ext/clamp.hpp"
#include "ccmath/ext/cubic.hpp"
#include "ccmath/ext/degrees.hpp"
#include "ccmath/ext/delta_angle.hpp"
#include "ccmath/ext/fract.hpp"
#include "ccmath/ext/inverse_lerp.hpp"
#include "ccmath/ext/is_power_of_two.hpp"
#include "ccmath/ext/lerp_angle.hpp"
#include "ccmath/ext/lerp_smooth.hpp"
#include "ccmath/ext/mix.hpp"
#include "ccmath/ext/move_towards.hpp"
#include "ccmath/ext/move_towards_angle.hpp"
#include "ccmath/ext/normalize.hpp"
#include "ccmath/ext/ping_pong.hpp"
#include "ccmath/ext/radians.hpp"
#include "ccmath/ext/rcp.hpp"
#include "ccmath/ext/remap.hpp"
#include "ccmath/ext/repeat.hpp"
#include "ccmath/ext/saturate.hpp"
#include "ccmath/ext/sign.hpp"
#include "ccmath/ext/smoothstep.hpp"
#include "ccmath/ext/step.hpp"
#include "ccmath/ext/unlerp.hpp"
using namespace mc;
#ifndef MC_G
	#define MC_G 0
#endif
struct Ent { bool ok; u64 w[2]; };
template <class R> static void store(R x, u64 * w) { w[0] = w[1] = 0; if constexpr (std::is_floating_point_v<R>) put(x, w); else w[0] = static_cast<u64>(static_cast<long long>(x)); }
// ---- operand tables
template <class T> using LM = std::numeric_limits<T>;
template <class T> inline constexpr T GEN[] = { // exact functions
	T(0), -T(0), T(1), -T(1), T(0.5), T(-0.5), T(1.5), T(-1.5), T(2.5), T(-2.5), T(3.5), T(0.25), T(-0.75), T(0.1L), T(-0.1L), T(2), T(3), T(-7), T(100.625), T(-1e5L), T(8388607.5L), T(8388608), T(8388609), T(-4503599627370495.5L), T(4503599627370496.5L), T(9007199254740993.0L), T(1e18L), T(-9223372036854775808.0L), T(1e30L), T(-1e30L), T(1e-30L), T(3.14159265358979323846L), T(-2.71828182845904523536L),
	LM<T>::denorm_min(), -LM<T>::denorm_min(), LM<T>::denorm_min() * 3, LM<T>::min(), -LM<T>::min(), LM<T>::min() - LM<T>::denorm_min(), LM<T>::min() * T(1.5), LM<T>::max(), -LM<T>::max(), LM<T>::max() / 2, LM<T>::epsilon(), 1 - LM<T>::epsilon() / 2, 1 + LM<T>::epsilon(), -1 - LM<T>::epsilon(), T(0.5) - LM<T>::epsilon() / 4, T(2) - LM<T>::epsilon(), T(123456.789L), T(6755399441055744.0L), T(4611686018427387904.5L), LM<T>::infinity(), -LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T POS[] = { // logarithms, roots
	T(0), -T(0), LM<T>::denorm_min(), LM<T>::min(), LM<T>::min() * T(1.75), T(1e-30L), T(0.001L), T(0.1L), T(0.25), T(0.5), T(0.7L), T(0.95L), 1 - LM<T>::epsilon() / 2, T(1), 1 + LM<T>::epsilon(), T(1.05L), T(1.4142L), T(1.5), T(2), T(2.71828182845904523536L), T(3), T(4), T(7), T(8), T(10), T(27), T(100), T(1000), T(1024), T(65536.5L), T(1e10L), T(1e20L), T(1e30L), LM<T>::max() / 3, LM<T>::max(), LM<T>::infinity(), LM<T>::quiet_NaN(), T(-1), -LM<T>::infinity() };
template <class T> inline constexpr T EXPO[] = { T(0), -T(0), LM<T>::denorm_min(), LM<T>::epsilon(), T(-1e-8L), T(0.001L), T(-0.1L), T(0.25), T(0.5), T(-0.5), T(0.6931L), T(1), T(-1), T(1.5), T(-2), T(2), T(3), T(-7.25), T(10), T(17.5), T(-30.1L), T(50), T(-80), T(88), T(-100), T(-103.5), T(127), T(-126), T(-149), T(700), T(-700), T(-740), T(1023), T(-1074), T(2000), T(-2000), LM<T>::max(), -LM<T>::max(), LM<T>::infinity(), -LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T ANG[] = { T(0), -T(0), LM<T>::denorm_min(), LM<T>::min(), T(1e-10L), T(-1e-4L), T(0.001L), T(0.1L), T(-0.1L), T(0.25), T(0.5), T(-0.7L), T(0.78539816339744828L), T(0.9L), T(1), T(-1), T(1.25), T(1.5), T(2), T(3), T(-3.25), T(4.5), T(5), T(6.25), T(7), T(10), T(-100), T(355), T(1000), T(12345.5L), T(-99999.25L), T(1048575.5L), T(1048576.5L), T(1e7L), T(1e8L), T(1e10L), T(1e20L), T(1e30L), T(2.5e38L) < LM<T>::max() ? T(2.5e38L) : T(1), LM<T>::max(), LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T UNIT[] = { T(0), -T(0), LM<T>::denorm_min(), T(1e-10L), T(-1e-4L), T(0.001L), T(0.1L), T(-0.1L), T(0.25), T(0.3L), T(0.4375L), T(0.5), T(-0.5), T(0.51L), T(0.6L), T(-0.7L), T(0.75), T(0.875), T(-0.9L), T(0.95L), T(0.99L), 1 - LM<T>::epsilon() / 2, T(1), T(-1), T(1.5), T(-2), T(2.5), T(10), T(-100), T(1e5L), T(1e20L), LM<T>::max(), LM<T>::infinity(), -LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T GAM[] = { T(0), -T(0), T(1e-20L), T(0.001L), T(0.1L), T(0.5), T(0.9L), T(1), T(1.25), T(1.5), T(2), T(2.5), T(3), T(3.3L), T(4), T(5), T(7.75), T(10), T(12), T(20.5), T(30), T(34), T(35.5), T(100), T(170), T(171.5), T(200), T(1e6L), T(-0.5), T(-0.1L), T(-1), T(-1.5), T(-2), T(-2.5), T(-3.25), T(-5.5), T(-20.5), T(-40.25), T(-100.5), T(-170.5), T(-190.5), T(-1e6L - 0.5L), LM<T>::infinity(), -LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T SM[] = { T(0), -T(0), T(1), T(-1), T(0.5), T(2), T(-3), T(7.25), T(0.1L), T(-1e10L), T(1e-30L), LM<T>::denorm_min(), LM<T>::min(), LM<T>::max(), -LM<T>::max(), 1 + LM<T>::epsilon(), LM<T>::infinity(), -LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T TI[] = { T(0), T(1), T(-1), T(0.5), T(3), T(-0.1L), T(1e10L), LM<T>::denorm_min(), LM<T>::max(), 1 + LM<T>::epsilon(), LM<T>::infinity(), LM<T>::quiet_NaN() };
template <class T> inline constexpr T TN[] = { T(0), T(1), T(-1), T(0.5), T(3), T(-0.1L), T(1e10L), LM<T>::min() * 8, LM<T>::max(), 1 + LM<T>::epsilon(), LM<T>::infinity(), LM<T>::quiet_NaN() }; // (GCC does not constant-evaluate an intermediate underflow)
template <class T> inline constexpr T E3[] = { T(0), T(1), T(-1), T(0.5), T(2), T(-360), T(200.25), T(0.1L) };
template <class T> inline constexpr T EXT[] = { T(0), T(1), T(-1), T(0.5), T(0.25), T(2), T(-3.5), T(90), T(200.25), T(-360), T(720.5), T(0.1L) };
template <class T, size_t N> constexpr size_t len(const T (&)[N]) { return N; }

// F::c(x...) at table indices, probed
template <class F, class T, const auto & A, size_t I, class V = void> struct ok1 : std::false_type {};
template <class F, class T, const auto & A, size_t I> struct ok1<F, T, A, I, std::void_t<std::bool_constant<(static_cast<void>(F::c(A[I])), true)>>> : std::true_type {};
template <class F, class T, const auto & A, const auto & B, size_t I, size_t J, class V = void> struct ok2 : std::false_type {};
template <class F, class T, const auto & A, const auto & B, size_t I, size_t J> struct ok2<F, T, A, B, I, J, std::void_t<std::bool_constant<(static_cast<void>(F::c(A[I], B[J])), true)>>> : std::true_type {};
template <class F, class T, const auto & A, size_t I, size_t J, size_t K, class V = void> struct ok3 : std::false_type {};
template <class F, class T, const auto & A, size_t I, size_t J, size_t K> struct ok3<F, T, A, I, J, K, std::void_t<std::bool_constant<(static_cast<void>(F::c(A[I], A[J], A[K])), true)>>> : std::true_type {};
template <class F, class T, const auto & A, size_t I> static void fill1(Ent * e) { e->ok = false; if constexpr (ok1<F, T, A, I>::value) { constexpr auto v = F::c(A[I]); store(v, e->w); e->ok = true; } }
template <class F, class T, const auto & A, const auto & B, size_t I, size_t J> static void fill2(Ent * e) { e->ok = false; if constexpr (ok2<F, T, A, B, I, J>::value) { constexpr auto v = F::c(A[I], B[J]); store(v, e->w); e->ok = true; } }
template <class F, class T, const auto & A, size_t I, size_t J, size_t K> static void fill3(Ent * e) { e->ok = false; if constexpr (ok3<F, T, A, I, J, K>::value) { constexpr auto v = F::c(A[I], A[J], A[K]); store(v, e->w); e->ok = true; } }

static u64 n_not = 0;
// B: 0 = bit-identical, otherwise ulp (long double: the in-tree kernels compute in double); negative: absolute/relative 2^B
template <class T, class R, int B, int SK> static bool compare(const Ent & e, R g, int args, Rep * r)
{
	if (!e.ok)
	{ // not a constant expression: allowed for NaN arguments or results (args: 3 finite, 1 infinite, 0 NaN; SK & 4: for infinite ones as well)
		bool must = args != 0; if constexpr (std::is_floating_point_v<R>) must = must && !is_nan(g) && !(SK & 4 && (args != 3 || is_inf(g)));
#ifndef __clang__ // GCC does not fold its builtins at infinities nor in the case of a range error (SK & 2: no underflow)
		must = must && args == 3; if constexpr (std::is_floating_point_v<R>) must = must && is_fin(g) && (SK & 2 || (g < 0 ? -g : g) >= LM<R>::min());
#endif
		MC_RET(!must, "not a constant expression", show(g));
	}
	if constexpr (!std::is_floating_point_v<R>) { R v = static_cast<R>(static_cast<long long>(e.w[0])); MC_RET(v == g, show(v), show(g)); }
	else
	{
		R v = Fp<R>::get(e.w);
		if (is_nan(v) || is_nan(g)) MC_RET(is_nan(v) && is_nan(g), show(v), show(g));
		if (B == 0 || is_inf(v) && is_inf(g) || v == 0 && g == 0) MC_RET(same(v, g), show(v), show(g));
		using X = long double; X a = static_cast<X>(v), b = static_cast<X>(g), d = a > b ? a - b : b - a;
		X m = b < 0 ? -b : b;
		if (is_inf(v) || is_inf(g)) { X o = is_inf(v) ? m : (a < 0 ? -a : a); MC_RET(sgn(v) == sgn(g) && o >= static_cast<X>(LM<R>::max()) * (1 - (B < 0 ? 0x1p-19L : 0x1p-20L)), show(v), show(g)); }
		X tol = B < 0 ? (m > 1 || SK & 1 ? m : 1) * std::ldexp(1.0L, B) : std::is_same_v<R, long double> ? m * 0x1p-48L : static_cast<X>(ulp_of(R{}, b)) * B;
		tol += static_cast<X>(LM<R>::denorm_min());
		if (std::is_same_v<R, long double>) tol += 0x1p-1060L;
		MC_RET(d <= tol, show(v), show(g));
	}
}
template <class T> static bool in_double(T x) { if constexpr (std::is_same_v<T, long double>) { double d = static_cast<double>(x); return static_cast<long double>(d) == x && (x == 0 || (d < 0 ? -d : d) >= LM<double>::min()); } else return true; }
// the in-tree kernels evaluate long double in double (documented); GCC constant-evaluates its builtins in full precision
template <class T, int B, class R, class... A> static bool covered(R g, A... a)
{
#if defined(__clang__)
	if constexpr (std::is_same_v<T, long double> && B != 0) { long double m = static_cast<long double>(g); m = m < 0 ? -m : m; return (in_double(a) && ...) && (m == 0 || (m >= 0x1p-1000L && m <= 0x1p1000L)); }
#endif
	return true;
}
template <class T> static int finv(T x) { if constexpr (std::is_floating_point_v<T>) return is_nan(x) ? 0 : is_fin(x) ? 3 : 1; else return 3; }
template <class F, class T, const auto & A> struct S1
{
	static constexpr size_t N = len(A); static inline Ent tab[N];
	template <size_t... I> static void fill(std::index_sequence<I...>) { int d[] = {(fill1<F, T, A, I>(tab + I), 0)...}; (void)d; }
	static bool judge(const u64 * w, Rep * r) { using R = decltype(F::c(A[0])); R g = keep<R>(F::c(hide(A[w[0]]))); if (!covered<T, F::template B<T>>(g, A[w[0]])) return true; return compare<T, R, F::template B<T>, F::sk>(tab[w[0]], g, finv(A[w[0]]), r); }
	static void run(const char * nm, const char * tn) { fill(std::make_index_sequence<N>{}); for (auto & e : tab) n_not += !e.ok; explore(cat2(nm, tn), 1, 2, N, [](u64 i, u64 * w) { w[0] = i; }, judge); }
};
template <class F, class T, const auto & A, const auto & Bt> struct S2
{
	static constexpr size_t N = len(A), M = len(Bt); static inline Ent tab[N * M];
	template <size_t... I> static void fill(std::index_sequence<I...>) { int d[] = {(fill2<F, T, A, Bt, I / M, I % M>(tab + I), 0)...}; (void)d; }
	static bool judge(const u64 * w, Rep * r) { using R = decltype(F::c(A[0], Bt[0])); R g = keep<R>(F::c(hide(A[w[0]]), hide(Bt[w[1]]))); if (!covered<T, F::template B<T>>(g, A[w[0]], Bt[w[1]])) return true; return compare<T, R, F::template B<T>, F::sk>(tab[w[0] * M + w[1]], g, finv(A[w[0]]) & finv(Bt[w[1]]), r); }
	static void run(const char * nm, const char * tn) { fill(std::make_index_sequence<N * M>{}); for (auto & e : tab) n_not += !e.ok; explore(cat2(nm, tn), 2, 2, N * M, [](u64 i, u64 * w) { w[0] = i / M; w[1] = i % M; }, judge); }
};
template <class F, class T, const auto & A> struct S3
{
	static constexpr size_t N = len(A); static inline Ent tab[N * N * N];
	template <size_t... I> static void fill(std::index_sequence<I...>) { int d[] = {(fill3<F, T, A, I / N / N, I / N % N, I % N>(tab + I), 0)...}; (void)d; }
	static bool judge(const u64 * w, Rep * r) { using R = decltype(F::c(A[0], A[0], A[0])); R g = keep<R>(F::c(hide(A[w[0]]), hide(A[w[1]]), hide(A[w[2]]))); if (!covered<T, F::template B<T>>(g, A[w[0]], A[w[1]], A[w[2]])) return true; return compare<T, R, F::template B<T>, F::sk>(tab[(w[0] * N + w[1]) * N + w[2]], g, finv(A[w[0]]) & finv(A[w[1]]) & finv(A[w[2]]), r); }
	static void run(const char * nm, const char * tn) { fill(std::make_index_sequence<N * N * N>{}); for (auto & e : tab) n_not += !e.ok; explore(cat2(nm, tn), 3, 2, N * N * N, [](u64 i, u64 * w) { w[0] = i / N / N; w[1] = i / N % N; w[2] = i % N; }, judge); }
};
#define F1(ID, EXPR, BND) struct ID { template <class T> static constexpr int B = BND; static constexpr int sk = 0; template <class T> static constexpr auto c(T x) { return EXPR; } };
#define X1(ID, EXPR, BND) struct ID { template <class T> static constexpr int B = BND; static constexpr int sk = 2; template <class T> static constexpr auto c(T x) { return EXPR; } };
#define F2(ID, EXPR, BND) struct ID { template <class T> static constexpr int B = BND; static constexpr int sk = 0; template <class T, class U> static constexpr auto c(T x, U y) { return EXPR; } };
#define X2(ID, EXPR, BND) struct ID { template <class T> static constexpr int B = BND; static constexpr int sk = 2; template <class T, class U> static constexpr auto c(T x, U y) { return EXPR; } };
#define F3(ID, EXPR, BND) struct ID { template <class T> static constexpr int B = BND; static constexpr int sk = 0; template <class T> static constexpr auto c(T x, T y, T z) { return EXPR; } };
#define X3(ID, EXPR, BND) struct ID { template <class T> static constexpr int B = BND; static constexpr int sk = 2; template <class T> static constexpr auto c(T x, T y, T z) { return EXPR; } };
#define R1(ID, TAB) S1<ID, float, TAB<float>>::run(#ID " " #TAB, "f32"), S1<ID, double, TAB<double>>::run(#ID " " #TAB, "f64"), S1<ID, long double, TAB<long double>>::run(#ID " " #TAB, "f80")
#define R2(ID, TA, TB) S2<ID, float, TA<float>, TB<float>>::run(#ID " " #TA, "f32"), S2<ID, double, TA<double>, TB<double>>::run(#ID " " #TA, "f64"), S2<ID, long double, TA<long double>, TB<long double>>::run(#ID " " #TA, "f80")
#define D2(ID, TA, TB) S2<ID, float, TA<float>, TB<float>>::run(#ID " " #TA, "f32"), S2<ID, double, TA<double>, TB<double>>::run(#ID " " #TA, "f64")
#define R3(ID, TA) S3<ID, float, TA<float>>::run(#ID " " #TA, "f32"), S3<ID, double, TA<double>>::run(#ID " " #TA, "f64"), S3<ID, long double, TA<long double>>::run(#ID " " #TA, "f80")
template <class T> inline constexpr int INTS[] = {0, 1, -1, 2, -3, 10, 30, -40, 127, -126, -149, 200, 1000, -1074, 2000, -2200, 16000, -16445, 40000, -40000, INT_MAX, INT_MIN};
template <class T> inline constexpr long LINTS[] = {0, 1, -1, 12, -53, 300, -300, 1100, -1100, 40000, -40000, LONG_MAX, LONG_MIN};
template <class T> inline constexpr int II[] = {0, 1, -1, 2, 3, -7, 100, 1 << 29, -(1 << 30)};

#if MC_G == 1
X1(floor_, ccm::floor(x), 0) X1(ceil_, ccm::ceil(x), 0) X1(trunc_, ccm::trunc(x), 0) X1(round_, ccm::round(x), 0) X1(rint_, ccm::rint(x), 0) X1(nearbyint_, ccm::nearbyint(x), 0)
X1(fabs_, ccm::fabs(x), 0) X1(abs_, ccm::abs(x), 0) X1(logb_, ccm::logb(x), 0) X1(ilogb_, x == 0 ? 0 : ccm::ilogb(x), 0) F1(nextup_, ccm::nextup(x), 0) F1(nextdown_, ccm::nextdown(x), 0) X1(sqrt_, ccm::sqrt(x), 0)
X1(fpclassify_, ccm::fpclassify(x), 0) X1(isnan_, ccm::isnan(x), 0) X1(isinf_, ccm::isinf(x), 0) X1(isfinite_, ccm::isfinite(x), 0) X1(isnormal_, ccm::isnormal(x), 0) X1(signbit_, ccm::signbit(x), 0)
template <class T> constexpr T fr_m(T x) { int e = 0; return ccm::frexp(x, &e); }
template <class T> constexpr int fr_e(T x) { int e = 0; (void)ccm::frexp(x, &e); return e; }
template <class T> constexpr T mo_f(T x) { T i = 0; return ccm::modf(x, &i); }
template <class T> constexpr T mo_i(T x) { T i = 0; (void)ccm::modf(x, &i); return i; }
X1(frexp_m, fr_m(x), 0) X1(modf_f, mo_f(x), 0) X1(modf_i, mo_i(x), 0)
X1(frexp_e, ccm::isfinite(x) ? fr_e(x) : 0, 0)
F2(ldexp_, ccm::ldexp(x, y), 0) F2(scalbn_, ccm::scalbn(x, y), 0) F2(scalbln_, ccm::scalbln(x, y), 0)
static void all()
{
	R1(floor_, GEN); R1(ceil_, GEN); R1(trunc_, GEN); R1(round_, GEN); R1(rint_, GEN); R1(nearbyint_, GEN); R1(fabs_, GEN); R1(abs_, GEN); R1(logb_, GEN); R1(ilogb_, GEN); R1(nextup_, GEN); R1(nextdown_, GEN); R1(sqrt_, GEN); R1(sqrt_, POS);
	R1(fpclassify_, GEN); R1(isnan_, GEN); R1(isinf_, GEN); R1(isfinite_, GEN); R1(isnormal_, GEN); R1(signbit_, GEN); R1(frexp_m, GEN); R1(frexp_e, GEN); R1(modf_f, GEN); R1(modf_i, GEN);
	R2(ldexp_, SM, INTS); R2(scalbn_, SM, INTS); R2(scalbln_, SM, LINTS);
}
#elif MC_G == 2
F1(exp_, ccm::exp(x), 3) F1(exp2_, ccm::exp2(x), 3) F1(expm1_, ccm::expm1(x), 5) F1(log_, ccm::log(x), 3) F1(log2_, ccm::log2(x), 3) F1(log10_, ccm::log10(x), 5) F1(log1p_, ccm::log1p(x), 5)
F1(sin_, ccm::sin(x), 12) F1(cos_, ccm::cos(x), 12) F1(tan_, ccm::tan(x), 12) F1(asin_, ccm::asin(x), 7) F1(acos_, ccm::acos(x), 7) F1(atan_, ccm::atan(x), 7) F1(cbrt_, ccm::cbrt(x), 8)
struct tgamma_ { template <class T> static constexpr int B = -18; static constexpr int sk = 1; template <class T> static constexpr auto c(T x) { return ccm::tgamma(x); } };
template <class T> inline constexpr T NEAR1[] = {T(1) + std::numeric_limits<T>::epsilon(), T(1) - std::numeric_limits<T>::epsilon() / 2, T(1) + 5 * std::numeric_limits<T>::epsilon(), T(0.5), T(2), T(-1), T(-1) - std::numeric_limits<T>::epsilon()};
template <class T> inline constexpr T HUGEY[] = {T(1) / std::numeric_limits<T>::epsilon(), T(-1) / std::numeric_limits<T>::epsilon(), T(0x1p62L), T(-0x1p63L), T(0x1p64L), T(1e19L), T(-3e19L), T(16777217), T(0x1p31L), T(-0x1p53L), T(1e30L), T(1024), T(1023), T(-1022.5L), T(16383), T(-16382)};
F1(lgamma_, ccm::lgamma(x), -18) F2(pow_, ccm::pow(x, y), 2) F2(hypot_, ccm::hypot(x, y), 5) F2(atan2_, ccm::atan2(x, y), 8)
static void all()
{
	R1(exp_, EXPO); R1(exp2_, EXPO); R1(expm1_, EXPO); R1(log_, POS); R1(log2_, POS); R1(log10_, POS); R1(log1p_, POS); R1(log1p_, UNIT); R1(sin_, ANG); R1(cos_, ANG); R1(tan_, ANG); R1(asin_, UNIT); R1(acos_, UNIT); R1(atan_, UNIT); R1(atan_, ANG); R1(cbrt_, POS); R1(tgamma_, GAM); R1(lgamma_, GAM);
	R2(pow_, SM, SM); R2(pow_, NEAR1, HUGEY); R2(hypot_, SM, SM); R2(atan2_, SM, SM);
}
#elif MC_G == 3
X2(copysign_, ccm::copysign(x, y), 0) X2(fmin_, x == 0 && y == 0 ? x : ccm::fmin(x, y), 0) X2(fmax_, x == 0 && y == 0 ? x : ccm::fmax(x, y), 0) X2(fdim_, ccm::fdim(x, y), 0) X2(fmod_, ccm::fmod(x, y), 0) X2(remainder_, ccm::remainder(x, y), 0) F2(nextafter_, ccm::nextafter(x, y), 0) F2(nexttoward_, ccm::nexttoward(x, y), 0)
X2(isless_, ccm::isless(x, y), 0) X2(islessequal_, ccm::islessequal(x, y), 0) X2(isgreater_, ccm::isgreater(x, y), 0) X2(isgreaterequal_, ccm::isgreaterequal(x, y), 0) X2(islessgreater_, ccm::islessgreater(x, y), 0) X2(isunordered_, ccm::isunordered(x, y), 0)
template <class T> constexpr T rq_r(T x, T y) { int q = 0; return ccm::remquo(x, y, &q); }
template <class T> constexpr int rq_q(T x, T y) { int q = 0; T r = ccm::remquo(x, y, &q); return ccm::isnan(r) ? 0 : (q & 7); }
X2(remquo_r, rq_r(x, y), 0) X2(remquo_q, (y == 0 || !ccm::isfinite(x) ? 0 : rq_q(x, y)), 0)
static void all()
{
	R2(copysign_, SM, SM); R2(fmin_, SM, SM); R2(fmax_, SM, SM); R2(fdim_, SM, SM); R2(fmod_, SM, SM); R2(remainder_, SM, SM); R2(nextafter_, SM, SM); R2(nexttoward_, SM, SM); R2(isless_, SM, SM); R2(islessequal_, SM, SM); R2(isgreater_, SM, SM); R2(isgreaterequal_, SM, SM); R2(islessgreater_, SM, SM); R2(isunordered_, SM, SM);
	D2(remquo_r, TI, TI); D2(remquo_q, TI, TI); // (long double remquo is documented to be evaluated in double)
}
#elif MC_G == 4
F3(fma_, ccm::fma(x, y, z), 0) struct lerp_ { template <class T> static constexpr int B = 0; static constexpr int sk = 4; template <class T> static constexpr auto c(T x, T y, T z) { return ccm::lerp(x, y, z); } }; F3(hypot3_, ccm::hypot(x, y, z), 8)
static void all() { R3(fma_, TI); R3(lerp_, TI); R3(hypot3_, TN); }
#else
namespace e = ccm::ext;
X1(deg, e::degrees(x), 0) X1(rad, e::radians(x), 0) X1(fract_, e::fract(x), 0) struct rcp_ { template <class T> static constexpr int B = 0; static constexpr int sk = 6; template <class T> static constexpr auto c(T x) { return e::rcp(x); } }; X1(sat, e::saturate(x), 0) X1(sign_, e::sign(x), 0) X2(chgsign_, e::chgsign(x, y), 0) X2(step_, e::step(x, y), 0)
X2(repeat_, e::repeat(x, y), 0) X2(ping_pong_, e::ping_pong(x, y), 0) X2(delta_angle_, e::delta_angle(x, y), 0) X3(clamp_, e::clamp(x, y, z), 0) X3(lerp_angle_, e::lerp_angle(x, y, z), 0) X3(normalize_, y < z ? e::normalize(x, y, z) : x, 0) X3(mix_, e::mix(x, y, z), 0) X3(move_towards_, e::move_towards(x, y, z), 0) X3(move_towards_angle_, e::move_towards_angle(x, y, z), 0) X3(smoothstep_, x < y ? e::smoothstep(x, y, z) : x, 0) X3(approx_, e::approximately(x, y, z), 0) struct inv_lerp { template <class T> static constexpr int B = 0; static constexpr int sk = 6; template <class T> static constexpr auto c(T x, T y, T z) { return e::inverse_lerp(x, y, z); } }; struct unlerp_ { template <class T> static constexpr int B = 0; static constexpr int sk = 6; template <class T> static constexpr auto c(T x, T y, T z) { return e::unlerp(x, y, z); } };
X2(absdiff_, e::abs_diff(x, y), 0) X2(ceildiv_, e::ceil_div(x, y), 0) X1(pow2_, e::is_power_of_two(x), 0) X1(up16, (e::align_up<T, 16>(x)), 0) X1(down16, (e::align_down<T, 16>(x)), 0)
template <class T> inline constexpr unsigned UI[] = {0, 1, 2, 3, 7, 15, 16, 17, 100, 255, 256, 1u << 31, 0x7fffffffu};
template <class T> inline constexpr unsigned UD[] = {1, 2, 3, 7, 16, 100, 0x7fffffffu};
static void all()
{
	R1(deg, EXT); R1(rad, EXT); R1(fract_, EXT); R1(fract_, GEN); R1(rcp_, EXT); R1(sat, EXT); R1(sign_, EXT); R2(chgsign_, EXT, EXT); R2(step_, EXT, EXT); R2(repeat_, EXT, EXT); R2(ping_pong_, EXT, EXT); R2(delta_angle_, EXT, EXT);
	R3(lerp_angle_, E3); R3(mix_, E3); R3(move_towards_, E3); R3(move_towards_angle_, E3); R3(normalize_, E3); R3(clamp_, E3); R3(smoothstep_, E3); R3(approx_, E3); R3(inv_lerp, E3); R3(unlerp_, E3);
	S2<absdiff_, unsigned, UI<int>, UI<int>>::run("abs_diff", "unsigned"); S2<ceildiv_, unsigned, UI<int>, UD<int>>::run("ceil_div", "unsigned"); S1<pow2_, unsigned, UI<int>>::run("is_power_of_two", "unsigned"); S1<up16, unsigned, UI<int>>::run("align_up", "unsigned"); S1<down16, unsigned, UI<int>>::run("align_down", "unsigned");
	S2<absdiff_, int, II<int>, II<int>>::run("abs_diff", "int"); S1<pow2_, int, II<int>>::run("is_power_of_two", "int");
}
#endif
void mc_main() { all(); note(std::to_string(n_not) + " operand tuples are not constant expressions (infinite or NaN)"); }
