// C31 overload set: functions x tuples of arithmetic argument types x values.  MC_PART 1, 3: one and two arguments, 2: three arguments, exponents, out-parameters and suffixed names
#include "lib.hpp"
using namespace mc;
template <class T> using P = std::conditional_t<std::is_integral_v<T>, double, T>;
template <class... T> using Std = std::common_type_t<P<T>...>;
template <class... T> constexpr bool all_int = (std::is_integral_v<T> && ...);
template <class A, class... T> constexpr bool all_same = (std::is_same_v<A, T> && ...);
struct Obs { bool ok = true, have = true; u64 g = 0, e = 0; };
template <class R> static u64 bitsof(R r) { if constexpr (std::is_floating_point_v<R>) return obs_bits(r); else return static_cast<u64>(static_cast<long long>(r)); }
// ---------------------------------------------------------------- the types and their values
#if MC_PART != 2
using Types = std::tuple<float, double, long double, bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t>;
static const char * const tnames[] = {"float", "double", "long double", "bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "wchar_t", "char16_t", "char32_t"};
#else
using Types = std::tuple<float, double, long double, signed char, int, unsigned, long, unsigned long long>;
static const char * const tnames[] = {"float", "double", "long double", "signed char", "int", "unsigned", "long", "unsigned long long"};
#endif
constexpr int NT = std::tuple_size_v<Types>;
template <int I> using Ty = std::tuple_element_t<I, Types>;
constexpr int NV = 26;
template <class T> static T value(int i)
{
	using L = std::numeric_limits<T>;
	if constexpr (std::is_floating_point_v<T>)
	{
		const T v[NV] = {T(0), T(1), T(2), T(3), T(-1), T(0.5), T(-2.5), T(7.75), T(100), T(16777217.0L), T(9007199254740993.0L), T(4294967297.0L), L::max(), L::infinity(), L::quiet_NaN(), L::min(), -T(0), T(0.1L), T(-3), T(1e-3L), L::denorm_min(), T(-16777219.0L), T(18446744073709551615.0L), T(1.0L) + L::epsilon(), T(6), -L::infinity()};
		return v[i];
	}
	else
	{
		const long long v[NV] = {0, 1, 2, 3, -1, 4, -2, 7, 100, 16777217, 9007199254740993ll, 4294967297ll, LLONG_MAX, LLONG_MIN, 127, -128, 255, 32767, -3, 2147483647ll, -2147483648ll, -16777219, 33554433, 36028797018963969ll, 6, 5};
		if (i == 12) return L::max();
		if (i == 13) return L::min();
		return static_cast<T>(v[i]);
	}
}
template <class T> static std::string vs(T v) { char b[64]; if constexpr (std::is_floating_point_v<T>) std::snprintf(b, 64, "%La", static_cast<long double>(v)); else std::snprintf(b, 64, "%lld", static_cast<long long>(v)); return b; }
// ---------------------------------------------------------------- functions
enum Rule { kStd, kFirst, kBool, kInt, kSameInt, kCommon, kLast };
#define FN(N, RULE) struct f_##N { static constexpr Rule rule = RULE; static const char * name() { return #N; } \
	template <class... T> static auto call(T... x) -> decltype(ccm::N(x...)) { return ccm::N(x...); } };
template <class F, class... T> struct Res { using type = Std<T...>; };
template <Rule R, class... T> struct ByRule { using type = Std<T...>; };
template <class... T> struct ByRule<kBool, T...> { using type = bool; };
template <class... T> struct ByRule<kInt, T...> { using type = int; };
// documented: two (three) integers of one type keep it, different ones go to their common type or double
template <class A, class... T> struct ByRule<kSameInt, A, T...> { using type = std::conditional_t<all_int<A> && all_same<A, T...>, A, Std<A, T...>>; };
template <class... T> struct ByRule<kCommon, T...> { using type = std::conditional_t<all_int<T...>, std::common_type_t<T...>, Std<T...>>; };
template <class... T> struct ByRule<kLast, T...> { using type = std::common_type_t<T...>; };
template <class F, class V, class... T> struct Has : std::false_type {};
template <class F, class... T> struct Has<F, std::void_t<decltype(F::template call<T...>(std::declval<T>()...))>, T...> : std::true_type {};
struct Lt { const char * t; std::string g, e; };
template <class R> static const char * tn()
{
	if constexpr (std::is_same_v<R, float>) return "float"; else if constexpr (std::is_same_v<R, double>) return "double"; else if constexpr (std::is_same_v<R, long double>) return "long double";
	else if constexpr (std::is_same_v<R, bool>) return "bool"; else if constexpr (std::is_same_v<R, int>) return "int"; else return "another type";
}

// what one call gave and what it should have given; formatted outside the templates
struct Out { bool skip = false, have = true, ok = true, fl = false; const char * tg = "", * te = ""; long double g = 0, e = 0; long long gi = 0, ei = 0; };
template <class T> static void put(Out & o, T g, T e) { o.tg = o.te = tn<T>(); if constexpr (std::is_floating_point_v<T>) { o.fl = true; o.g = g; o.e = e; } else { o.gi = static_cast<long long>(g); o.ei = static_cast<long long>(e); } o.ok = bitsof(g) == bitsof(e); }
static bool tell(const Out & o, Rep * r)
{
	if (o.skip) MC_RET(true, "", "");
	if (!o.have) MC_RET(false, "no overload", std::string("an overload returning ") + o.te);
	if (o.tg != o.te) MC_RET(false, std::string("result type ") + o.tg, o.te);
	if (o.fl) MC_RET(o.ok, vs(o.g), vs(o.e) + " (arguments converted first)");
	MC_RET(o.ok, vs(o.gi), vs(o.ei) + " (arguments converted first)");
}
template <class F, class... T> static void one(Out & o, T... x)
{
	using R = typename ByRule<F::rule, T...>::type;
	o.te = tn<R>();
	if constexpr (!Has<F, void, T...>::value) { o.have = false; }
	else
	{
		using G = decltype(F::template call<T...>(x...));
		if constexpr (!std::is_same_v<G, R>) { o.tg = tn<G>(); o.ok = false; if (o.tg == o.te) o.tg = "different from the expected"; }
		else if constexpr (std::is_integral_v<R> && (F::rule == kCommon || F::rule == kLast || F::rule == kSameInt))
		{
			// an integer result kept in its type: defined only when it does not overflow, and equal to the long double function
			if constexpr (F::rule == kCommon || (F::rule == kLast && sizeof...(T) == 3)) { if (sizeof(R) < 4 || std::is_unsigned_v<R> || !((static_cast<long double>(x) < 30000 && static_cast<long double>(x) > -30000) && ...)) { o.skip = true; return; } }
			R g = F::template call<T...>(hide(x)...); long double e = F::template call<std::conditional_t<true, long double, T>...>(static_cast<long double>(static_cast<R>(x))...);
			put(o, static_cast<long double>(g), e); if (g == static_cast<R>(0) && e == 0) o.ok = true;
		}
		else
		{
			using D = std::conditional_t<F::rule == kLast, R, Std<T...>>;
			R g = F::template call<T...>(hide(x)...);
			R e = F::template call<std::conditional_t<true, D, T>...>(static_cast<D>(x)...);
			put(o, g, e);
		}
	}
}
// words: type indices then value indices
template <class F, int A> static Out t1(const u64 * w) { Out o; one<F>(o, value<Ty<A>>(static_cast<int>(w[1]))); return o; }
template <class F, int A, int B> static Out t2(const u64 * w) { Out o; one<F>(o, value<Ty<A>>(static_cast<int>(w[2])), value<Ty<B>>(static_cast<int>(w[3]))); return o; }
template <class F, int A, int B, int C> static Out t3(const u64 * w) { Out o; one<F>(o, value<Ty<A>>(static_cast<int>(w[3])), value<Ty<B>>(static_cast<int>(w[4])), value<Ty<C>>(static_cast<int>(w[5]))); return o; }
using Fn = bool (*)(const u64 *, Rep *);
using Fo = Out (*)(const u64 *);
template <class F, int... I> static Fo pick1(int k, std::integer_sequence<int, I...>) { static const Fo t[] = {t1<F, I>...}; return t[k]; }
template <class F, int... I> static Fo pick2(int k, std::integer_sequence<int, I...>) { static const Fo t[] = {t2<F, I / NT, I % NT>...}; return t[k]; }
template <class F, int... I> static Fo pick3(int k, std::integer_sequence<int, I...>) { static const Fo t[] = {t3<F, I / (NT * NT), I / NT % NT, I % NT>...}; return t[k]; }
template <class F> static bool j1(const u64 * w, Rep * r) { return tell(pick1<F>(static_cast<int>(w[0]), std::make_integer_sequence<int, NT>{})(w), r); }
template <class F> static bool j2(const u64 * w, Rep * r) { return tell(pick2<F>(static_cast<int>(w[0] * NT + w[1]), std::make_integer_sequence<int, NT * NT>{})(w), r); }
template <class F> static bool j3(const u64 * w, Rep * r) { return tell(pick3<F>(static_cast<int>((w[0] * NT + w[1]) * NT + w[2]), std::make_integer_sequence<int, NT * NT * NT>{})(w), r); }
template <class F> static const char * cat(const char * s) { return (new std::string(std::string(F::name()) + s))->c_str(); }
template <class F> static void run1() { explore(cat<F>(" (1)"), 2, 1, u64(NT) * NV, [](u64 i, u64 * w) { w[0] = i / NV; w[1] = i % NV; }, j1<F>); }
template <class F> static void run2() { explore(cat<F>(" (2)"), 4, 1, u64(NT) * NT * NV * NV, [](u64 i, u64 * w) { w[3] = i % NV; i /= NV; w[2] = i % NV; i /= NV; w[1] = i % NT; w[0] = i / NT; }, j2<F>); }
template <class F> static void run3()
{
	static u64 st; st = thorough ? 1 : 7; // 7 is prime to every radix: all type tuples and all value pairs are met
	explore(cat<F>(" (3)"), 6, 1, u64(NT) * NT * NT * NV * NV * NV / st, [](u64 i, u64 * w) { i *= st; for (int k = 5; k >= 3; --k) { w[k] = i % NV; i /= NV; } w[2] = i % NT; i /= NT; w[1] = i % NT; w[0] = i / NT; }, j3<F>);
}
#if MC_PART != 2
FN(floor, kStd) FN(ceil, kStd) FN(trunc, kStd) FN(round, kStd) FN(rint, kStd) FN(nearbyint, kStd) FN(fabs, kStd) FN(exp, kStd) FN(exp2, kStd) FN(expm1, kStd) FN(log, kStd) FN(log2, kStd) FN(log10, kStd) FN(log1p, kStd)
FN(sin, kStd) FN(cos, kStd) FN(tan, kStd) FN(asin, kStd) FN(acos, kStd) FN(atan, kStd) FN(sqrt, kStd) FN(cbrt, kStd) FN(tgamma, kStd) FN(lgamma, kStd) FN(gamma, kStd) FN(logb, kStd) FN(ilogb, kInt) FN(fpclassify, kInt)
FN(isnan, kBool) FN(isinf, kBool) FN(isfinite, kBool) FN(isnormal, kBool) FN(signbit, kBool)
FN(nextup, kStd) FN(nextdown, kStd)
FN(fmin, kSameInt) FN(fmax, kStd) FN(min, kLast) FN(max, kLast) FN(fdim, kStd) FN(fmod, kStd) FN(remainder, kStd) FN(copysign, kStd) FN(nextafter, kStd) FN(pow, kStd) FN(hypot, kStd) FN(atan2, kStd)
FN(isgreater, kBool) FN(isgreaterequal, kBool) FN(isless, kBool) FN(islessequal, kBool) FN(islessgreater, kBool) FN(isunordered, kBool)
// abs keeps a signed integer type; nexttoward takes its direction as long double
template <int A> static bool t_abs(const u64 * w, Rep * r)
{
	using T = Ty<A>; T x = value<T>(static_cast<int>(w[1]));
	if constexpr (std::is_floating_point_v<T>) { auto g = ccm::abs(hide(x)); T e = std::fabs(x); MC_RET((std::is_same_v<decltype(g), T>) && obs_bits(g) == obs_bits(e), vs(g), vs(e)); }
	else if constexpr (std::is_signed_v<T>) { if (x == std::numeric_limits<T>::min()) MC_RET(true, "", ""); auto g = ccm::abs(hide(x)); T e = static_cast<T>(x < 0 ? -x : x); MC_RET((std::is_same_v<decltype(g), T>) && g == e, vs(g), vs(e)); }
	else if constexpr (sizeof(T) < 4) { auto g = ccm::abs(hide(x)); MC_RET(g == static_cast<decltype(g)>(x), vs(g), vs(x)); }
	else MC_RET(true, "", "");
}
template <int A, int B> static bool t_nt(const u64 * w, Rep * r)
{
	using T = Ty<A>; T x = value<T>(static_cast<int>(w[2])); auto y = value<Ty<B>>(static_cast<int>(w[3]));
	auto g = ccm::nexttoward(hide(x), hide(y)); P<T> e = ccm::nexttoward(static_cast<P<T>>(x), static_cast<long double>(y));
	MC_RET((std::is_same_v<decltype(g), P<T>>) && obs_bits(g) == obs_bits(static_cast<decltype(g)>(e)), std::string(tn<decltype(g)>()) + " " + vs(g), std::string(tn<P<T>>()) + " " + vs(e));
}
template <int... I> static Fn pick_abs(int k, std::integer_sequence<int, I...>) { static const Fn t[] = {t_abs<I>...}; return t[k]; }
template <int... I> static Fn pick_nt(int k, std::integer_sequence<int, I...>) { static const Fn t[] = {t_nt<I / NT, I % NT>...}; return t[k]; }
static bool j_abs(const u64 * w, Rep * r) { return pick_abs(static_cast<int>(w[0]), std::make_integer_sequence<int, NT>{})(w, r); }
static bool j_nt(const u64 * w, Rep * r) { return pick_nt(static_cast<int>(w[0] * NT + w[1]), std::make_integer_sequence<int, NT * NT>{})(w, r); }
template <class... F> static void all1() { (run1<F>(), ...); }
template <class... F> static void all2() { (run2<F>(), ...); }
void mc_main()
{
#if MC_PART == 3
	explore("abs (1)", 2, 1, u64(NT) * NV, [](u64 i, u64 * w) { w[0] = i / NV; w[1] = i % NV; }, j_abs);
	all1<f_floor, f_ceil, f_trunc, f_round, f_rint, f_nearbyint, f_fabs, f_exp, f_exp2, f_expm1, f_log, f_log2, f_log10, f_log1p, f_sin, f_cos, f_tan, f_asin, f_acos, f_atan, f_sqrt, f_cbrt, f_tgamma, f_lgamma, f_gamma, f_logb, f_ilogb, f_fpclassify, f_isnan, f_isinf, f_isfinite, f_isnormal, f_signbit, f_nextup, f_nextdown>();
#endif
#if MC_PART == 1
	all2<f_fmin, f_fmax, f_min, f_max, f_fdim, f_fmod, f_remainder, f_copysign, f_nextafter>();
#else
	all2<f_pow, f_hypot, f_atan2, f_isgreater, f_isgreaterequal, f_isless, f_islessequal, f_islessgreater, f_isunordered>();
#endif
#if MC_PART == 1
	explore("nexttoward (2)", 4, 1, u64(NT) * NT * NV * NV, [](u64 i, u64 * w) { w[3] = i % NV; i /= NV; w[2] = i % NV; i /= NV; w[1] = i % NT; w[0] = i / NT; }, j_nt);
#endif
}
#else
struct f_fma : Lt { static constexpr Rule rule = kCommon; static const char * name() { return "fma"; } template <class... T> static auto call(T... x) -> decltype(ccm::fma(x...)) { return ccm::fma(x...); } };
struct f_lerp : Lt { static constexpr Rule rule = kLast; static const char * name() { return "lerp"; } template <class... T> static auto call(T... x) -> decltype(ccm::lerp(x...)) { return ccm::lerp(x...); } };
FN(hypot, kStd)
// remquo, ldexp, scalbn, scalbln
template <int A, int B> static bool t_rq(const u64 * w, Rep * r)
{
	using C = Std<Ty<A>, Ty<B>>; auto x = value<Ty<A>>(static_cast<int>(w[2])); auto y = value<Ty<B>>(static_cast<int>(w[3])); int q = 77, p = 77;
	auto g = ccm::remquo(hide(x), hide(y), &q); C e = ccm::remquo(static_cast<C>(x), static_cast<C>(y), &p);
	const bool qs = e != e || y == 0 || q == p;
	MC_RET((std::is_same_v<decltype(g), C>) && obs_bits(g) == obs_bits(static_cast<decltype(g)>(e)) && qs, std::string(tn<decltype(g)>()) + " " + vs(g) + " " + vs(q), std::string(tn<C>()) + " " + vs(e) + " " + vs(p));
}
static const long exps[] = {0, 1, -1, 5, 52, -52, 120, -140, 1023, -1030, 1100, 16390, -16500, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, 4294967296l};
template <int A> static bool t_sc(const u64 * w, Rep * r)
{
	using T = Ty<A>; T x = value<T>(static_cast<int>(w[1])); long e = exps[w[2]]; P<T> d = static_cast<P<T>>(x); int ei = e > INT_MAX ? INT_MAX : e < INT_MIN ? INT_MIN : static_cast<int>(e);
	auto a = ccm::ldexp(hide(x), hide(ei)); auto b = ccm::scalbn(hide(x), hide(ei)); auto c = ccm::scalbn(hide(x), hide(e)); auto f = ccm::scalbln(hide(x), hide(e));
	constexpr bool ty = std::is_same_v<decltype(a), P<T>> && std::is_same_v<decltype(b), P<T>> && std::is_same_v<decltype(c), P<T>> && std::is_same_v<decltype(f), P<T>>;
	P<T> wa = ccm::ldexp(d, ei);
	MC_RET(ty && bitsof(a) == bitsof(wa) && bitsof(b) == bitsof(wa) && bitsof(c) == bitsof(wa) && bitsof(f) == bitsof(wa), (ty ? "" : "wrong type ") + vs(a) + " " + vs(b) + " " + vs(c) + " " + vs(f), vs(wa));
}
template <int... I> static Fn pick_rq(int k, std::integer_sequence<int, I...>) { static const Fn t[] = {t_rq<I / NT, I % NT>...}; return t[k]; }
template <int... I> static Fn pick_sc(int k, std::integer_sequence<int, I...>) { static const Fn t[] = {t_sc<I>...}; return t[k]; }
static bool j_rq(const u64 * w, Rep * r) { return pick_rq(static_cast<int>(w[0] * NT + w[1]), std::make_integer_sequence<int, NT * NT>{})(w, r); }
static bool j_sc(const u64 * w, Rep * r) { return pick_sc(static_cast<int>(w[0]), std::make_integer_sequence<int, NT>{})(w, r); }
// suffixed names, called with every argument type: the float / long double function of the converted argument
#define SFX1(N) { static const Fn tf[] = {sf1_##N<0>, sf1_##N<1>, sf1_##N<2>, sf1_##N<3>, sf1_##N<4>, sf1_##N<5>, sf1_##N<6>, sf1_##N<7>}; static auto j = tf; (void)j; explore(#N "f/" #N "l", 2, 2, u64(NT) * NV, [](u64 i, u64 * w) { w[0] = i / NV; w[1] = i % NV; }, [](const u64 * w, Rep * r) { return tf[w[0]](w, r); }); }
#define DSF1(N) template <int A> static bool sf1_##N(const u64 * w, Rep * r) { auto x = value<Ty<A>>(static_cast<int>(w[1])); float xf = static_cast<float>(x); long double xl = static_cast<long double>(x); \
	auto a = ccm::N##f(hide(x)); auto b = ccm::N##l(hide(x)); auto ea = ccm::N(xf); auto eb = ccm::N(xl); constexpr bool ty = std::is_same_v<decltype(a), decltype(ea)> && std::is_same_v<decltype(b), decltype(eb)>; \
	MC_RET(ty && bitsof(a) == bitsof(ea) && bitsof(b) == bitsof(eb), (ty ? "" : "wrong type ") + vs(a) + " " + vs(b), vs(ea) + " " + vs(eb)); }
#define SFX2(N) { static const Fn tf[] = {sf2_##N<0>, sf2_##N<1>, sf2_##N<2>, sf2_##N<3>, sf2_##N<4>, sf2_##N<5>, sf2_##N<6>, sf2_##N<7>}; explore(#N "f/" #N "l", 3, 2, u64(NT) * NV * NV, [](u64 i, u64 * w) { w[2] = i % NV; i /= NV; w[0] = i / NV; w[1] = i % NV; }, [](const u64 * w, Rep * r) { return tf[w[0]](w, r); }); }
#define DSF2(N) template <int A> static bool sf2_##N(const u64 * w, Rep * r) { auto x = value<Ty<A>>(static_cast<int>(w[1])); auto y = value<Ty<A>>(static_cast<int>(w[2])); float xf = static_cast<float>(x), yf = static_cast<float>(y); long double xl = static_cast<long double>(x), yl = static_cast<long double>(y); \
	auto a = ccm::N##f(hide(x), hide(y)); auto b = ccm::N##l(hide(x), hide(y)); auto ea = ccm::N(xf, yf); auto eb = ccm::N(xl, yl); constexpr bool ty = std::is_same_v<decltype(a), decltype(ea)> && std::is_same_v<decltype(b), decltype(eb)>; \
	MC_RET(ty && bitsof(a) == bitsof(ea) && bitsof(b) == bitsof(eb), (ty ? "" : "wrong type ") + vs(a) + " " + vs(b), vs(ea) + " " + vs(eb)); }
#define ALL1(X) X(floor) X(ceil) X(trunc) X(round) X(rint) X(nearbyint) X(fabs) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sqrt) X(cbrt) X(tgamma) X(lgamma) X(logb) X(ilogb) X(nextup) X(nextdown)
#define ALL2(X) X(fmin) X(fmax) X(fdim) X(fmod) X(remainder) X(copysign) X(nextafter) X(pow) X(hypot) X(atan2)
ALL1(DSF1)
ALL2(DSF2)
// suffixed names with other parameter lists
static bool j_misc(const u64 * w, Rep * r)
{
	float f = value<float>(static_cast<int>(w[0])), f2 = value<float>(static_cast<int>(w[1])); long double l = value<long double>(static_cast<int>(w[0])), l2 = value<long double>(static_cast<int>(w[1]));
	int e1 = 7, e2 = 7, e3 = 7; const bool fin = f - f == 0, finl = l - l == 0; long k = exps[w[2]]; int ki = k > INT_MAX ? INT_MAX : k < INT_MIN ? INT_MIN : static_cast<int>(k);
#define EQ(g, e, what) do { auto g_ = (g); auto e_ = (e); if (!std::is_same_v<decltype(g_), decltype(e_)> || bitsof(g_) != bitsof(e_)) MC_RET(false, std::string(what) + " " + vs(g_), vs(e_)); } while (0)
	EQ(ccm::frexpf(hide(f), &e1), ccm::frexp(f, &e2), "frexpf"); if (fin) EQ(e1, e2, "frexpf exponent"); EQ(ccm::frexpf(hide(f), e3), ccm::frexp(f, e2), "frexpf&"); if (fin) EQ(e3, e2, "frexpf& exponent");
	EQ(ccm::frexpl(hide(l), &e1), ccm::frexp(l, &e2), "frexpl"); if (finl) EQ(e1, e2, "frexpl exponent"); EQ(ccm::frexpl(hide(l), e3), ccm::frexp(l, e2), "frexpl&"); if (finl) EQ(e3, e2, "frexpl& exponent");
	float fi = 9, fi2 = 9; EQ(ccm::modff(hide(f), &fi), ccm::modf(f, &fi2), "modff"); EQ(fi, fi2, "modff integer part");
	long double li = 9, li2 = 9; EQ(ccm::modfl(hide(l), &li), ccm::modf(l, &li2), "modfl"); EQ(li, li2, "modfl integer part");
	EQ(ccm::ldexpf(hide(f), ki), ccm::ldexp(f, ki), "ldexpf"); EQ(ccm::ldexpl(hide(l), ki), ccm::ldexp(l, ki), "ldexpl");
	EQ(ccm::scalbnf(hide(f), ki), ccm::ldexp(f, ki), "scalbnf"); EQ(ccm::scalbnl(hide(l), ki), ccm::ldexp(l, ki), "scalbnl"); EQ(ccm::scalbnf(hide(f), k), ccm::ldexp(f, ki), "scalbnf(long)"); EQ(ccm::scalbnl(hide(l), k), ccm::ldexp(l, ki), "scalbnl(long)");
	EQ(ccm::scalblnf(hide(f), k), ccm::ldexp(f, ki), "scalblnf"); EQ(ccm::scalblnl(hide(l), k), ccm::ldexp(l, ki), "scalblnl");
	EQ(ccm::nexttowardf(hide(f), hide(l2)), ccm::nexttoward(f, l2), "nexttowardf"); EQ(ccm::nexttowardl(hide(l), hide(l2)), ccm::nexttoward(l, l2), "nexttowardl");
	e1 = e2 = 7; EQ(ccm::remquof(hide(f), hide(f2), &e1), ccm::remquo(f, f2, &e2), "remquof"); if (fin && f2 != 0 && f2 == f2) EQ(e1, e2, "remquof quotient");
	e1 = e2 = 7; EQ(ccm::remquol(hide(l), hide(l2), &e1), ccm::remquo(l, l2, &e2), "remquol"); if (finl && l2 != 0 && l2 == l2) EQ(e1, e2, "remquol quotient");
	EQ(ccm::fmaf(hide(f), hide(f2), f2), ccm::fma(f, f2, f2), "fmaf"); EQ(ccm::fmal(hide(l), hide(l2), l2), ccm::fma(l, l2, l2), "fmal");
	if (w[1] == 0 && w[2] == 0) { if (l >= -1e18L && l <= 1e18L) { long n = static_cast<long>(l); EQ(ccm::labs(n), n < 0 ? -n : n, "labs"); EQ(ccm::llabs(static_cast<long long>(n)), static_cast<long long>(n < 0 ? -n : n), "llabs"); } }
	MC_RET(true, "equal", "equal");
}
void mc_main()
{
	run3<f_hypot>(); run3<f_fma>(); run3<f_lerp>();
	explore("remquo", 4, 2, u64(NT) * NT * NV * NV, [](u64 i, u64 * w) { w[3] = i % NV; i /= NV; w[2] = i % NV; i /= NV; w[1] = i % NT; w[0] = i / NT; }, j_rq);
	constexpr u64 NE = sizeof exps / sizeof *exps;
	explore("ldexp/scalbn/scalbln", 3, 4, u64(NT) * NV * NE, [](u64 i, u64 * w) { w[2] = i % NE; i /= NE; w[1] = i % NV; w[0] = i / NV; }, j_sc);
	explore("suffixed names with other parameters", 3, 18, u64(NV) * NV * NE, [](u64 i, u64 * w) { w[2] = i % NE; i /= NE; w[1] = i % NV; w[0] = i / NV; }, j_misc);
	ALL1(SFX1) ALL2(SFX2)
}
#endif
