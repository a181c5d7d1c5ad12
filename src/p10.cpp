// C10 power function
#include "lib.hpp"
#include <mpfr.h>
using namespace mc;
extern "C" __float128 powq(__float128, __float128);
#ifdef MC_MODES
constexpr u64 NM = 4;
#else
constexpr u64 NM = 1;
#endif
#ifdef MC_CR
constexpr bool always_cr = true; // in-tree kernel: correctly rounded in every mode
#else
constexpr bool always_cr = false; // to nearest the platform's pow is used
#endif
static const mpfr_rnd_t MR[4] = {MPFR_RNDN, MPFR_RNDU, MPFR_RNDD, MPFR_RNDZ};
template <class T> static T mp_pow(T x, T y, int m)
{ // exact: ternary value plus subnormal handling of MPFR
	using F = Fp<T>;
	static thread_local bool init = false; static thread_local mpfr_t a, b, r;
	if (!init) { mpfr_init2(a, F::p); mpfr_init2(b, F::p); mpfr_init2(r, F::p); mpfr_set_emin(F::emin - F::p + 2); mpfr_set_emax(F::emax + 1); init = true; }
	mpfr_set_emin(F::emin - F::p + 2); mpfr_set_emax(F::emax + 1);
	mpfr_set_d(a, static_cast<double>(x), MPFR_RNDN); mpfr_set_d(b, static_cast<double>(y), MPFR_RNDN);
	int t = mpfr_pow(r, a, b, MR[m]); mpfr_subnormalize(r, t, MR[m]);
	return static_cast<T>(mpfr_get_d(r, MPFR_RNDN));
}
// one rounding of the wide value q (exact) in mode m; all arithmetic in round-to-nearest
template <class T, class Q> static T rnd(Q q, int m)
{
	T h = static_cast<T>(q);
	if (is_inf(h)) { T big = std::numeric_limits<T>::max(); if (m == 0) return h; bool pos = q > 0; if (m == 3 || (m == 1 && !pos) || (m == 2 && pos)) return pos ? big : -big; return h; }
	Q d = q - static_cast<Q>(h);
	if (d == 0 || m == 0) return h;
	if (m == 1) return d > 0 ? std::nextafter(h, std::numeric_limits<T>::infinity()) : h;
	if (m == 2) return d < 0 ? std::nextafter(h, -std::numeric_limits<T>::infinity()) : h;
	return q > 0 ? (d < 0 ? std::nextafter(h, T(0)) : h) : (d > 0 ? std::nextafter(h, T(0)) : h);
}
template <class T, class Q> static bool certain(Q q, Q eps, int m, T & out)
{
	T a = rnd<T, Q>(q * (1 - eps), m), b = rnd<T, Q>(q * (1 + eps), m);
	out = a; return same(a, b);
}
template <class T> static bool special(T x, T y) { return is_nan(x) || is_nan(y) || is_inf(x) || is_inf(y) || x == 0 || y == 0 || x == 1 || (x < 0 && y != std::trunc(y)); }
template <class T> static T exact(T x, T y, int m)
{
	if (special(x, y)) return std::pow(x, y); // the C library follows the C standard's table exactly
	if (x == -1) return std::fmod(y, T(2)) == 0 ? T(1) : T(-1);
	bool neg = x < 0 && std::fmod(y, T(2)) != 0;
	T ax = x < 0 ? -x : x;
	int mm = neg ? (m == 1 ? 2 : m == 2 ? 1 : m) : m; // magnitude rounding
	long double l = std::pow(static_cast<long double>(ax), static_cast<long double>(y));
	T r;
	bool ok;
	if (l == 0 || l < 0x1p-16300L) { ok = certain<T, long double>(0x1p-16300L, 0x1p-60L, mm, r); }
	else if (is_inf(l) || l > 0x1p16300L) { ok = certain<T, long double>(0x1p16300L, 0x1p-60L, mm, r); }
	else ok = certain<T, long double>(l, 0x1p-61L, mm, r);
	if (!ok && !std::is_same_v<T, float>)
	{
		__float128 q = powq(ax, y);
		ok = certain<T, __float128>(q, static_cast<__float128>(0x1p-107), mm, r);
	}
	if (!ok) r = mp_pow(ax, y, mm);
	return neg ? -r : r;
}
// Correct rounding, except that results within 2^-40 ulp of a rounding boundary may go to either neighbour (strict: never).
template <class T> static bool rounded_ok(T g, T x, T y, int m, bool strict, T & e)
{
	e = exact(x, y, m);
	if (same(g, e)) return true;
	if (strict || special(x, y) || x == -1 || is_nan(g)) return false;
	bool neg = x < 0 && std::fmod(y, T(2)) != 0;
	if (sgn(g) != neg) return false;
	__float128 l = powq(x < 0 ? -x : x, y);
	T a = neg ? -g : g;
	int mm = neg ? (m == 1 ? 2 : m == 2 ? 1 : m) : m;
	__float128 u = static_cast<__float128>(ulp_of(T{}, static_cast<long double>(l))) * static_cast<__float128>(0x1p-40);
	T c = rnd<T, __float128>(l - u < 0 ? l : l - u, mm), d = rnd<T, __float128>(l + u, mm);
	return same(a, c) || same(a, d);
}
template <class T> static bool j_pow(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w + 1), y = Fp<T>::get(w + 2);
#ifdef MC_CTMODE
	int m = 0; for (int k = 0; k < 4; ++k) if (RM[k] == CCM_CONSTEXPR_ROUNDING_MODE) m = k;
	T g = keep(ccm::pow(hide(x), hide(y)));
#else
	int m = static_cast<int>(w[0] & 3);
	T g; { Round q(RM[m]); g = keep(ccm::pow(hide(x), hide(y))); }
#endif
	if (always_cr || m != 0 || special(x, y)) { T e; bool ok = rounded_ok(g, x, y, m, false, e); MC_RET(ok, show(g), show(e)); }
	// platform pow, to nearest: within one ulp
	bool neg = x < 0 && std::fmod(y, T(2)) != 0;
	long double l = std::pow(static_cast<long double>(x < 0 ? -x : x), static_cast<long double>(y)); if (neg) l = -l;
	if (l == 0 || is_inf(l)) { T e = exact(x, y, 0); MC_RET_SAME(g, e); }
	MC_RET(within<T>(g, static_cast<typename Fp<T>::R>(l), 1.0) || same(g, exact(x, y, 0)), show(g), show(l));
}
template <class T> static const char * nmx(const char * a) { static std::vector<std::string> keepv; keepv.push_back(std::string(a) + " " + Fp<T>::name); return (new std::string(keepv.back()))->c_str(); }
template <class T> static void run(int estep)
{
	using L = std::numeric_limits<T>;
	static std::vector<T> v = alphabet<T>(estep);
	explore(nmx<T>("pairs"), 3, 1, v.size() * v.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; put(v[i / v.size()], w + 1); put(v[i % v.size()], w + 2); }, j_pow<T>);
	// exact and halfway cases: k-bit significands to small integer and dyadic powers
	static const u64 B = thorough ? 1024 : 200;
	static std::vector<T> es; for (int k = -36; k <= 64; ++k) { es.push_back(static_cast<T>(k)); if (k > -8 && k < 24) { es.push_back(k + T(0.5)); es.push_back(k + T(0.25)); es.push_back(k + T(0.125)); } }
	static const int SC[5] = {0, -1, 4, -7, 16};
	explore(nmx<T>("exact"), 3, 1, B * 5 * es.size() * 2 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; int s = static_cast<int>(i & 1); i >>= 1; T y = es[i % es.size()]; i /= es.size(); int sc = SC[i % 5]; i /= 5; T x = std::ldexp(static_cast<T>(i + 1), sc); put(s ? -x : x, w + 1); put(y, w + 2); }, j_pow<T>);
	// perfect powers: x = k^n (so that fractional exponents give exact results), one ulp around
	explore(nmx<T>("roots"), 3, 1, B * 6 * 3 * 2 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; bool inv = i & 1; i >>= 1; int d = static_cast<int>(i % 3); i /= 3; static const int NN[6] = {2, 4, 8, 16, 3, 5}; int n = NN[i % 6]; i /= 6; T k = static_cast<T>(i + 1), x = 1; for (int q = 0; q < n; ++q) x *= k; if (is_inf(x)) x = L::max(); if (d == 1) x = up(x); else if (d == 2) x = dn(x); put(x, w + 1); T y = T(1) / static_cast<T>(n); put(inv ? -y : y, w + 2); }, j_pow<T>);
	// results at the overflow, underflow and subnormal boundaries: for every base the exponents that hit a target
	static std::vector<T> bs; { Grid<T> g(3, 0, std::is_same_v<T, float> ? 254 : 2046, false, 2); u64 step = std::is_same_v<T, float> ? 3 : thorough ? 5 : 31; for (u64 i = 0; i < g.n(); i += step) { u64 q[2]; g(i, q); T b = Fp<T>::get(q); if (b > 0 && b != 1) bs.push_back(b); } T one = 1; for (int k = 0; k < 12; ++k) { one = up(one); bs.push_back(one); } one = 1; for (int k = 0; k < 12; ++k) { one = dn(one); bs.push_back(one); } }
	static std::vector<int> tg; for (int a : {Fp<T>::emax + 1, Fp<T>::emax, Fp<T>::emin, Fp<T>::emin - 1, Fp<T>::emin - Fp<T>::p / 2, Fp<T>::emin - Fp<T>::p + 2, Fp<T>::emin - Fp<T>::p + 1, Fp<T>::emin - Fp<T>::p}) tg.push_back(a);
	explore(nmx<T>("boundary"), 3, 1, bs.size() * tg.size() * 13 * 2 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; bool s = i & 1; i >>= 1; int d = static_cast<int>(i % 13) - 6; i /= 13; int t = tg[i % tg.size()]; i /= tg.size(); T b = bs[i]; T y = static_cast<T>(static_cast<long double>(t) / std::log2(static_cast<long double>(b))); for (int q = 0; q < (d < 0 ? -d : d); ++q) y = d < 0 ? dn(y) : up(y); put(s ? -b : b, w + 1); put(y, w + 2); }, j_pow<T>);
	// fractions of a step below and above the smallest subnormal, and small multiples of halves: powers of two and ten
	explore(nmx<T>("two and ten"), 3, 1, 4 * 2048 * 3 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; int d = static_cast<int>(i % 3); i /= 3; static const T BB[4] = {T(2), T(10), T(0.5), T(4)}; T b = BB[i & 3]; i >>= 2; T y = static_cast<T>(Fp<T>::emin - Fp<T>::p - 4) + static_cast<T>(i) * (static_cast<T>(Fp<T>::emax - Fp<T>::emin + Fp<T>::p + 8) / T(2048)); if (i & 1) y = std::floor(y * 4) / 4; if (d == 1) y = up(y); else if (d == 2) y = dn(y); put(b, w + 1); put(y, w + 2); }, j_pow<T>);
	// every reduction-table index of the base (two levels), crossed with exponents that reach every 2^(k/64) segment
	static const int EX[4] = {0, -1, 3, -20};
	static const u64 MI = thorough ? 8192 : 1024, YI = thorough ? 400 : 96;
	explore(nmx<T>("table"), 3, 1, MI * 4 * YI * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; u64 yi = i % YI; i /= YI; int ex = EX[i & 3]; i >>= 2; T x = std::ldexp(T(1) + static_cast<T>(i) / static_cast<T>(MI) + (i & 1 ? std::ldexp(T(1.3), -Fp<T>::p + 6) : T(0)), ex); T y = static_cast<T>(0.37L + 1.6180339887L * static_cast<long double>(yi % 48)) / (yi & 1 ? T(-7) : T(11)); if (yi >= 48) y = static_cast<T>(yi - 47) * T(0.0173) ; put(x, w + 1); put(y, w + 2); }, j_pow<T>);
	// bases next to one with exponents that move the result over the whole range
	static std::vector<T> ys; { Grid<T> g(2, 0, std::is_same_v<T, float> ? 254 : 2046, true, 2); u64 step = std::is_same_v<T, float> ? 3 : 23; for (u64 i = 0; i < g.n(); i += step) { u64 q[2]; g(i, q); ys.push_back(Fp<T>::get(q)); } }
	static const u64 NB = 64;
	explore(nmx<T>("near one"), 3, 1, 2 * NB * ys.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; T y = ys[i % ys.size()]; i /= ys.size(); int k = static_cast<int>(i >> 1); T u = std::ldexp(T(1), -(k % Fp<T>::p)) * (k >= Fp<T>::p ? T(1.37) : T(1)); put(i & 1 ? 1 + u : 1 - u / 2, w + 1); put(y, w + 2); }, j_pow<T>);
}
// long double, to nearest: the in-tree 80-bit kernel and the platform's, within an error that grows with the exponent of the result
static bool j_powl(const u64 * w, Rep * r)
{
	using T = long double;
	T x = Fp<T>::get(w), y = Fp<T>::get(w + 2), g = keep(ccm::pow(hide(x), hide(y)));
	T z = !is_nan(y) && !is_inf(y) && std::fabs(y) >= 0x1p62L && std::fmod(y, T(1)) == 0 ? std::copysign(std::fmod(y, T(2)) != 0 ? T(0x1p40L + 1) : T(0x1p40L), y) : y; // (glibc's powl mistakes -2^63 for an odd number)
	if (special(x, y) || x == -1) { T e = std::pow(x, z), plat = std::pow(x, y); MC_RET(same(g, e) || (!always_cr && same(g, plat)), show(g), show(e)); }
	bool neg = x < 0 && std::fmod(y, T(2)) != 0;
	__float128 q = powq(x < 0 ? -x : x, y); T a = neg ? -g : g, c = static_cast<T>(q);
	if (is_nan(g) || (sgn(g) != neg)) MC_RET(false, show(g), show(c));
	T b = std::fabs(y * std::log2(x < 0 ? -x : x)) / 4 + 2; // the logarithm is carried to about eighty bits, the exponent amplifies its error
	if (is_inf(a)) MC_RET(q * static_cast<__float128>(1 + b * 0x1p-63L) >= static_cast<__float128>(std::numeric_limits<T>::max()), show(g), show(c));
	if (is_inf(c) || c == std::numeric_limits<T>::max()) MC_RET(is_inf(a) || a == std::numeric_limits<T>::max(), show(g), show(c));
	__float128 d = static_cast<__float128>(a) - q; d = d < 0 ? -d : d;
	MC_RET(d <= static_cast<__float128>(b) * static_cast<__float128>(std::nextafter(c, std::numeric_limits<T>::infinity()) - c), show(g), show(c));
}
static void run_ld()
{
	using T = long double;
	static std::vector<T> v = alphabet<T>(thorough ? 200 : 1100);
	explore("pairs f80", 4, 1, v.size() * v.size(), [](u64 i, u64 * w) { put(v[i / v.size()], w); put(v[i % v.size()], w + 2); }, j_powl);
	static const int EX[4] = {0, -1, 3, -20};
	static const u64 MI = thorough ? 2048 : 512, YI = thorough ? 200 : 48;
	explore("table f80", 4, 1, MI * 4 * YI, [](u64 i, u64 * w) { u64 yi = i % YI; i /= YI; int ex = EX[i & 3]; i >>= 2; T x = std::ldexp(T(1) + static_cast<T>(i) / static_cast<T>(MI) + (i & 1 ? std::ldexp(T(1.3), -50) : T(0)), ex); T y = (0.37L + 1.6180339887L * static_cast<T>(yi % 48)) / (yi & 1 ? T(-7) : T(11)); if (yi % 5 == 0) y *= 97; put(x, w); put(y, w + 2); }, j_powl);
	static std::vector<T> bs; for (T b : {2.0L, 0.5L, 10.0L, 1.5L, 0.1L, 3.7L, 1.0000001L, 0.9999999L, 1e100L, 1e-300L, 1e4000L, 0x1p-16400L}) bs.push_back(b);
	static const int TG[8] = {16384, 16383, 16000, -16381, -16382, -16400, -16445, -16446};
	explore("boundary f80", 4, 1, bs.size() * 8 * 13 * 2, [](u64 i, u64 * w) { bool s = i & 1; i >>= 1; int d = static_cast<int>(i % 13) - 6; i /= 13; int t = TG[i & 7]; T b = bs[i >> 3]; T y = static_cast<T>(t) / std::log2(b); for (int q = 0; q < (d < 0 ? -d : d); ++q) y = d < 0 ? dn(y) : up(y); put(s ? -b : b, w); put(y, w + 2); }, j_powl);
	explore("integers f80", 4, 1, 120 * 2 * 161, [](u64 i, u64 * w) { T y = static_cast<T>(static_cast<int>(i % 161) - 80); i /= 161; T x = 1 + static_cast<T>(i >> 1) / 4; put(i & 1 ? -x : x, w); put(y, w + 2); }, j_powl);
}
template <class A, class B> static bool j_mix(const u64 * w, Rep * r)
{
	A x = hide(static_cast<A>(static_cast<std::int64_t>(w[0]))); B y = hide(static_cast<B>(static_cast<std::int64_t>(w[1])));
	using PA = std::conditional_t<std::is_integral_v<A>, double, A>; using PB = std::conditional_t<std::is_integral_v<B>, double, B>; using C = std::common_type_t<PA, PB>;
	static_assert(std::is_same_v<decltype(ccm::pow(x, y)), C>);
	C e = ccm::pow(static_cast<C>(x), static_cast<C>(y)); MC_RET_SAME(ccm::pow(x, y), e);
}
static std::vector<std::int64_t> small = [] { std::vector<std::int64_t> v; for (int i = -20; i <= 20; ++i) v.push_back(i); for (std::int64_t q : {64ll, 100ll, 127ll, -128ll, 255ll, 65535ll, 16777217ll, 2147483647ll, -2147483648ll, 4294967295ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1}) v.push_back(q); return v; }();
template <class A, class B> static void mix(const char * name) { explore(name, 2, 1, small.size() * small.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(small[i / small.size()]); w[1] = static_cast<u64>(small[i % small.size()]); }, j_mix<A, B>); }
#ifndef MC_FSTEP
	#define MC_FSTEP 3
	#define MC_DSTEP 24
#endif
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	run<float>(thorough ? 1 : MC_FSTEP); run<double>(thorough ? 5 : MC_DSTEP);
#if NM == 1 || !defined(MC_MODES)
	#ifndef MC_CTMODE
	#ifndef MC_DET // (deterministic mode evaluates long double in double)
	run_ld();
	#endif
	mix<int, int>("mix int int"); mix<int, float>("mix int float"); mix<float, int>("mix float int"); mix<float, double>("mix float double"); mix<double, float>("mix double float"); mix<long, double>("mix long double"); mix<unsigned long, long>("mix ulong long"); mix<float, long double>("mix float ldouble"); mix<long double, int>("mix ldouble int");
	#endif
#endif
}
