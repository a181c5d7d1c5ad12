// C07 exact remainders
#include "lib.hpp"
using namespace mc;
#if defined(__clang__) && !defined(MC_FORCE_CE)
constexpr bool zero_sign = false; // clang lowers the run-time call to the system libm, whose remainder drops the sign of some zeros
#else
constexpr bool zero_sign = true;
#endif
template <class T> static bool j_pair(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w)), y = hide(Fp<T>::get(w + Fp<T>::nw));
	T fe = std::fmod(x, y), f = ccm::fmod(x, y);
	if (!same(f, fe)) MC_RET(false, "fmod=" + show(f), show(fe));
	int qe = 0;
	T re = std::remquo(x, y, &qe);
	bool valid = is_fin(x) && !is_nan(y) && y != 0;
	if (valid && re == 0) re = std::copysign(T(0), x);
	T g = ccm::remainder(x, y);
	if (zero_sign ? !same(g, re) : !(same(g, re) || (g == 0 && re == 0))) MC_RET(false, "remainder=" + show(g), show(re));
	if constexpr (!std::is_same_v<T, long double>)
	{
		int q = 99; T h = ccm::remquo(x, y, &q);
		if (!same(h, re)) MC_RET(false, "remquo=" + show(h), show(re));
		if (valid)
		{
			int m = (qe < 0 ? -qe : qe) & 7, n = (q < 0 ? -q : q) & 7;
			bool neg = sgn(x) != sgn(y);
			if (m != n || (q != 0 && (q < 0) != neg) || (qe != 0 && q == 0)) MC_RET(false, "quo=" + show(q), show(qe));
		}
	}
	MC_RET(true, show(g), "");
}
// exactness on its own terms: for small quotients the identity x = n*y + r is checked in integers
template <class T> static bool j_int(const u64 * w, Rep * r)
{
	long a = static_cast<long>(w[0]), b = static_cast<long>(w[1]); int sc = static_cast<int>(w[2]);
	T x = std::ldexp(static_cast<T>(a), sc), y = std::ldexp(static_cast<T>(b), sc);
	x = hide(x); y = hide(y);
	long tr = a % b;
	long m = std::labs(b), t = std::labs(a) % m, n = std::labs(a) / m;
	if (2 * t > m || (2 * t == m && (n & 1))) { t -= m; ++n; }
	long rr = a < 0 ? -t : t; long q = (a < 0) != (b < 0) ? -n : n;
	T fe = std::ldexp(static_cast<T>(tr), sc), re = std::ldexp(static_cast<T>(rr), sc);
	if (tr == 0) fe = std::copysign(T(0), x);
	if (rr == 0) re = std::copysign(T(0), x);
	T f = ccm::fmod(x, y), g = ccm::remainder(x, y);
	if (!same(f, fe)) MC_RET(false, "fmod=" + show(f), show(fe));
	if (zero_sign ? !same(g, re) : g != re) MC_RET(false, "remainder=" + show(g), show(re));
	if constexpr (!std::is_same_v<T, long double>)
	{
		int k = 0; T h = ccm::remquo(x, y, &k);
		if (!same(h, re)) MC_RET(false, "remquo=" + show(h), show(re));
		if ((std::abs(k) & 7) != (n & 7) || (k != 0 && (k < 0) != (q < 0)) || (n != 0 && (n & 7) != 0 && k == 0)) MC_RET(false, "quo=" + show(k), show(q));
	}
	MC_RET(true, show(g), "");
}
template <class A, class B> static bool j_mix(const u64 * w, Rep * r)
{
	A x = hide(static_cast<A>(static_cast<std::int64_t>(w[0]))); B y = hide(static_cast<B>(static_cast<std::int64_t>(w[1])));
	using C0 = std::common_type_t<A, B>; using C = std::conditional_t<std::is_integral_v<C0>, double, C0>;
	C a = static_cast<C>(x), b = static_cast<C>(y);
	// fmod and remquo promote as <cmath> does (an integer counts as double)
	using PA = std::conditional_t<std::is_integral_v<A>, double, A>; using PB = std::conditional_t<std::is_integral_v<B>, double, B>; using D = std::common_type_t<PA, PB>;
	D f = static_cast<D>(ccm::fmod(x, y)), fe = std::fmod(static_cast<D>(x), static_cast<D>(y));
	static_assert(std::is_same_v<decltype(ccm::fmod(x, y)), D>);
	if (!same(f, fe)) MC_RET(false, "fmod=" + show(f), show(fe));
	if constexpr (std::is_same_v<A, B>)
	{
		C g = static_cast<C>(ccm::remainder(x, y)), re = std::remainder(a, b); if (re == 0) re = std::copysign(C(0), a);
		if (zero_sign ? !same(g, re) : !(same(g, re) || (g == 0 && re == 0))) MC_RET(false, "remainder=" + show(g), show(re));
	}
	static_assert(std::is_same_v<decltype(ccm::remquo(x, y, nullptr)), D>);
	D da = static_cast<D>(x), db = static_cast<D>(y);
	int q, qe; D h = ccm::remquo(x, y, &q), he = std::remquo(da, db, &qe);
	if constexpr (!std::is_same_v<D, long double>) { if (he == 0) he = std::copysign(D(0), da); if (!same(h, he) || (db != 0 && (std::abs(q) & 7) != (std::abs(qe) & 7))) MC_RET(false, "remquo=" + show(h), show(he)); }
	MC_RET(true, show(f), "");
}
static std::vector<std::int64_t> small = [] { std::vector<std::int64_t> v; for (int i = -9; i <= 9; ++i) v.push_back(i); for (std::int64_t q : {100ll, 127ll, -128ll, 255ll, 65535ll, 16777216ll, 16777217ll, 2147483647ll, -2147483648ll, 4294967295ll, 9007199254740992ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1}) v.push_back(q); return v; }();
template <class A, class B> static void mix(const char * name) { explore(name, 2, 3, small.size() * small.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(small[i / small.size()]); w[1] = static_cast<u64>(small[i % small.size()]); }, j_mix<A, B>); }
template <class T> static std::vector<T> withs(std::vector<T> v) { v.push_back(snan_of<T>()); return v; }
// x = (k/2) * y, one ulp around it, for every divisor of an alphabet
template <class T> static void halves(const char * nm, int estep)
{
	static std::vector<T> ys = alphabet<T>(estep, false);
	static constexpr u64 K = 96;
	explore(nm, 2 * Fp<T>::nw, 3, ys.size() * K * 3 * 2, [](u64 i, u64 * w) {
		int s = static_cast<int>(i & 1); i >>= 1; int d = static_cast<int>(i % 3); i /= 3; u64 k = i % K; T y = ys[i / K];
		T h = k < 64 ? static_cast<T>(k) / 2 : std::ldexp(T(1), static_cast<int>(k - 60)) + T(0.5);
		T x = y * h; if (d == 1) x = up(x); else if (d == 2) x = dn(x);
		put(s ? -x : x, w); put(y, w + Fp<T>::nw);
	}, j_pair<T>);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	static auto sf = withs(alphabet<float>(thorough ? 1 : 2)); static auto sd = withs(alphabet<double>(thorough ? 4 : MC_DSTEP)); static auto sl = withs(alphabet<long double>(thorough ? 60 : MC_LSTEP));
	explore("pairs f32", 2, 3, sf.size() * sf.size(), gen2(sf, sf), j_pair<float>);
	explore("pairs f64", 2, 3, sd.size() * sd.size(), gen2(sd, sd), j_pair<double>);
	explore("pairs f80", 4, 2, sl.size() * sl.size(), gen2(sl, sl), j_pair<long double>);
	halves<float>("halfway f32", 1); halves<double>("halfway f64", 4); halves<long double>("halfway f80", 40);
	// all integer pairs up to a bound, at several scales (including one that makes everything subnormal)
	static const int SC[6] = {0, 10, -140, -149, 60, 100};
	static const u64 B = thorough ? 400 : 160;
	explore("integers f32", 3, 3, 6 * (2 * B + 1) * 2 * B, [](u64 i, u64 * w) { w[2] = static_cast<u64>(static_cast<long>(SC[i % 6])); i /= 6; long b = static_cast<long>(i % (2 * B)) - static_cast<long>(B); if (b >= 0) ++b; long a = static_cast<long>(i / (2 * B)) - static_cast<long>(B); w[0] = static_cast<u64>(a); w[1] = static_cast<u64>(b); }, j_int<float>);
	static const int SD[6] = {0, 10, -1060, -1074, 500, 1000};
	explore("integers f64", 3, 3, 6 * (2 * B + 1) * 2 * B, [](u64 i, u64 * w) { w[2] = static_cast<u64>(static_cast<long>(SD[i % 6])); i /= 6; long b = static_cast<long>(i % (2 * B)) - static_cast<long>(B); if (b >= 0) ++b; long a = static_cast<long>(i / (2 * B)) - static_cast<long>(B); w[0] = static_cast<u64>(a); w[1] = static_cast<u64>(b); }, j_int<double>);
	static const int SL[6] = {0, 10, -16440, -16445, 500, 16000};
	explore("integers f80", 3, 2, 6 * (2 * B + 1) * 2 * B, [](u64 i, u64 * w) { w[2] = static_cast<u64>(static_cast<long>(SL[i % 6])); i /= 6; long b = static_cast<long>(i % (2 * B)) - static_cast<long>(B); if (b >= 0) ++b; long a = static_cast<long>(i / (2 * B)) - static_cast<long>(B); w[0] = static_cast<u64>(a); w[1] = static_cast<u64>(b); }, j_int<long double>);
	// every exponent gap with mantissa patterns
	{
		static Grid<double> g(forced_ce && !thorough ? 1 : 4, 0, 2046, true, 3); static Grid<double> gy(2, 1020, 1026, true, 3);
		explore("gaps f64", 2, 3, g.n() * gy.n(), [](u64 i, u64 * w) { g(i / gy.n(), w); gy(i % gy.n(), w + 1); }, j_pair<double>);
		static Grid<float> f(forced_ce && !thorough ? 5 : 7, 0, 254); static Grid<float> fy(5, 120, 130);
		explore("gaps f32", 2, 3, f.n() * fy.n() / (thorough ? 1 : 8), [](u64 i, u64 * w) { if (!thorough) i = i * 8 + (i >> 5) % 8; f(i / fy.n(), w); fy(i % fy.n(), w + 1); }, j_pair<float>);
	}
	mix<int, int>("mix int int"); mix<long, long>("mix long long"); mix<int, float>("mix int float"); mix<float, int>("mix float int"); mix<float, double>("mix float double"); mix<double, float>("mix double float"); mix<long, double>("mix long double"); mix<unsigned, int>("mix unsigned int"); mix<unsigned long, long>("mix ulong long"); mix<signed char, short>("mix char short"); mix<double, int>("mix double int");
}
