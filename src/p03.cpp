// C03 sign manipulation, minimum / maximum, positive difference
#include "lib.hpp"
using namespace mc;
template <class T> static T set_sign(T x, bool s) { u64 w[2] = {}; put(x, w); if constexpr (std::is_same_v<T, float>) w[0] = (w[0] & 0x7fffffff) | (u64(s) << 31); else if constexpr (std::is_same_v<T, double>) w[0] = (w[0] & ~(1ull << 63)) | (u64(s) << 63); else w[1] = (w[1] & 0x7fff) | (u64(s) << 15); return Fp<T>::get(w); }
template <class T> static bool biteq(T a, T b) { u64 x[2] = {}, y[2] = {}; put(a, x); put(b, y); return x[0] == y[0] && x[1] == y[1]; }
template <class T> static bool j_abs(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w));
	T e = set_sign(x, false);
	T a = ccm::abs(x), b = ccm::fabs(x);
	if (!(is_nan(x) ? is_nan(a) : biteq(a, e))) MC_RET(false, "abs=" + show(a), show(e));
	MC_RET((is_nan(x) ? is_nan(b) && !sgn(b) : biteq(b, e)), "fabs=" + show(b), show(e));
}
template <class T> static bool j_pair(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w)), y = hide(Fp<T>::get(w + Fp<T>::nw));
	T c = ccm::copysign(x, y), ce = set_sign(x, sgn(y));
	if (!(is_nan(x) ? is_nan(c) && sgn(c) == sgn(y) : biteq(c, ce))) MC_RET(false, "copysign=" + show(c), show(ce));
	bool nx = is_nan(x), ny = is_nan(y);
	T mn[2] = {ccm::fmin(x, y), ccm::min(x, y)}, mx[2] = {ccm::fmax(x, y), ccm::max(x, y)};
	if (!is_snan(x) && !is_snan(y))
		for (int i = 0; i < 2; ++i)
		{
			static const char * nm[2] = {"fmin/fmax", "min/max"};
			T emn, emx; bool zeros = !nx && !ny && x == 0 && y == 0;
			if (nx && ny) emn = emx = x;
			else if (nx) emn = emx = y;
			else if (ny) emn = emx = x;
			else { emn = x < y ? x : y; emx = x < y ? y : x; }
			bool ok = (nx && ny) ? is_nan(mn[i]) && is_nan(mx[i]) : zeros ? mn[i] == 0 && mx[i] == 0 : biteq(mn[i], emn) && biteq(mx[i], emx);
			if (!ok) MC_RET(false, std::string(nm[i]) + "=" + show(mn[i]) + "," + show(mx[i]), show(emn) + "," + show(emx));
		}
	T d = ccm::fdim(x, y);
	T e;
	if (nx || ny) e = std::numeric_limits<T>::quiet_NaN();
	else if (x <= y) e = 0;
	else { volatile T df = x - y; e = df; }
	MC_RET(same(d, e), "fdim=" + show(d), show(e));
}
// fdim in directed rounding: one rounding of the exact difference in the current mode (run time)
template <class T> static bool j_fdim_mode(const u64 * w, Rep * r)
{
	int rm = RM[w[0]];
	T x = hide(Fp<T>::get(w + 1)), y = hide(Fp<T>::get(w + 1 + Fp<T>::nw));
	T d, e;
	{
		Round m(rm);
		d = keep(ccm::fdim(x, y));
		if (is_nan(x) || is_nan(y)) e = std::numeric_limits<T>::quiet_NaN();
		else if (x <= y) e = 0;
		else { volatile T p = x, q = y; volatile T df = p - q; e = df; }
	}
	MC_RET(same(d, e), "fdim=" + show(d), show(e));
}
template <class I> static bool j_iabs(const u64 * w, Rep * r)
{
	I x = hide(static_cast<I>(w[0]));
	if (std::is_signed_v<I> && x == std::numeric_limits<I>::min()) { double f = ccm::fabs(x); MC_RET(f == -static_cast<double>(x), show(f), "fabs"); }
	I e = x < 0 ? static_cast<I>(-x) : x;
	auto g = ccm::abs(x); double f = ccm::fabs(x);
	if (f != static_cast<double>(e)) MC_RET(false, "fabs=" + show(f), show(static_cast<double>(e)));
	MC_RET(static_cast<I>(g) == e, show(g), show(e));
}
template <class I> static bool j_ipair(const u64 * w, Rep * r)
{
	I x = hide(static_cast<I>(w[0])), y = hide(static_cast<I>(w[1]));
	I lo = x < y ? x : y, hi = x < y ? y : x;
	if (ccm::min(x, y) != lo || ccm::max(x, y) != hi) MC_RET(false, "min/max=" + show(ccm::min(x, y)) + "," + show(ccm::max(x, y)), show(lo) + "," + show(hi));
	if (static_cast<double>(ccm::fmin(x, y)) != static_cast<double>(lo) || static_cast<double>(ccm::fmax(x, y)) != static_cast<double>(hi)) MC_RET(false, "fmin/fmax", show(lo) + "," + show(hi));
	double dx = static_cast<double>(x), dy = static_cast<double>(y);
	double d = ccm::fdim(x, y), e = dx > dy ? dx - dy : 0.0;
	if (!same(d, e)) MC_RET(false, "fdim=" + show(d), show(e));
	double c = ccm::copysign(x, y), ce = (dy < 0) != (dx < 0) ? -dx : dx;
	if (dx == 0) ce = dy < 0 ? -0.0 : 0.0;
	MC_RET(same(c, ce), "copysign=" + show(c), show(ce));
}
static std::vector<std::int64_t> small = [] { std::vector<std::int64_t> v; for (int i = -6; i <= 6; ++i) v.push_back(i); for (std::int64_t q : {127ll, 128ll, -128ll, 255ll, 65535ll, 16777216ll, 16777217ll, 16777219ll, 2147483647ll, -2147483648ll, 4294967295ll, 9007199254740992ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1}) v.push_back(q); return v; }();
template <class A, class B> static bool j_mix(const u64 * w, Rep * r)
{
	A x = hide(static_cast<A>(static_cast<std::int64_t>(w[0]))); B y = hide(static_cast<B>(static_cast<std::int64_t>(w[1])));
	using C0 = std::common_type_t<A, B>; using C = std::conditional_t<std::is_integral_v<C0>, double, C0>;
	C a = static_cast<C>(x), b = static_cast<C>(y);
	C g[2] = {static_cast<C>(ccm::fmin(x, y)), static_cast<C>(ccm::fmax(x, y))}, e[2] = {a < b ? a : b, a < b ? b : a};
	for (int i = 0; i < 2; ++i) if (g[i] != e[i]) MC_RET(false, show<int>(i) + ":" + show(g[i]), show(e[i]));
	C0 a0 = static_cast<C0>(x), b0 = static_cast<C0>(y);
	auto m0 = ccm::min(x, y); auto m1 = ccm::max(x, y);
	if (m0 != (a0 < b0 ? a0 : b0) || m1 != (a0 < b0 ? b0 : a0)) MC_RET(false, "min/max=" + show(m0) + "," + show(m1), show(a0) + "," + show(b0));
	MC_RET(true, show(g[0]), "");
}
template <class A, class B> static void mix(const char * name) { explore(name, 2, 4, small.size() * small.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(small[i / small.size()]); w[1] = static_cast<u64>(small[i % small.size()]); }, j_mix<A, B>); }
template <class I> static void ints(const char * n1, const char * n2)
{
	static std::vector<I> v = ints_alphabet<I>();
	if (std::is_signed_v<I>) explore(n1, 1, 2, v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i]); }, j_iabs<std::make_signed_t<I>>);
	explore(n2, 2, 6, v.size() * v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i / v.size()]); w[1] = static_cast<u64>(v[i % v.size()]); }, j_ipair<I>);
}
template <class T> static std::vector<T> withs(std::vector<T> v) { v.push_back(snan_of<T>()); return v; }
template <class T> static auto moded2(const std::vector<T> & a) { return [&a](u64 i, u64 * w) { w[0] = i & 3; i >>= 2; put(a[i / a.size()], w + 1); put(a[i % a.size()], w + 1 + Fp<T>::nw); }; }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	static auto sf = withs(alphabet<float>(thorough ? 1 : 3)); static auto sd = withs(alphabet<double>(thorough ? 3 : 12)); static auto sl = withs(alphabet<long double>(thorough ? 50 : 240));
#ifdef MC_MODES
	static auto a = moded2(sf); static auto b = moded2(sd); static auto c = moded2(sl);
	explore("fdim modes f32", 3, 1, 4 * sf.size() * sf.size(), a, j_fdim_mode<float>);
	explore("fdim modes f64", 3, 1, 4 * sd.size() * sd.size(), b, j_fdim_mode<double>);
	explore("fdim modes f80", 5, 1, 4 * sl.size() * sl.size(), c, j_fdim_mode<long double>);
#else
	static Grid<float> gf(thorough ? 23 : 15); static Grid<double> gd(thorough ? 13 : 9); static Grid<long double> gl(thorough ? 8 : 3);
	explore("abs f32", 1, 2, gf.n(), gf, j_abs<float>);
	explore("abs f64", 1, 2, gd.n(), gd, j_abs<double>);
	explore("abs f80", 2, 2, gl.n(), gl, j_abs<long double>);
	explore("pairs f32", 2, 6, sf.size() * sf.size(), gen2(sf, sf), j_pair<float>);
	explore("pairs f64", 2, 6, sd.size() * sd.size(), gen2(sd, sd), j_pair<double>);
	explore("pairs f80", 4, 6, sl.size() * sl.size(), gen2(sl, sl), j_pair<long double>);
	{
		static Grid<double> g(6);
		explore("near pairs f64", 2, 6, g.n() * 4, [](u64 i, u64 * w) { u64 b = g.bits(i / 4); w[0] = b; int k = static_cast<int>(i & 3); w[1] = k == 0 ? b : k == 1 ? b + 1 : k == 2 ? b - 1 : b ^ (1ull << 63); }, j_pair<double>);
		static Grid<float> f(thorough ? 18 : 11);
		explore("near pairs f32", 2, 6, f.n() * 4, [](u64 i, u64 * w) { u32 b = static_cast<u32>(f.bits(i / 4)); w[0] = b; int k = static_cast<int>(i & 3); w[1] = k == 0 ? b : k == 1 ? u32(b + 1) : k == 2 ? u32(b - 1) : (b ^ (1u << 31)); }, j_pair<float>);
	}
	ints<signed char>("abs int8", "pairs int8"); ints<short>("abs int16", "pairs int16"); ints<int>("abs int32", "pairs int32"); ints<long>("abs int64", "pairs int64"); ints<long long>("abs llong", "pairs llong");
	ints<unsigned char>("-", "pairs uint8"); ints<unsigned short>("-", "pairs uint16"); ints<unsigned>("-", "pairs uint32"); ints<unsigned long>("-", "pairs uint64");
	mix<int, unsigned>("mix int unsigned"); mix<unsigned, int>("mix unsigned int"); mix<long, unsigned>("mix long uint"); mix<short, signed char>("mix short char"); mix<int, float>("mix int float"); mix<float, int>("mix float int"); mix<long, float>("mix long float");
	mix<float, double>("mix float double"); mix<double, float>("mix double float"); mix<long, double>("mix long double"); mix<long double, int>("mix ldouble int"); mix<float, long double>("mix float ldouble"); mix<unsigned long, long double>("mix ulong ldouble"); mix<double, long>("mix double long"); mix<unsigned char, unsigned long>("mix uchar ulong");
#endif
}
