// C02 classification and quiet comparison
#include "lib.hpp"
using namespace mc;
template <class T> static bool j_cls(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w));
	// reference straight from the encoding
	bool zero, sub, inf, nan; bool neg = sgn(x);
	{
		u64 m, e, em;
		if constexpr (std::is_same_v<T, float>) { m = w[0] & 0x7fffff; e = (w[0] >> 23) & 0xff; em = 0xff; }
		else if constexpr (std::is_same_v<T, double>) { m = w[0] & 0xfffffffffffffull; e = (w[0] >> 52) & 0x7ff; em = 0x7ff; }
		else { m = w[0] & 0x7fffffffffffffffull; e = w[1] & 0x7fff; em = 0x7fff; }
		zero = e == 0 && m == 0; sub = e == 0 && m != 0; inf = e == em && m == 0; nan = e == em && m != 0;
	}
	int want = nan ? FP_NAN : inf ? FP_INFINITE : zero ? FP_ZERO : sub ? FP_SUBNORMAL : FP_NORMAL;
	int g[6] = {ccm::fpclassify(x), ccm::isnan(x), ccm::isinf(x), ccm::isfinite(x), ccm::isnormal(x), ccm::signbit(x)};
	int e[6] = {want, nan, inf, !nan && !inf, want == FP_NORMAL, neg};
	static const char * nm[6] = {"fpclassify", "isnan", "isinf", "isfinite", "isnormal", "signbit"};
	for (int i = 0; i < 6; ++i) if (i ? (g[i] != 0) != (e[i] != 0) : g[i] != e[i]) MC_RET(false, std::string(nm[i]) + "=" + show(g[i]), show(e[i]));
	MC_RET(true, show(g[0]) + show(g[5]), "");
}
template <class T> static bool j_cmp(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w)), y = hide(Fp<T>::get(w + Fp<T>::nw));
	bool un = is_nan(x) || is_nan(y);
	// ordering from the encodings (sign-magnitude), zeros equal
	auto key = [](T v) -> __int128 { u64 q[2] = {0, 0}; put(v, q); __int128 m; if constexpr (std::is_same_v<T, float>) m = q[0] & 0x7fffffff; else if constexpr (std::is_same_v<T, double>) m = q[0] & ~(1ull << 63); else m = (static_cast<__int128>(q[1] & 0x7fff) << 64) | q[0]; return sgn(v) ? -m : m; };
	__int128 a = un ? 0 : key(x), b = un ? 0 : key(y);
	bool lt = !un && a < b, gt = !un && a > b, eq = !un && a == b;
	std::fenv_t env; bool flags = false;
#ifdef MC_FLAGS
	std::feholdexcept(&env);
#endif
	bool g[6] = {ccm::isless(x, y), ccm::islessequal(x, y), ccm::isgreater(x, y), ccm::isgreaterequal(x, y), ccm::islessgreater(x, y), ccm::isunordered(x, y)};
#ifdef MC_FLAGS
	for (bool & q : g) q = hide(q);
	flags = std::fetestexcept(FE_ALL_EXCEPT & ~0x2) != 0 && !is_snan(x) && !is_snan(y);
	std::fesetenv(&env);
#endif
	bool e[6] = {lt, lt || eq, gt, gt || eq, lt || gt, un};
	static const char * nm[6] = {"isless", "islessequal", "isgreater", "isgreaterequal", "islessgreater", "isunordered"};
	for (int i = 0; i < 6; ++i) if (g[i] != e[i]) MC_RET(false, std::string(nm[i]) + "=" + show<int>(g[i]), show<int>(e[i]));
	MC_RET(!flags, flags ? "floating-point exception raised" : show<int>(g[0]), "silent");
}
// mixed and integer arguments: as if promoted
template <class A, class B> static bool j_mix(const u64 * w, Rep * r)
{
	A x = hide(static_cast<A>(static_cast<std::int64_t>(w[0]))); B y = hide(static_cast<B>(static_cast<std::int64_t>(w[1])));
	using PA = std::conditional_t<std::is_integral_v<A>, double, A>; using PB = std::conditional_t<std::is_integral_v<B>, double, B>;
	using C = decltype(PA() + PB());
	C a = static_cast<C>(x), b = static_cast<C>(y);
	bool g[6] = {ccm::isless(x, y), ccm::islessequal(x, y), ccm::isgreater(x, y), ccm::isgreaterequal(x, y), ccm::islessgreater(x, y), ccm::isunordered(x, y)};
	bool e[6] = {a < b, a <= b, a > b, a >= b, a != b, false};
	for (int i = 0; i < 6; ++i) if (g[i] != e[i]) MC_RET(false, show<int>(i) + ":" + show<int>(g[i]), show<int>(e[i]));
	MC_RET(true, show<int>(g[0]), "");
}
template <class I> static bool j_icls(const u64 * w, Rep * r)
{
	I x = hide(static_cast<I>(w[0]));
	bool neg = x < 0;
	bool g[5] = {ccm::isnan(x), ccm::isinf(x), ccm::isfinite(x), ccm::isnormal(x), ccm::signbit(x)};
	bool e[5] = {false, false, true, x != 0, neg};
	for (int i = 0; i < 5; ++i) if (g[i] != e[i]) MC_RET(false, show<int>(i) + ":" + show<int>(g[i]), show<int>(e[i]));
	MC_RET(true, show<int>(g[3]), "");
}
template <class I> static void ints(const char * name)
{
	static std::vector<I> v = ints_alphabet<I>();
	explore(name, 1, 5, v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i]); }, j_icls<I>);
}
static std::vector<std::int64_t> small = [] { std::vector<std::int64_t> v; for (int i = -6; i <= 6; ++i) v.push_back(i); for (std::int64_t q : {127ll, 128ll, -128ll, 255ll, 65535ll, 16777216ll, 16777217ll, 16777219ll, 2147483647ll, -2147483648ll, 4294967295ll, 9007199254740992ll, 9007199254740993ll, 9223372036854775807ll, -9223372036854775807ll - 1}) v.push_back(q); return v; }();
template <class A, class B> static void mix(const char * name) { explore(name, 2, 6, small.size() * small.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(small[i / small.size()]); w[1] = static_cast<u64>(small[i % small.size()]); }, j_mix<A, B>); }
template <class T> static std::vector<T> withs(std::vector<T> v) { v.push_back(snan_of<T>()); return v; }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	static Grid<float> gf(thorough ? 23 : 16); static Grid<double> gd(thorough ? 14 : 10); static Grid<long double> gl(thorough ? 8 : 4);
	explore("class f32", 1, 6, gf.n(), gf, j_cls<float>);
	explore("class f64", 1, 6, gd.n(), gd, j_cls<double>);
	explore("class f80", 2, 6, gl.n(), gl, j_cls<long double>);
	static auto sf = withs(alphabet<float>(thorough ? 1 : 4)); static auto sd = withs(alphabet<double>(thorough ? 4 : 24)); static auto sl = withs(alphabet<long double>(thorough ? 64 : 500));
	explore("class alphabet f32", 1, 6, sf.size(), gen1(sf), j_cls<float>);
	explore("class alphabet f64", 1, 6, sd.size(), gen1(sd), j_cls<double>);
	explore("class alphabet f80", 2, 6, sl.size(), gen1(sl), j_cls<long double>);
	explore("compare f32", 2, 6, sf.size() * sf.size(), gen2(sf, sf), j_cmp<float>);
	explore("compare f64", 2, 6, sd.size() * sd.size(), gen2(sd, sd), j_cmp<double>);
	explore("compare f80", 4, 6, sl.size() * sl.size(), gen2(sl, sl), j_cmp<long double>);
	// neighbours: x against x-1ulp, x, x+1ulp, -x over every binade
	{
		static Grid<double> g(8);
		explore("compare near f64", 2, 6, g.n() * 4, [](u64 i, u64 * w) { u64 b = g.bits(i / 4); w[0] = b; int k = static_cast<int>(i & 3); w[1] = k == 0 ? b : k == 1 ? b + 1 : k == 2 ? b - 1 : b ^ (1ull << 63); }, j_cmp<double>);
		static Grid<float> f(thorough ? 18 : 12);
		explore("compare near f32", 2, 6, f.n() * 4, [](u64 i, u64 * w) { u32 b = static_cast<u32>(f.bits(i / 4)); w[0] = b; int k = static_cast<int>(i & 3); w[1] = k == 0 ? b : k == 1 ? u32(b + 1) : k == 2 ? u32(b - 1) : (b ^ (1u << 31)); }, j_cmp<float>);
	}
	ints<signed char>("int8"); ints<unsigned char>("uint8"); ints<short>("int16"); ints<unsigned short>("uint16"); ints<int>("int32"); ints<unsigned>("uint32"); ints<long>("int64"); ints<unsigned long>("uint64");
	mix<int, int>("mix int int"); mix<int, unsigned>("mix int unsigned"); mix<unsigned, int>("mix unsigned int"); mix<long, unsigned long>("mix long ulong"); mix<short, signed char>("mix short char"); mix<int, float>("mix int float"); mix<float, int>("mix float int"); mix<long, float>("mix long float");
	mix<float, double>("mix float double"); mix<double, float>("mix double float"); mix<long, double>("mix long double"); mix<long double, int>("mix ldouble int"); mix<float, long double>("mix float ldouble"); mix<unsigned long, long double>("mix ulong ldouble"); mix<double, long>("mix double long"); mix<unsigned char, unsigned long>("mix uchar ulong");
}
