// C06 neighbours
#include "lib.hpp"
using namespace mc;
template <class T> static __int128 key(T v) { u64 q[2] = {0, 0}; put(v, q); __int128 m; if constexpr (std::is_same_v<T, float>) m = q[0] & 0x7fffffff; else if constexpr (std::is_same_v<T, double>) m = q[0] & ~(1ull << 63); else m = (q[1] & 0x7fff) ? (static_cast<__int128>((q[1] & 0x7fff)) << 63) + (q[0] & ~(1ull << 63)) : static_cast<__int128>(q[0]); return sgn(v) ? -m : m; }
template <class T> static T unkey(__int128 k, bool zneg) { bool n = k < 0 || (k == 0 && zneg); unsigned __int128 m = static_cast<unsigned __int128>(k < 0 ? -k : k); u64 w[2] = {0, 0}; if constexpr (std::is_same_v<T, float>) w[0] = static_cast<u64>(m) | (u64(n) << 31); else if constexpr (std::is_same_v<T, double>) w[0] = static_cast<u64>(m) | (u64(n) << 63); else { u64 e = static_cast<u64>(m >> 63); w[0] = static_cast<u64>(m) & ~(1ull << 63); if (e) w[0] |= 1ull << 63; w[1] = e | (u64(n) << 15); } return Fp<T>::get(w); }
// one step of x upwards / downwards; a step that ends at zero keeps the sign of x
template <class T> static T step(T x, int d) { __int128 k = key(x) + d; return unkey<T>(k, sgn(x)); }
template <class T> static T ref_na(T x, long double y, T ty)
{
	if (is_nan(x) || is_nan(y)) return std::numeric_limits<T>::quiet_NaN();
	if (static_cast<long double>(x) == y) return ty;
	return step(x, static_cast<long double>(x) < y ? 1 : -1);
}
template <class T> static bool j_pair(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w)), y = hide(Fp<T>::get(w + Fp<T>::nw));
	T e = ref_na<T>(x, static_cast<long double>(y), y);
	T g = ccm::nextafter(x, y);
	if (!same(g, e)) MC_RET(false, "nextafter=" + show(g), show(e));
	T h = ccm::nexttoward(x, static_cast<long double>(y));
	MC_RET(same(h, e), "nexttoward=" + show(h), show(e));
}
template <class T> static bool j_up(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w));
	T eu = is_nan(x) ? x : (is_inf(x) && !sgn(x)) ? x : step(x, 1), ed = is_nan(x) ? x : (is_inf(x) && sgn(x)) ? x : step(x, -1);
	T u = ccm::nextup(x), d = ccm::nextdown(x);
	if (!same(u, eu)) MC_RET(false, "nextup=" + show(u), show(eu));
	if (!same(d, ed)) MC_RET(false, "nextdown=" + show(d), show(ed));
	const T inf = std::numeric_limits<T>::infinity();
	T au = ccm::nextafter(x, hide(inf)), ad = ccm::nextafter(x, hide(-inf)), tu = ccm::nexttoward(x, hide(static_cast<long double>(inf))), td = ccm::nexttoward(x, hide(-static_cast<long double>(inf)));
	if (!same(au, eu) || !same(tu, eu)) MC_RET(false, "towards +inf=" + show(au) + "," + show(tu), show(eu));
	if (!same(ad, ed) || !same(td, ed)) MC_RET(false, "towards -inf=" + show(ad) + "," + show(td), show(ed));
	T z = ccm::nextafter(x, hide(T(0))), ez = ref_na<T>(x, 0.0L, T(0));
	MC_RET(same(z, ez), "towards 0=" + show(z), show(ez));
}
// nexttoward with directions that are not representable in T
template <class T> static bool j_tow(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w)); long double y = hide(f80(w + Fp<T>::nw));
	T e = ref_na<T>(x, y, static_cast<T>(y));
	T h = ccm::nexttoward(x, y);
	MC_RET(same(h, e), "nexttoward=" + show(h), show(e));
}
static std::vector<std::int64_t> small = [] { std::vector<std::int64_t> v; for (int i = -6; i <= 6; ++i) v.push_back(i); for (std::int64_t q : {127ll, 128ll, -128ll, 255ll, 65535ll, 16777216ll, 16777217ll, 2147483647ll, -2147483648ll, 4294967295ll, 9007199254740992ll, 9223372036854775807ll, -9223372036854775807ll - 1}) v.push_back(q); return v; }();
template <class A, class B> static bool j_mix(const u64 * w, Rep * r)
{
	A x = hide(static_cast<A>(static_cast<std::int64_t>(w[0]))); B y = hide(static_cast<B>(static_cast<std::int64_t>(w[1])));
	using PA = std::conditional_t<std::is_integral_v<A>, double, A>; using PB = std::conditional_t<std::is_integral_v<B>, double, B>;
	using C = decltype(PA() + PB());
	auto g = ccm::nextafter(x, y);
	static_assert(std::is_same_v<decltype(g), C>);
	C e = ref_na<C>(static_cast<C>(x), static_cast<long double>(static_cast<C>(y)), static_cast<C>(y));
	if (!same(g, e)) MC_RET(false, "nextafter=" + show(g), show(e));
	PA h = ccm::nexttoward(x, static_cast<long double>(y)), he = ref_na<PA>(static_cast<PA>(x), static_cast<long double>(y), static_cast<PA>(static_cast<long double>(y)));
	if (!same(h, he)) MC_RET(false, "nexttoward=" + show(h), show(he));
	PA u = ccm::nextup(x), ue = step(static_cast<PA>(x), 1);
	MC_RET(same(u, ue), "nextup=" + show(u), show(ue));
}
template <class A, class B> static void mix(const char * name) { explore(name, 2, 3, small.size() * small.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(small[i / small.size()]); w[1] = static_cast<u64>(small[i % small.size()]); }, j_mix<A, B>); }
template <class T> static std::vector<T> withs(std::vector<T> v) { v.push_back(snan_of<T>()); return v; }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	static Grid<float> gf(thorough ? 23 : 15); static Grid<double> gd(thorough ? 13 : 9); static Grid<long double> gl(thorough ? 8 : 4);
	explore("steps f32", 1, 7, gf.n(), gf, j_up<float>);
	explore("steps f64", 1, 7, gd.n(), gd, j_up<double>);
	explore("steps f80", 2, 7, gl.n(), gl, j_up<long double>);
	static auto sf = withs(alphabet<float>(thorough ? 1 : 3)); static auto sd = withs(alphabet<double>(thorough ? 6 : 16)); static auto sl = withs(alphabet<long double>(thorough ? 60 : 300));
	static auto af = withs(alphabet<float>(1)); static auto ad = withs(alphabet<double>(1)); static auto al = withs(alphabet<long double>(1));
	explore("steps alphabet f32", 1, 7, af.size(), gen1(af), j_up<float>);
	explore("steps alphabet f64", 1, 7, ad.size(), gen1(ad), j_up<double>);
	explore("steps alphabet f80", 2, 7, al.size(), gen1(al), j_up<long double>);
	explore("pairs f32", 2, 2, sf.size() * sf.size(), gen2(sf, sf), j_pair<float>);
	explore("pairs f64", 2, 2, sd.size() * sd.size(), gen2(sd, sd), j_pair<double>);
	explore("pairs f80", 4, 2, sl.size() * sl.size(), gen2(sl, sl), j_pair<long double>);
	// directions a fraction of an ulp away
	explore("toward near f32", 3, 1, af.size() * 5, [](u64 i, u64 * w) { float x = af[i / 5]; long double y = static_cast<long double>(x); int k = static_cast<int>(i % 5); if (k == 1) y = std::nextafter(y, HUGE_VALL); else if (k == 2) y = std::nextafter(y, -HUGE_VALL); else if (k == 3) y = y * (1 + 0x1p-40L); else if (k == 4) y = y * (1 - 0x1p-40L); put(x, w); put(y, w + 1); }, j_tow<float>);
	explore("toward near f64", 3, 1, ad.size() * 5, [](u64 i, u64 * w) { double x = ad[i / 5]; long double y = static_cast<long double>(x); int k = static_cast<int>(i % 5); if (k == 1) y = std::nextafter(y, HUGE_VALL); else if (k == 2) y = std::nextafter(y, -HUGE_VALL); else if (k == 3) y = y * (1 + 0x1p-58L); else if (k == 4) y = y * (1 - 0x1p-58L); put(x, w); put(y, w + 1); }, j_tow<double>);
	explore("toward f32", 3, 1, sf.size() * sl.size(), gen2(sf, sl), j_tow<float>);
	explore("toward f64", 3, 1, sd.size() * sl.size(), gen2(sd, sl), j_tow<double>);
	mix<int, int>("mix int int"); mix<int, float>("mix int float"); mix<float, int>("mix float int"); mix<float, double>("mix float double"); mix<double, float>("mix double float"); mix<long, double>("mix long double"); mix<long double, int>("mix ldouble int"); mix<float, long double>("mix float ldouble"); mix<unsigned, long>("mix unsigned long"); mix<unsigned long, short>("mix ulong short"); mix<signed char, unsigned char>("mix char uchar");
}
