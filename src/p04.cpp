// C04 decomposition
#include "lib.hpp"
using namespace mc;
template <class T> static bool j_dec(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w));
	int e1 = 12345, e2 = 12345, ee = 0;
	T f1 = ccm::frexp(x, &e1), f2 = ccm::frexp(x, e2), fe = std::frexp(x, &ee);
	if (!same(f1, fe) || !same(f2, fe)) MC_RET(false, "frexp=" + show(f1) + "/" + show(f2), show(fe));
	if (is_fin(x) && (e1 != ee || e2 != ee)) MC_RET(false, "frexp exponent=" + show(e1) + "/" + show(e2), show(ee));
	if (is_fin(x) && x != 0 && !same(static_cast<T>(std::ldexp(f1, e1)), x)) MC_RET(false, "frexp does not rebuild", show(x));
	T ip = 77, ipe = 0;
	T fr = ccm::modf(x, &ip), fre = std::modf(x, &ipe);
	if (!same(fr, fre) || !same(ip, ipe)) MC_RET(false, "modf=" + show(fr) + "," + show(ip), show(fre) + "," + show(ipe));
	if (is_fin(x) && ip + fr != x) MC_RET(false, "modf does not rebuild", show(x));
	T lb = ccm::logb(x), lbe = is_nan(x) ? x : is_inf(x) ? std::numeric_limits<T>::infinity() : x == 0 ? -std::numeric_limits<T>::infinity() : static_cast<T>(ee - 1);
	if (!same(lb, lbe)) MC_RET(false, "logb=" + show(lb), show(lbe));
	int il = ccm::ilogb(x), ile = is_nan(x) ? FP_ILOGBNAN : is_inf(x) ? INT_MAX : x == 0 ? FP_ILOGB0 : ee - 1;
	MC_RET(il == ile, "ilogb=" + show(il), show(ile));
}
template <class T> static std::vector<T> withs(std::vector<T> v) { v.push_back(snan_of<T>()); return v; }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	static Grid<float> gf(thorough ? 23 : MC_F32K); static Grid<double> gd(thorough ? 13 : 9), gs(thorough ? 22 : 17, 0, 4), gt(thorough ? 18 : 12, 1020, 1078); static Grid<long double> gl(thorough ? 8 : 4), gls(thorough ? 20 : 15, 0, 3), glt(thorough ? 16 : 12, 16380, 16450);
	explore("grid f32", 1, 5, gf.n(), gf, j_dec<float>);
	explore("grid f64", 1, 5, gd.n(), gd, j_dec<double>);
	explore("subnormal f64", 1, 5, gs.n(), gs, j_dec<double>);
	explore("fraction f64", 1, 5, gt.n(), gt, j_dec<double>);
	explore("grid f80", 2, 5, gl.n(), gl, j_dec<long double>);
	explore("subnormal f80", 2, 5, gls.n(), gls, j_dec<long double>);
	explore("fraction f80", 2, 5, glt.n(), glt, j_dec<long double>);
	// every leading-bit position of the subnormals with every small tail
	explore("subnormal lengths f64", 1, 5, 52 * 4096 * 2, [](u64 i, u64 * w) { u64 s = i & 1; i >>= 1; u64 t = i & 4095; int b = static_cast<int>(i >> 12); u64 m = (1ull << b) | (b > 12 ? t << (b - 12) | (t & 1) : t & ((1ull << b) - 1)); w[0] = (s << 63) | m; }, j_dec<double>);
	explore("subnormal lengths f80", 2, 5, 63 * 4096 * 2, [](u64 i, u64 * w) { u64 s = i & 1; i >>= 1; u64 t = i & 4095; int b = static_cast<int>(i >> 12); w[0] = (1ull << b) | (b > 12 ? t << (b - 12) | (t & 1) : t & ((1ull << b) - 1)); w[1] = s << 15; }, j_dec<long double>);
	static auto sf = withs(alphabet<float>(1)); static auto sd = withs(alphabet<double>(1)); static auto sl = withs(alphabet<long double>(1));
	explore("alphabet f32", 1, 5, sf.size(), gen1(sf), j_dec<float>);
	explore("alphabet f64", 1, 5, sd.size(), gen1(sd), j_dec<double>);
	explore("alphabet f80", 2, 5, sl.size(), gen1(sl), j_dec<long double>);
}
