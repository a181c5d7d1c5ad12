// C11 exp, exp2, expm1
#include "acc.hpp"
using namespace mc;
ACC_FN(exp, exp) ACC_FN(exp2, exp2) ACC_FN(expm1, expm1)
template <class T> static T L2() { return static_cast<T>(0.693147180559945309417232121458176568L); }
template <class F, class T> static void exacts(const char * nm, bool two, bool minus)
{
	auto & v = *new std::vector<std::pair<T, T>>;
	T inf = std::numeric_limits<T>::infinity(), z = minus ? T(0) : T(1);
	v.push_back({T(0), z}); v.push_back({-T(0), minus ? -T(0) : z}); v.push_back({inf, inf}); v.push_back({-inf, minus ? T(-1) : T(0)});
	v.push_back({std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN()});
	if (two) for (int e = Fp<T>::emin - Fp<T>::p - 40; e <= Fp<T>::emax + 40; ++e) v.push_back({T(e), std::ldexp(T(1), e)});
	T big = two ? T(Fp<T>::emax) + 1 : T(Fp<T>::emax + 1) * L2<T>();
	for (T m : {T(1.01L), T(2), T(10), T(1e6L), std::numeric_limits<T>::max() / (big * 2)}) v.push_back({big * m, inf}), v.push_back({-big * m * T(1.4L), minus ? T(-1) : m > T(1.005L) && -big * m * T(1.4L) < -(two ? T(-Fp<T>::emin + Fp<T>::p + 1) : (T(-Fp<T>::emin + Fp<T>::p + 1) * L2<T>())) ? T(0) : static_cast<T>(F::r(static_cast<typename Fp<T>::R>(-big * m * T(1.4L))))});
	exact_list<F, T>(nm, v);
}
template <class F, int BF, int BD> static void run(const char * nm, bool two, bool minus)
{
	acc_grids<F, BF, BD>(nm, 127 - 40, 127 + 12, 1023 - 70, 1023 + 14);
	acc_list<F, double, BD>(cat(nm, "f64 thresholds"), around<double>({709.782712893384, 745.1332191019411, 744.4400719213812, 708.396418532264, 1024, 1022, 1074, 1075, 1023, 0.5, 0.34657359027997264, 1.0397207708399179, 37.42994775023705, 56.0, 0x1p-54, 0x1p-53, 0x1p-28, 1, 2, 928, 0x1p-1022, 0}, thorough ? 20000 : 2000));
	acc_list<F, float, BF>(cat(nm, "f32 thresholds"), around<float>({88.72284f, 103.97208f, 87.33655f, 103.27893f, 128, 126, 149, 150, 127, 0.5f, 17.328680f, 18.7149f, 0x1p-25f, 0x1p-14f, 1, 88, 0x1p-126f, 0}, 4000));
	acc_line<F, double, BD>(cat(nm, "f64 line"), two ? -1080 : -750, two ? 1030 : 715, thorough ? 200000000 : 3000000);
	acc_line<F, double, BD>(cat(nm, "f64 near zero"), -1.5, 1.5, thorough ? 100000000 : 2000000);
	acc_line<F, float, BF>(cat(nm, "f32 line"), two ? -152 : -105, two ? 130 : 90, thorough ? 100000000 : 4000000);
	// multiples of the reduction step and the middles between them
	static std::vector<double> steps; steps.clear(); for (int k = -150000; k <= 150000; k += thorough ? 1 : 3) { long double s = static_cast<long double>(k) / 256 * (two ? 1.0L : 0.693147180559945309417232121458176568L); steps.push_back(static_cast<double>(s)); steps.push_back(up(static_cast<double>(s))); steps.push_back(dn(static_cast<double>(s))); }
	acc_list<F, double, BD>(cat(nm, "f64 steps"), steps);
	exacts<F, float>(cat(nm, "f32 exact"), two, minus); exacts<F, double>(cat(nm, "f64 exact"), two, minus);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	constexpr int E = 384;
	run<exp_f, CFG == 0 ? 256 : E, CFG == 0 ? 256 : E>("exp", false, false);
	run<exp2_f, CFG == 0 ? 256 : E, CFG == 0 ? 256 : E>("exp2", true, false);
	run<expm1_f, CFG == 0 ? 384 : 768, CFG == 0 ? 384 : 768>("expm1", false, true);
}
