// C12 log, log2, log10, log1p
#include "acc.hpp"
using namespace mc;
ACC_FN(log, log) ACC_FN(log2, log2) ACC_FN(log10, log10) ACC_FN(log1p, log1p)
template <class F, class T> static void exacts(const char * nm, bool two, bool plus)
{
	auto & v = *new std::vector<std::pair<T, T>>;
	using L = std::numeric_limits<T>;
	T inf = L::infinity(), nan = L::quiet_NaN();
	if (plus) { v.push_back({T(0), T(0)}); v.push_back({-T(0), -T(0)}); v.push_back({T(-1), -inf}); for (T x : {up(T(1)), T(2), T(1e10L), L::max(), inf, dn(T(-1) * T(-1)) + T(0.5)}) v.push_back({-x - (x == up(T(1)) ? 0 : 0), nan}); v.push_back({L::denorm_min(), L::denorm_min()}); v.push_back({-L::denorm_min(), -L::denorm_min()}); }
	else { v.push_back({T(1), T(0)}); v.push_back({T(0), -inf}); v.push_back({-T(0), -inf}); for (T x : {L::denorm_min(), L::min(), T(0.5), T(1), T(2), L::max(), inf}) v.push_back({-x, nan}); }
	v.push_back({inf, inf}); v.push_back({nan, nan});
	if (two) for (int e = Fp<T>::emin - Fp<T>::p + 1; e <= Fp<T>::emax; ++e) v.push_back({std::ldexp(T(1), e), T(e)});
	exact_list<F, T>(nm, v);
}
template <class F, int BF, int BD> static void run(const char * nm, bool two, bool plus)
{
	acc_grids<F, BF, BD>(nm);
	acc_list<F, double, BD>(cat(nm, "f64 near one"), around<double>({1, 0x1p-1022, 0x1p-1074, 2, 0.5, 0.9375, 1.0625, 1.0 - 0x1p-6, 1.0 + 0x1.09p-4, 0x1.ea4afap-1, 1.1554685, 0.41421356237309503, 0.29289321881345254, 0x1p-54, 0x1p-29, 0x1p-53, 0x1p53, 1.4142135623730951, 0.7071067811865476, 0x1.5b51p-1, 0x1.6ab86p0, 0x1.6a09ep-1, 10, 100, 1e10, 0}, thorough ? 20000 : 2500, 80));
	acc_list<F, float, BF>(cat(nm, "f32 near one"), around<float>({1, 2, 0.5f, 0x1p-126f, 0x1p-149f, 0.41421357f, 0.29289323f, 0x1p-24f, 0x1p-13f, 10, 0}, 5000, 80));
	acc_line<F, double, BD>(cat(nm, "f64 line"), plus ? -0.999999 : 0.25, plus ? 3.0 : 4.0, thorough ? 200000000 : 4000000);
	acc_line<F, double, BD>(cat(nm, "f64 narrow"), plus ? -0.01 : 0.99, plus ? 0.01 : 1.01, thorough ? 100000000 : 2000000);
	acc_line<F, float, BF>(cat(nm, "f32 line"), plus ? -0.999f : 0.25f, plus ? 3.0f : 4.0f, 4000000);
	exacts<F, float>(cat(nm, "f32 exact"), two, plus); exacts<F, double>(cat(nm, "f64 exact"), two, plus);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	run<log_f, 320, 256>("log", false, false); run<log2_f, 320, 256>("log2", true, false);
	run<log10_f, 640, 576>("log10", false, false);
	run<log1p_f, CFG == 0 ? 448 : 768, CFG == 0 ? 320 : 768>("log1p", false, true);
}
