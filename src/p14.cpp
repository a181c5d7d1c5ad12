// C14 asin, acos, atan, atan2
#include "acc.hpp"
using namespace mc;
ACC_FN(asin, asin) ACC_FN(acos, acos) ACC_FN(atan, atan)
template <class F, class T, bool PI> static bool j_par(const u64 * w, Rep * r) { T x = Fp<T>::get(w); T a = keep(F::f(hide(x))), b = keep(F::f(hide(-x))); T e = -a; MC_RET(same(b, e), show(b), show(e)); }
template <class F, int BF, int BD> static void run(const char * nm, int kind)
{
	acc_grids<F, BF, BD>(nm, kind == 2 ? 0 : 60, kind == 2 ? 255 : 128, kind == 2 ? 0 : 1023 - 70, kind == 2 ? 2047 : 1025);
	acc_list<F, double, BD>(cat(nm, "f64 segments"), around<double>({1, 0.5, 0.975, 0.4375, 0.6875, 1.1875, 2.4375, 0x1p-26, 0x1p-27, 0x1p-28, 0x1p-57, 0.7071067811865476, 0.8660254037844386, 0.5773502691896257, 1.7320508075688772, 0.125, 0.25, 0.75, 0.375, 0.625, 0.875, 0x1p54, 0x1p66, 0x1p60, 0x1p100, 0x1p-1022, 0}, thorough ? 20000 : 3000, 80));
	acc_list<F, float, BF>(cat(nm, "f32 segments"), around<float>({1, 0.5f, 0.4375f, 0.6875f, 1.1875f, 2.4375f, 0x1p-12f, 0x1p-25f, 0.70710677f, 0x1p26f, 0x1p-126f, 0}, 4000, 60));
	acc_line<F, double, BD>(cat(nm, "f64 line"), kind == 2 ? -16.0 : -1.0, kind == 2 ? 16.0 : 1.0, thorough ? 200000000 : 4000000);
	if (kind == 2) acc_line<F, double, BD>(cat(nm, "f64 unit line"), -1.3, 1.3, thorough ? 100000000 : 2000000);
	else acc_line<F, double, BD>(cat(nm, "f64 end line"), 0.96, 1.0, thorough ? 100000000 : 2000000);
	acc_line<F, float, BF>(cat(nm, "f32 line"), kind == 2 ? -16.f : -1.f, kind == 2 ? 16.f : 1.f, 4000000);
	static Grid<double> pg(10, 0, 1023 + 60, false, 3); static Grid<float> pf(10, 0, 255, false, 4);
	if (kind != 1) { explore(cat(nm, "f64 parity"), 1, 2, pg.n(), pg, j_par<F, double, false>); explore(cat(nm, "f32 parity"), 1, 2, pf.n(), pf, j_par<F, float, false>); }
	auto & ex = *new std::vector<std::pair<double, double>>; auto & ef = *new std::vector<std::pair<float, float>>;
	double inf = INFINITY, nan = NAN;
	auto add = [&](double x, double y) { ex.push_back({x, y}); ef.push_back({static_cast<float>(x), static_cast<float>(y)}); };
	add(nan, nan); add(-nan, nan);
	if (kind != 2) { for (double x : {2.0, 1e30, inf}) { add(x, nan); add(-x, nan); } ex.push_back({up(1.0), nan}); ex.push_back({-up(1.0), nan}); ef.push_back({up(1.f), NAN}); ef.push_back({-up(1.f), NAN}); }
	if (kind != 1) { add(0.0, 0.0); add(-0.0, -0.0); ex.push_back({0x1p-1074, 0x1p-1074}); ef.push_back({0x1p-149f, 0x1p-149f}); }
	else { ex.push_back({1, 0}); ef.push_back({1, 0}); }
	exact_list<F, double>(cat(nm, "f64 exact"), ex); exact_list<F, float>(cat(nm, "f32 exact"), ef);
}
template <class T, int B> static bool j_atan2(const u64 * w, Rep * r)
{
	T y = Fp<T>::get(w), x = Fp<T>::get(w + Fp<T>::nw); T g = keep(ccm::atan2(hide(y), hide(x)));
	using R = typename Fp<T>::R; R e = std::atan2(static_cast<R>(y), static_cast<R>(x));
	bool ok = within<T>(g, e, B / 256.0);
	if ((y == 0 || is_inf(x) || is_inf(y)) && !is_nan(x) && !is_nan(y)) ok = ok && same(g, static_cast<T>(e)); // the table values are the rounded multiples of pi
	if (std::is_same_v<T, double> && !ok && e != 0 && (e < 0 ? -e : e) < 0x1p-1022L) ok = within<T>(g, e, B / 256.0 + 1);
	MC_RET(ok, show(g), show(e));
}
template <class T, int B> static void atan2s(int estep)
{
	static std::vector<T> v = alphabet<T>(estep);
	explore(cat("atan2 pairs", Fp<T>::name), 2, 1, v.size() * v.size(), gen2(v, v), j_atan2<T, B>);
	// directions: all quadrants, ratios next to every segment boundary, several scales
	static const u64 N = thorough ? 400000 : 20000;
	explore(cat("atan2 directions", Fp<T>::name), 2, 1, N * 8 * 12, [](u64 i, u64 * w) {
		static const int SC[12] = {0, 1, -1, 30, -30, Fp<T>::emax - 3, Fp<T>::emin + 2, Fp<T>::emin - Fp<T>::p / 2, 3, 60, -60, Fp<T>::emax / 2};
		int sc = SC[i % 12]; i /= 12; int q = static_cast<int>(i & 7); i >>= 3;
		T t = static_cast<T>((static_cast<long double>(i) + 0.13L * static_cast<long double>(i % 5)) / static_cast<long double>(N)); T a = std::ldexp(t, sc), b = std::ldexp(T(1.7L), sc);
		if (q & 4) std::swap(a, b);
		put(q & 1 ? -a : a, w); put(q & 2 ? -b : b, w + 1);
	}, j_atan2<T, B>);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	constexpr int B = CFG == 0 ? 320 : 1280;
	run<asin_f, B, CFG == 0 ? 256 : 1280>("asin", 0); run<acos_f, B, CFG == 0 ? 256 : 1280>("acos", 1); run<atan_f, B, CFG == 0 ? 256 : 1280>("atan", 2);
	atan2s<float, CFG == 0 ? 512 : 1280>(thorough ? 1 : 4); atan2s<double, CFG == 0 ? 512 : 1280>(thorough ? 6 : 24);
}
