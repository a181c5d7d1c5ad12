// C15 cbrt, hypot
#include "acc.hpp"
using namespace mc;
ACC_FN(cbrt, cbrt)
template <class T> static bool j_odd(const u64 * w, Rep * r) { T x = Fp<T>::get(w); T a = keep(ccm::cbrt(hide(x))), b = keep(ccm::cbrt(hide(-x))); MC_RET(same(b, T(-a)), show(b), show(T(-a))); }
template <class T, int B> static void cbrts()
{
	auto & c = *new std::vector<T>;
	for (int k = 1; k <= 200; ++k) { T t = static_cast<T>(k); c.push_back(t * t * t); }
	for (int e = Fp<T>::emin - Fp<T>::p + 1; e <= Fp<T>::emax; ++e) { c.push_back(std::ldexp(T(1), e)); }
	acc_list<cbrt_f, T, B>(cat("cbrt cubes and powers", Fp<T>::name), around<T>(c, 30));
	static Grid<T> g(8); explore(cat("cbrt parity", Fp<T>::name), 1, 2, g.n(), g, j_odd<T>);
	auto & ex = *new std::vector<std::pair<T, T>>; T inf = std::numeric_limits<T>::infinity();
	for (T x : {T(0), -T(0), inf, -inf, std::numeric_limits<T>::quiet_NaN()}) ex.push_back({x, x});
	exact_list<cbrt_f, T>(cat("cbrt exact", Fp<T>::name), ex);
}
// ---- hypot: accuracy, symmetry, evenness
template <class T, int B> static bool j_hyp(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w), y = Fp<T>::get(w + 1); using R = typename Fp<T>::R;
	T g = keep(ccm::hypot(hide(x), hide(y)));
	R e = is_inf(x) || is_inf(y) ? R(INFINITY) : std::hypot(static_cast<R>(x), static_cast<R>(y));
	bool ok = within<T>(g, e, B / 256.0);
	if (ok) { T s = keep(ccm::hypot(hide(y), hide(x))), n1 = keep(ccm::hypot(hide(-x), hide(y))), n2 = keep(ccm::hypot(hide(x), hide(-y))); ok = same(s, g) && same(n1, g) && same(n2, g); if (!ok) { if (r) { r->got = show(s) + " " + show(n1) + " " + show(n2); r->want = show(g) + " (symmetric and even)"; } return false; } }
	MC_RET(ok, show(g), show(e));
}
template <class T, int B> static bool j_hyp3(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w), y = Fp<T>::get(w + 1), z = Fp<T>::get(w + 2); using R = typename Fp<T>::R;
	T g = keep(ccm::hypot(hide(x), hide(y), hide(z)));
	R e = is_inf(x) || is_inf(y) || is_inf(z) ? R(INFINITY) : std::hypot(std::hypot(static_cast<R>(x), static_cast<R>(y)), static_cast<R>(z));
	MC_RET(within<T>(g, e, B / 256.0), show(g), show(e));
}
template <class T, int B> static void hyps(int e2, int e3)
{
	static std::vector<T> v = alphabet<T>(e2), t = alphabet<T>(e3);
	explore(cat("hypot pairs", Fp<T>::name), 2, 4, v.size() * v.size(), gen2(v, v), j_hyp<T, B>);
	explore(cat("hypot triples", Fp<T>::name), 3, 1, t.size() * t.size() * t.size(), gen3(t, t, t), j_hyp3<T, 2 * B>);
	// every exponent gap x both mantissas, at several scales
	static const u64 M = thorough ? 512 : 48; static const int GAP = Fp<T>::p + 3;
	explore(cat("hypot gaps", Fp<T>::name), 2, 4, static_cast<u64>(GAP) * M * M * 7, [](u64 i, u64 * w) {
		static const int SC[7] = {0, Fp<T>::emax - 1, Fp<T>::emax, Fp<T>::emin + 1, Fp<T>::emin - Fp<T>::p / 2, Fp<T>::emax / 2, Fp<T>::emin / 2};
		int s = SC[i % 7]; i /= 7; u64 a = i % M; i /= M; u64 b = i % M; i /= M;
		auto man = [](u64 k) { T m = T(1) + static_cast<T>(k) / static_cast<T>(M); return k % 3 == 1 ? up(m) : k % 3 == 2 ? dn(m) : m; };
		put(std::ldexp(man(a), s), w); put(std::ldexp(man(b), s - static_cast<int>(i)), w + 1);
	}, j_hyp<T, B>);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
#if defined(MC_FORCE_CE) && !defined(__clang__)
	constexpr bool PLAT = true;
#else
	constexpr bool PLAT = CFG == 0;
#endif
	acc_grids<cbrt_f, PLAT ? 320 : 512, PLAT ? 1280 : 512>("cbrt");
	acc_line<cbrt_f, double, PLAT ? 1280 : 512>("cbrt f64 line", -30, 30, thorough ? 100000000 : 4000000);
	cbrts<float, PLAT ? 320 : 512>(); cbrts<double, PLAT ? 1280 : 512>();
	hyps<float, PLAT ? 256 : 768>(thorough ? 1 : 4, 30); hyps<double, PLAT ? 320 : 768>(thorough ? 6 : 30, 240);
}
