// C16 tgamma, gamma, lgamma
#include "acc.hpp"
#include <mpfr.h>
using namespace mc;
struct mp { mpfr_t v; explicit mp(long p) { mpfr_init2(v, p); } ~mp() { mpfr_clear(v); } };
static long double ref_gamma(double x) { static thread_local mp a(53), q(64); mpfr_set_d(a.v, x, MPFR_RNDN); mpfr_gamma(q.v, a.v, MPFR_RNDN); return mpfr_get_ld(q.v, MPFR_RNDN); }
static long double ref_lgamma(double x) { static thread_local mp a(53), q(64); int s; mpfr_set_d(a.v, x, MPFR_RNDN); mpfr_lgamma(q.v, &s, a.v, MPFR_RNDN); return mpfr_get_ld(q.v, MPFR_RNDN); }
static bool neg_int(double x) { return x < 0 && std::floor(x) == x; }
#if defined(MC_FORCE_CE) && !defined(__clang__)
constexpr bool PLAT = true;
#else
constexpr bool PLAT = CFG == 0;
#endif
// in-tree double kernels: relative 2^-20 (gamma); float gamma and platform: ulps
template <class T> static bool j_gamma(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w); T g = keep(ccm::tgamma(hide(x))); T g2 = keep(ccm::gamma(hide(x)));
	if (!same(g, g2)) MC_RET(false, "gamma " + show(g2), "tgamma " + show(g));
	if (is_nan(x) || neg_int(x) || (is_inf(x) && x < 0)) MC_RET(is_nan(g), show(g), "nan");
	if (x == 0) MC_RET(is_inf(g) && sgn(g) == sgn(x), show(g), "inf with the sign of zero");
	if (is_inf(x)) MC_RET(is_inf(g) && !sgn(g), show(g), "inf");
	long double e;
	{ static constexpr double F[] = {1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800, 479001600}; if (x >= 1 && x <= 13 && std::floor(x) == x) e = F[static_cast<int>(x) - 1]; else e = ref_gamma(static_cast<double>(x)); }
	if (PLAT || std::is_same_v<T, float>) MC_RET(within<T>(g, static_cast<typename Fp<T>::R>(e), 10.0), show(g), show(e));
	// relative 2^-20, with the format's underflow and overflow
	long double a = e < 0 ? -e : e, lo = a * (1 - 0x1p-20L) - 0x1p-1074L, hi = a * (1 + 0x1p-20L) + 0x1p-1074L, ga = g < 0 ? -static_cast<long double>(g) : static_cast<long double>(g);
	bool ok = !is_nan(g) && sgn(g) == sgn(e) && (is_inf(g) ? hi >= static_cast<long double>(DBL_MAX) : ga >= lo && ga <= hi);
	MC_RET(ok, show(g), show(e));
}
template <class T> static bool j_lgamma(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w); T g = keep(ccm::lgamma(hide(x)));
	if (is_nan(x)) MC_RET(is_nan(g), show(g), "nan");
	if (is_inf(x) || x == 0 || neg_int(x)) MC_RET(is_inf(g) && !sgn(g), show(g), "inf");
	long double e = ref_lgamma(static_cast<double>(x)), mx = static_cast<long double>(std::numeric_limits<T>::max());
	long double a = e < 0 ? -e : e, tol = (a > 1 ? a : 1) * (CFG == 0 && std::is_same_v<T, double> ? 0x1p-48L : 0x1p-20L);
	if (is_inf(g)) MC_RET(!sgn(g) && e + tol > mx, show(g), show(e));
	long double d = static_cast<long double>(g) - e; if (d < 0) d = -d;
	MC_RET(d <= tol, show(g), show(e));
}
template <class T> static void both(const char * nm, u64 n, const std::vector<T> & v) { (void)n; static const std::vector<T> * p; p = &v; auto g = [](u64 i, u64 * w) { put((*p)[i], w); }; explore(cat("gamma", cat(nm, Fp<T>::name)), 1, 2, v.size(), g, j_gamma<T>); explore(cat("lgamma", cat(nm, Fp<T>::name)), 1, 1, v.size(), g, j_lgamma<T>); }
template <class T> static void line(const char * nm, T lo, T hi, u64 n)
{
	static T l, h; static u64 m; l = lo; h = hi; m = n;
	auto g = [](u64 i, u64 * w) { put(static_cast<T>(static_cast<long double>(l) + (static_cast<long double>(h) - l) * (static_cast<long double>(i) + (i & 1 ? 0.31830988618379L : 0.0L)) / static_cast<long double>(m)), w); };
	explore(cat("gamma", cat(nm, Fp<T>::name)), 1, 2, n, g, j_gamma<T>); explore(cat("lgamma", cat(nm, Fp<T>::name)), 1, 1, n, g, j_lgamma<T>);
}
template <class T> static void run(u64 n, int k)
{
	static Grid<T> g(k, 0, std::is_same_v<T, float> ? 255 : 2047, true, 3);
	explore(cat("gamma grid", Fp<T>::name), 1, 2, g.n(), g, j_gamma<T>); explore(cat("lgamma grid", Fp<T>::name), 1, 1, g.n(), g, j_lgamma<T>);
	both<T>("specials ", 0, *new std::vector<T>(alphabet<T>(std::is_same_v<T, float> ? 1 : 4)));
	auto & c = *new std::vector<T>; for (int i = 0; i <= 190; ++i) { c.push_back(static_cast<T>(i)); c.push_back(static_cast<T>(i) + T(0.5)); }
	for (T x : {T(1.4616321449683623L), T(-0.5040830082644554L), T(-1.5734984731623904L), T(-2.6107208684441447L), T(171.6243769563027L), T(35.040096L), T(-2.4570247382208006L), T(-2.7476826467274127L), T(-3.1435808883499798L), T(-3.955294284858598L), T(0x1p-53L), T(0x1p-20L), T(1e5L), T(1e7L), T(1e15L), T(8388607.5L), T(4503599627370495.5L)}) c.push_back(x);
	both<T>("integers and halves ", 0, around<T>(c, 12, 30));
	line<T>("line -8..8 ", -8, 8, n); line<T>("line -190..180 ", -190, 180, n); line<T>("line 0.5..3 ", T(0.5), 3, n);
}
template <class I> static bool j_int(const u64 * w, Rep * r) { I i = hide(static_cast<I>(w[0])); double e = keep(ccm::tgamma(static_cast<double>(i))), g = keep(ccm::tgamma(i)), g2 = keep(ccm::gamma(i)), l = keep(ccm::lgamma(i)), le = keep(ccm::lgamma(static_cast<double>(i))); MC_RET(same(g, e) && same(g2, e) && same(l, le), show(g) + show(g2) + show(l), show(e) + show(le)); }
template <class I> static void ints(const char * nm) { static std::vector<I> v = ints_alphabet<I>(); explore(cat("integral", nm), 1, 5, v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i]); }, j_int<I>); }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	run<float>(thorough ? 4000000 : 60000, thorough ? 14 : 7); run<double>(thorough ? 4000000 : 80000, thorough ? 8 : 4);
	ints<int>("int"); ints<long long>("long long"); ints<unsigned char>("unsigned char"); ints<unsigned long>("unsigned long"); ints<short>("short");
}
