// C13 sin, cos, tan
#include "acc.hpp"
#include "hard_trig.hpp"
#include <mpfr.h>
using namespace mc;
#define TRIG_FN(NAME) struct NAME##_f { static float f(float x) { return ccm::NAME(x); } static double f(double x) { return ccm::NAME(x); } static double r(double x) { return std::NAME(x); } static long double r(long double x) { return std::NAME(x); } static double q(double x) { return keep(std::NAME(hide(x))); } };
TRIG_FN(sin) TRIG_FN(cos) TRIG_FN(tan)
using MpFn = int (*)(mpfr_t, const mpfr_t, mpfr_rnd_t);
static MpFn mp_of(sin_f) { return mpfr_sin; }
static MpFn mp_of(cos_f) { return mpfr_cos; }
static MpFn mp_of(tan_f) { return mpfr_tan; }
static long double mp_ref(MpFn f, double x) { mpfr_t a, r; mpfr_init2(a, 53); mpfr_init2(r, 64); mpfr_set_d(a, x, MPFR_RNDN); f(r, a, MPFR_RNDN); long double q = mpfr_get_ld(r, MPFR_RNDN); mpfr_clear(a); mpfr_clear(r); return q; }
#if defined(MC_FORCE_CE) && !defined(__clang__)
constexpr bool PLATFORM = true;
#else
constexpr bool PLATFORM = CFG == 0;
#endif
// The 80-bit C library functions lose accuracy next to multiples of pi/2: what fails against them is decided by MPFR.
template <class F, int B> static bool j_trig(const u64 * w, Rep * r)
{
	double x = f64(w[0]); double g = keep(F::f(hide(x))); long double e = F::r(static_cast<long double>(x));
	bool ok = within<double>(g, e, B / 256.0);
	if (!ok && is_fin(x) && x != 0) { e = mp_ref(mp_of(F{}), x); ok = within<double>(g, e, B / 256.0); }
	// beyond 10^8 the platform's own functions are weaker; passing its value on unchanged is accepted there
	if (!ok && PLATFORM && (x > 1e8 || x < -1e8)) ok = same(g, F::q(x));
	MC_RET(ok, show(g), show(e));
}
// parity: f(-x) is -f(x) (sin, tan) or f(x) (cos), to the bit
template <class F, class T, bool EVEN> static bool j_par(const u64 * w, Rep * r) { T x = Fp<T>::get(w); T a = keep(F::f(hide(x))), b = keep(F::f(hide(-x))); T e = EVEN ? a : -a; MC_RET(same(b, e), show(b), show(e)); }
template <class F, int BF, int BD, bool EVEN> static void run(const char * nm)
{
	acc_grids<F, BF, BD>(nm);
	static std::vector<double> v, q; static std::vector<float> vf; v.clear(); q.clear(); vf.clear();
	for (u64 b : HARD_TRIG) { double x = f64(b); for (double y : {x, up(x), dn(x)}) { v.push_back(y); v.push_back(-y); } }
	for (unsigned b : HARD_TRIGF) { float x = f32(b); for (float y : {x, up(x), dn(x)}) { vf.push_back(y); vf.push_back(-y); } }
	acc_list<F, float, BF>(cat(nm, "f32 hard"), vf);
	explore(cat(nm, "f64 hard"), 1, 1, v.size(), gen1(v), j_trig<F, BD>);
	static const u64 NQ = thorough ? 40000000 : 1200000;
	explore(cat(nm, "f64 multiples of pi/4"), 1, 1, NQ * 3, [](u64 i, u64 * w) { int d = static_cast<int>(i % 3) - 1; i /= 3; double x = static_cast<double>(0.785398163397448309615660845819875721L * static_cast<long double>(i)); if (d < 0) x = dn(x); if (d > 0) x = up(x); put(x, w); }, j_trig<F, BD>);
	// reduction regime boundaries
	acc_list<F, double, BD>(cat(nm, "f64 regimes"), around<double>({0x1.921fb54442d18p-1, 0x1p-26, 0x1p-27, 0x1p-12, 0x1p-16, 0x1p-28, 0x1p-8, 0x1p-5, 1, 2, 0x1.921fb54442d18p0, 0x1.2d97c7f3321d2p1, 0x1p16, 0x1p20, 0x1p23, 0x1p27, 0x1p28, 0x1p32, 0x1p52, 0x1p53, 0x1p54, 0x1p100, 0x1p1000, 105414350, 105414357.85, 0x1.921fbp20, 0x1.921fbp19, 1e22, 1e300}, thorough ? 10000 : 1500, 60));
	acc_line<F, double, BD>(cat(nm, "f64 line"), -7.0, 7.0, thorough ? 100000000 : 3000000);
	acc_line<F, double, BD>(cat(nm, "f64 wide line"), -200000.0, 200000.0, thorough ? 100000000 : 2000000);
	acc_line<F, float, BF>(cat(nm, "f32 line"), -20.f, 20.f, 4000000);
	static Grid<double> pg(7, 0, 2047, false, 3); static Grid<float> pf(10, 0, 255, false, 4);
	explore(cat(nm, "f64 parity"), 1, 2, pg.n(), pg, j_par<F, double, EVEN>); explore(cat(nm, "f32 parity"), 1, 2, pf.n(), pf, j_par<F, float, EVEN>);
	auto & ex = *new std::vector<std::pair<double, double>>; auto & ef = *new std::vector<std::pair<float, float>>;
	double inf = INFINITY, nan = NAN;
	for (double x : {inf, -inf, nan}) { ex.push_back({x, nan}); ef.push_back({static_cast<float>(x), static_cast<float>(nan)}); }
	ex.push_back({0.0, EVEN ? 1.0 : 0.0}); ex.push_back({-0.0, EVEN ? 1.0 : -0.0}); ef.push_back({0.0f, EVEN ? 1.0f : 0.0f}); ef.push_back({-0.0f, EVEN ? 1.0f : -0.0f});
	exact_list<F, double>(cat(nm, "f64 exact"), ex); exact_list<F, float>(cat(nm, "f32 exact"), ef);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	constexpr int S = CFG == 0 ? 256 : CFG == 1 ? 1280 : 2560, T = CFG == 0 ? 512 : CFG == 1 ? 1280 : 2560;
	run<sin_f, S, S, false>("sin"); run<cos_f, S, S, true>("cos"); run<tan_f, T, T, false>("tan");
}
