// C35 Software addition, subtraction and multiplication; error-free transforms; nearest_integer; directional rounding
#include "lib.hpp"
#include "ccmath/internal/support/fp/directional_rounding_utils.hpp"
#include "ccmath/internal/support/fp/nearest_integer.hpp"
#include "ccmath/internal/support/fp/ops/add.hpp"
#include "ccmath/internal/support/fp/ops/mul.hpp"
#include "ccmath/internal/support/fp/ops/sub.hpp"
#include "ccmath/internal/support/math_support.hpp"
#include "ccmath/internal/types/double_double.hpp"
#include <cfenv>
using namespace mc;
namespace su = ccm::support;
namespace op = ccm::support::fp::op;
namespace ty = ccm::types;
using Q = __float128;
// usable in constant expressions, zero operands and subnormal results included
static_assert(op::add<float>(1.5F, 0.0F) == 1.5F && op::add<float>(0.0, 1.5) == 1.5F && op::sub<double>(0.0, 1.5) == -1.5 && op::sub<double>(1.5, 0.0) == 1.5 && op::sub<long double>(0.0L, 2.5L) == -2.5L);
static_assert(op::add<double>(0x1p-1074, 0x1p-1074) == 0x1p-1073 && op::mul<double>(0x1p-1000, 0x1p-74) == 0x1p-1074 && op::sub<float>(0x1p-1074, 0x1p-149) == -0x1p-149F && op::mul<float>(0x1.000001p0, 0x1.000001p0) == 0x1.000002p0F);
static_assert(su::fp::nearest_integer(0x1.000002p23F) == 0x1.000002p23F && su::fp::nearest_integer(2.5) == 2.0 && su::fp::nearest_integer(-3.5F) == -4.0F);
#ifdef MC_MODES
constexpr u64 NM = 4;
#else
constexpr u64 NM = 1;
#endif
template <class T> struct Gd { static constexpr u64 fl = 0; };
// The processor's own addition and multiplication, kept from folding.
template <class T> __attribute__((noinline)) static T hw(int o, T a, T b) { volatile T x = a, y = b, z; if (o == 0) z = x + y; else if (o == 1) z = x - y; else z = x * y; return z; }
// result in the type of the operands, rounded to odd: one further rounding gives the correctly rounded narrow result
template <class T> static T odd(int o, T a, T b)
{
	std::feclearexcept(FE_ALL_EXCEPT); T z; { Round q(FE_TOWARDZERO); z = keep(hw(o, a, b)); }
	if (std::fetestexcept(FE_INEXACT) && is_fin(z)) { u64 w[2] = {}; put(z, w); w[0] |= 1; z = Fp<T>::get(w); }
	return z;
}
template <class O, class I> static bool j_op(const u64 * w, Rep * r)
{
	int o = static_cast<int>(w[0] >> 2); int m = RM[w[0] & 3]; I a = Fp<I>::get(w + 1), b = Fp<I>::get(w + 1 + Fp<I>::nw); O g, e;
	if constexpr (std::is_same_v<O, I>) { Round q(m); e = keep(hw(o, a, b)); }
	else
	{
		I t = odd(o, a, b);
		if (t == 0) { Round q(m); t = keep(hw(o, a, b)); if (t != 0) t = std::copysign(std::numeric_limits<I>::denorm_min(), t); else if (o == 2 && a != 0 && b != 0) t = std::copysign(std::numeric_limits<I>::denorm_min(), t); }
		Round q(m); volatile I v = t; e = static_cast<O>(v); e = keep(e);
	}
	{ Round q(m); I x = hide(a), y = hide(b); g = o == 0 ? op::add<O>(x, y) : o == 1 ? op::sub<O>(x, y) : op::mul<O>(x, y); g = keep(g); }
	MC_RET_SAME(g, e);
}
template <class O, class I> static void ops(const char * nm, int estep, bool pairs)
{
	static std::vector<I> a; a = alphabet<I>(estep); static u64 n; n = a.size();
	// half-way and guard-bit patterns: 1 + k units in the last place of either format
	for (int k = 0; k < 8; ++k) for (int s = -1; s <= 1; ++s) { I v = I(1) + std::ldexp(I(1), 1 - Fp<O>::p) * static_cast<I>(k) / 2 + std::ldexp(static_cast<I>(s), 1 - Fp<I>::p); a.push_back(v); a.push_back(-v); a.push_back(std::ldexp(v, Fp<O>::emin)); }
	uniq(a); n = a.size();
	explore(cat2(nm, "alphabet pairs"), 1 + 2 * Fp<I>::nw, 1, n * n * 3 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; w[0] |= (i % 3) << 2; i /= 3; put(a[i % n], w + 1); put(a[i / n], w + 1 + Fp<I>::nw); }, j_op<O, I>);
	if (!pairs) return;
	// sums over every alignment with short mantissas: x = m 2^e (4 bits at both ends of the significand), y = m' 2^(e-d)
	static const int P = Fp<I>::p; static std::vector<int> es; es.clear();
	for (int e : {Fp<I>::emin - P + 1, Fp<I>::emin - P + 4, Fp<I>::emin - 3, Fp<I>::emin - 1, Fp<I>::emin, Fp<I>::emin + 1, Fp<O>::emin - 1, Fp<O>::emin, Fp<O>::emin + 2, 0, Fp<O>::emax - 1, Fp<O>::emax, Fp<I>::emax}) if (std::find(es.begin(), es.end(), e) == es.end()) es.push_back(e);
	static auto mk = [](u64 k) { static const unsigned char sub[26] = {0, 1, 2, 3, 4, 7, 8, 12, 13, 16, 17, 18, 20, 29, 32, 33, 34, 42, 47, 48, 51, 63, 64, 65, 66, 67}; if (!thorough) k = sub[k]; I m = I(1) + std::ldexp(static_cast<I>(k & 3), 1 - Fp<I>::p) + std::ldexp(static_cast<I>((k >> 2) & 3), -2) + std::ldexp(static_cast<I>((k >> 4) & 3), 1 - Fp<O>::p - 1); if (k & 64) m = I(2) - std::ldexp(static_cast<I>(k & 3), 1 - Fp<I>::p) - std::ldexp(static_cast<I>(1), 1 - Fp<I>::p); return m; };
	static u64 NA; NA = thorough ? 68 : 26; static const u64 ND = static_cast<u64>(P) + 6; static u64 NE; NE = es.size();
	explore(cat2(nm, "alignments"), 1 + 2 * Fp<I>::nw, 1, NA * NA * ND * NE * 4 * NM, [](u64 i, u64 * w) {
		w[0] = i % NM; i /= NM; u64 s = i % 4; i /= 4; w[0] |= (s & 1) << 2; int e = es[i % NE]; i /= NE; int d = static_cast<int>(i % ND); i /= ND;
		I x = std::ldexp(mk(i % NA), e), y = std::ldexp(mk(i / NA), e - d); if (s & 2) std::swap(x, y); if (i & 1) x = -x; if (i & 2) y = -y;
		put(x, w + 1); put(y, w + 1 + Fp<I>::nw);
	}, j_op<O, I>);
	// products m m' 2^e around every rounding boundary and range limit
	explore(cat2(nm, "products"), 1 + 2 * Fp<I>::nw, 1, NA * NA * NE * 8 * NM, [](u64 i, u64 * w) {
		w[0] = i % NM; i /= NM; w[0] |= 2 << 2; int d = static_cast<int>(i % 8) - 4; i /= 8; int e = es[i % NE] + d; i /= NE; int h = e / 2;
		put(std::ldexp(mk(i % NA), h), w + 1); put(-std::ldexp(mk(i / NA), e - h), w + 1 + Fp<I>::nw);
	}, j_op<O, I>);
}
// ------------------------------------------------------------------ error-free transforms (round to nearest)
#ifdef MC_CONTRACT // contraction makes one half of the split zero; the product stays exact
constexpr bool contracted = true;
#else
constexpr bool contracted = false;
#endif
static std::string dd(double h, double l) { return show(h) + " + " + show(l); }
static bool j_sum(const u64 * w, Rep * r)
{
	double a = f64(w[0]), b = f64(w[1]); double s = hw(0, a, b);
	if (!is_fin(s)) { if (r) r->got = "out of range"; return true; }
	double h, l; su::two_sum(h, l, hide(a), hide(b)); h = keep(h); l = keep(l);
	double e = static_cast<double>((static_cast<long double>(a) - s) + b); // only used for display
	{ // exact error by Knuth's algorithm on volatile operands
		volatile double bb = s - a, aa = s - bb, db = b - bb, da = a - aa; e = da + db; }
	if (std::fabs(a) < 0x1p1020 && std::fabs(b) < 0x1p1020 && (h != s || l != e)) MC_RET(false, "two_sum " + dd(h, l), dd(s, e));
	double x = a, y = b; if (std::fabs(x) < std::fabs(y)) std::swap(x, y);
	su::fast_two_sum(h, l, hide(x), hide(y)); h = keep(h); l = keep(l);
	if (std::fabs(x) < 0x1p1020 && (h != s || l != e)) MC_RET(false, "fast_two_sum " + dd(h, l), dd(s, e));
	auto p = ty::exact_add(hide(x), hide(y)); p.hi = keep(p.hi); p.lo = keep(p.lo);
	if (std::fabs(x) < 0x1p1020 && (p.hi != s || p.lo != e)) MC_RET(false, "exact_add " + dd(p.hi, p.lo), dd(s, e));
	MC_RET(true, dd(s, e), dd(s, e));
}
static bool j_mult(const u64 * w, Rep * r)
{
	double a = f64(w[0]), b = f64(w[1]);
	auto rng = [](double x) { x = std::fabs(x); return x == 0 || (x >= 0x1p-480 && x < 0x1p500); };
	if (!rng(a) || !rng(b)) { if (r) r->got = "out of range"; return true; }
	auto s = ty::split(hide(a)); s.hi = keep(s.hi); s.lo = keep(s.lo);
	auto narrow = [](double x, int bits) { u64 m = raw<u64>(x); return x == 0 || (m & ((1ull << (53 - bits)) - 1)) == 0; };
	if (hw(0, s.hi, s.lo) != a || hw(1, a, s.hi) != s.lo || (!contracted && (!narrow(s.hi, 26) || !narrow(s.lo, 26)))) MC_RET(false, "split " + dd(s.hi, s.lo), show(a));
	Q t = static_cast<Q>(a) * b; double h = hw(2, a, b), l = static_cast<double>(t - static_cast<Q>(h));
	auto p = ty::exact_mult(hide(a), hide(b)); p.hi = keep(p.hi); p.lo = keep(p.lo);
	if (p.hi != h || p.lo != l) MC_RET(false, "exact_mult " + dd(p.hi, p.lo), dd(h, l));
	MC_RET(true, dd(h, l), dd(h, l));
}
// double-double sums and products: relative error 2^-100 of the larger magnitude involved
static bool j_dd(const u64 * w, Rep * r)
{
	double ah = f64(w[0]), bh = f64(w[1]); double al = ah * f64(w[2]), bl = bh * f64(w[3]);
	{ auto n1 = ty::exact_add(ah, al), n2 = ty::exact_add(bh, bl); ah = n1.hi; al = n1.lo; bh = n2.hi; bl = n2.lo; }
	Q A = static_cast<Q>(ah) + al, B = static_cast<Q>(bh) + bl; ty::DoubleDouble a{hide(ah), hide(al)}, b{hide(bh), hide(bl)};
	auto mag = [](Q x) { return x < 0 ? -x : x; }; auto bad = [&](ty::DoubleDouble c, Q x, Q scale, int k) { Q d = mag(static_cast<Q>(keep(c.hi)) + keep(c.lo) - x); return !(d <= scale * static_cast<Q>(std::ldexp(1.0, -k))) || hw(0, c.hi, c.lo) != c.hi; };
	const bool ge = std::fabs(ah) >= std::fabs(bh);
	if (ge) { auto c = ty::add(a, b); if (bad(c, A + B, mag(A) + mag(B), 102)) MC_RET(false, "add " + dd(c.hi, c.lo), show(static_cast<double>(A + B))); }
	if (ge) { auto c = ty::add(a, hide(bh)); if (bad(c, A + bh, mag(A) + mag(static_cast<Q>(bh)), 102)) MC_RET(false, "add dd,d " + dd(c.hi, c.lo), show(static_cast<double>(A + bh))); }
	auto nb = [&](ty::DoubleDouble c, Q x) { Q d = mag(static_cast<Q>(keep(c.hi)) + keep(c.lo) - x); return !(d <= mag(x) * static_cast<Q>(std::ldexp(1.0, -100))); };
	{ auto c = ty::quick_mult(a, b); if (nb(c, A * B)) MC_RET(false, "quick_mult " + dd(c.hi, c.lo), show(static_cast<double>(A * B))); }
	{ auto c = ty::quick_mult(hide(ah), b); if (nb(c, ah * B)) MC_RET(false, "quick_mult d,dd " + dd(c.hi, c.lo), show(static_cast<double>(ah * B))); }
	{ ty::DoubleDouble z{std::ldexp(ah, 8), std::ldexp(al, 8)}; if (std::fabs(z.hi) >= std::fabs(ah * bh) * 1.01) { Q x = A * B + static_cast<Q>(z.hi) + z.lo; auto c = su::multiply_add<ty::DoubleDouble>(a, b, z); if (bad(c, x, mag(A * B) + mag(static_cast<Q>(z.hi)), 99)) MC_RET(false, "multiply_add " + dd(c.hi, c.lo), show(static_cast<double>(x))); } }
	MC_RET(true, "", "");
}
static bool j_velt(const u64 * w, Rep * r)
{
	long double x = f80(w); if (!is_fin(x) || std::fabs(x) > 0x1p16300L) { if (r) r->got = "out of range"; return true; }
	long double h, l; su::veltkamp_split(h, l, hide(x)); h = keep(h); l = keep(l);
	u64 a[2] = {}, b[2] = {}; put(h, a); put(l, b);
	bool sub = std::fabs(x) < 0x1p-16300L, ok = hw(0, h, l) == x && hw(1, x, h) == l && (sub || ((a[0] & 0xffffffffull) == 0 && (b[0] & 0xffffffffull) == 0 && std::fabs(l) <= std::ldexp(1.0L, std::ilogb(x) - 32)));
	if (x == 0) ok = h == 0 && l == 0;
	MC_RET(ok, show(h) + " + " + show(l), show(x));
}
template <class T> static bool j_near(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w + 1), g, e, f; e = std::nearbyint(x); int m = RM[w[0] & 3];
	{ Round q(m); g = keep(su::fp::nearest_integer(hide(x))); }
	bool ok = is_nan(x) ? is_nan(g) : g == e; f = e;
	// ties may go to either neighbour in a directed mode
	if (!ok && m != FE_TONEAREST && is_fin(x)) { T t = std::trunc(x); if (std::fabs(x - t) == T(0.5)) { ok = g == t || g == t + (x < 0 ? T(-1) : T(1)); } }
	MC_RET(ok, show(g), show(f));
}
template <class T> static bool j_dir(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w); if (is_nan(x)) return true;
	struct { int m; T e; } t[] = {{FE_DOWNWARD, std::floor(x)}, {FE_UPWARD, std::ceil(x)}, {FE_TOWARDZERO, std::trunc(x)}, {FE_TONEAREST, std::nearbyint(x)}, {static_cast<int>(su::fp::rounding_mode::eFE_TONEARESTFROMZERO), std::round(x)}};
	for (auto & q : t) { T g = su::fp::directional_round(hide(x), q.m); if (!same(g, q.e)) MC_RET(false, std::to_string(q.m) + ": " + show(g), show(q.e)); }
	MC_RET(true, "", "");
}
static bool j_mode(const u64 * w, Rep * r)
{
	int m = RM[w[0] & 3]; Round q(m); namespace fe = su::fenv; float z = su::fp::signed_zero_for_current_mode<float>(); double d = su::fp::signed_zero_for_current_mode<double>();
	bool ok = fe::get_rounding_mode() == m && fe::rounding_mode_is_round_up() == (m == FE_UPWARD) && fe::rounding_mode_is_round_down() == (m == FE_DOWNWARD) && fe::rounding_mode_is_round_to_nearest() == (m == FE_TONEAREST) && fe::rounding_mode_is_round_to_zero() == (m == FE_TOWARDZERO)
		&& z == 0 && d == 0 && sgn(z) == (m == FE_DOWNWARD) && sgn(d) == (m == FE_DOWNWARD);
	MC_RET(ok, "mode " + std::to_string(fe::get_rounding_mode()), "mode " + std::to_string(m));
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	bool t = thorough;
	ops<float, float>("f32<-f32", t ? 2 : 5, true); ops<float, double>("f32<-f64", t ? 9 : 40, true); ops<double, double>("f64<-f64", t ? 9 : 40, true);
	ops<double, long double>("f64<-f80", t ? 150 : 600, true); ops<float, long double>("f32<-f80", t ? 150 : 600, t); ops<long double, long double>("f80<-f80", t ? 150 : 600, true);
#ifndef MC_FORCE_CE
	explore("rounding mode query", 1, 1, NM, [](u64 i, u64 * w) { w[0] = i; }, j_mode);
#endif
	static Grid<float> gf(t ? 23 : 17); static Grid<double> gd(t ? 12 : 8), gn(t ? 20 : 14, 1021, 1078);
	explore("nearest_integer f32", 2, 1, gf.n() * NM, [](u64 i, u64 * w) { w[0] = i % NM; gf(i / NM, w + 1); }, j_near<float>);
	explore("nearest_integer f64", 2, 1, gd.n() * NM, [](u64 i, u64 * w) { w[0] = i % NM; gd(i / NM, w + 1); }, j_near<double>);
	explore("nearest_integer f64 dense", 2, 1, gn.n() * NM, [](u64 i, u64 * w) { w[0] = i % NM; gn(i / NM, w + 1); }, j_near<double>);
#ifndef MC_MODES
	static Grid<long double> gl(t ? 6 : 3), gl1(t ? 18 : 12, 16380, 16450);
	explore("directional_round f32", 1, 5, gf.n(), [](u64 i, u64 * w) { gf(i, w); }, j_dir<float>); explore("directional_round f64", 1, 5, gd.n(), [](u64 i, u64 * w) { gd(i, w); }, j_dir<double>);
	explore("directional_round f64 dense", 1, 5, gn.n(), [](u64 i, u64 * w) { gn(i, w); }, j_dir<double>);
	explore("directional_round f80", 2, 5, gl.n(), [](u64 i, u64 * w) { gl(i, w); }, j_dir<long double>); explore("directional_round f80 dense", 2, 5, gl1.n(), [](u64 i, u64 * w) { gl1(i, w); }, j_dir<long double>);
	explore("veltkamp_split", 2, 1, gl.n(), [](u64 i, u64 * w) { gl(i, w); }, j_velt); explore("veltkamp_split dense", 2, 1, gl1.n(), [](u64 i, u64 * w) { gl1(i, w); }, j_velt);
	static std::vector<double> a = alphabet<double>(t ? 9 : 25, false); static u64 n; n = a.size();
	explore("error-free sum", 2, 3, n * n, [](u64 i, u64 * w) { put(a[i / n], w); put(a[i % n], w + 1); }, j_sum);
	explore("error-free product", 2, 2, n * n, [](u64 i, u64 * w) { put(a[i / n], w); put(a[i % n], w + 1); }, j_mult);
	static Grid<double> gp(t ? 9 : 7, 1023, 1023, true, 8);
	explore("error-free product dense", 2, 2, gp.n() * gp.n(), [](u64 i, u64 * w) { w[0] = gp.bits(i / gp.n()); w[1] = gp.bits(i % gp.n()) + (3ull << 52); }, j_mult);
	explore("error-free sum dense", 2, 3, gp.n() * gp.n() * 7, [](u64 i, u64 * w) { static const u64 sh[] = {0, 1, 2, 26, 52, 53, 54}; u64 k = sh[i % 7]; i /= 7; w[0] = gp.bits(i / gp.n()); w[1] = gp.bits(i % gp.n()) - (k << 52); }, j_sum);
	static std::vector<double> lows{0, 0x1p-54, -0x1p-54, 0x1.8p-55, -0x1.fffffffffffffp-56, 0x1p-80, 0x1.5555555555555p-60, -0x1.2p-107}; static Grid<double> g2(t ? 6 : 4, 1023, 1023, true, 6); static const u64 NL = lows.size(), ND2 = 5;
	explore("double-double", 4, 5, g2.n() * g2.n() * NL * NL * ND2, [](u64 i, u64 * w) { static const u64 sh[] = {0, 1, 5, 40, 53}; put(lows[i % NL], w + 2); i /= NL; put(lows[i % NL], w + 3); i /= NL; u64 k = sh[i % ND2]; i /= ND2; w[0] = g2.bits(i / g2.n()); w[1] = g2.bits(i % g2.n()) - (k << 52); }, j_dd);
#endif
}
