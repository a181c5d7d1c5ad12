// C28 dyadic floats, normalized floats, bit-level views: against exact integer arithmetic (GMP)
#include "lib.hpp"
#include "ccmath/internal/types/dyadic_float.hpp"
#include "ccmath/internal/types/normalized_float.hpp"
#include "ccmath/internal/types/double_double.hpp"
#include "ccmath/internal/support/fp/cast.hpp"
#include <gmp.h>
using namespace mc;
#ifndef MC_RSLACK
#define MC_RSLACK 8 // bits of slack of the approximate reciprocal
#endif
namespace ty = ccm::types; namespace su = ccm::support;
struct Z { mpz_t z; Z() { mpz_init(z); } ~Z() { mpz_clear(z); } operator mpz_ptr() { return z; } operator mpz_srcptr() const { return z; } Z(const Z &) = delete; Z & operator=(const Z &) = delete; };
#define SGN(x) mpz_sgn(static_cast<mpz_srcptr>(x))
static long nbits(const Z & m) { return SGN(m) == 0 ? 0 : static_cast<long>(mpz_sizeinbase(m, 2)); }
// an exact value: (-1)^neg * m * 2^e
struct V { bool neg = false; Z m; long e = 0; };
static void set(V & v, bool neg, const Z & m, long e) { v.neg = neg; mpz_set(v.m, m); v.e = e; }
// round |v| to `p` bits with least exponent q_min in the given mode; returns the rounded integer in m and its exponent in q.
// 'inexact' tells whether anything was lost; `sticky` says that the true value is a little larger than |v|
static void round_to(const V & v, int p, long qmin, int mode, Z & m, long & q, bool & inexact, bool sticky = false)
{
	long nb = nbits(v.m); q = std::max(v.e + nb - p, qmin);
	if (v.e >= q) { mpz_mul_2exp(m, v.m, static_cast<mp_bitcnt_t>(v.e - q)); inexact = sticky; if (sticky && ((mode == FE_UPWARD && !v.neg) || (mode == FE_DOWNWARD && v.neg))) mpz_add_ui(m, m, 1); return; }
	mp_bitcnt_t s = static_cast<mp_bitcnt_t>(q - v.e);
	mpz_fdiv_q_2exp(m, v.m, s);
	bool half = mpz_tstbit(v.m, s - 1), low = sticky || (SGN(v.m) && mpz_scan1(v.m, 0) < s - 1);
	inexact = half || low; bool up = false;
	if (mode == FE_TONEAREST) up = half && (low || mpz_tstbit(m, 0)); else if (mode == FE_UPWARD) up = inexact && !v.neg; else if (mode == FE_DOWNWARD) up = inexact && v.neg;
	if (up) mpz_add_ui(m, m, 1);
}
template <class T> static T to_fp(const V & v, int mode, bool * inexact = nullptr)
{
	static thread_local Z m; long q; bool ix;
	if (SGN(v.m) == 0) { if (inexact) *inexact = false; return v.neg ? -T(0) : T(0); }
	round_to(v, Fp<T>::p, static_cast<long>(Fp<T>::emin) - Fp<T>::p + 1, mode, m, q, ix);
	if (inexact) *inexact = ix;
	if (nbits(m) + q - 1 > Fp<T>::emax)
	{
		if (inexact) *inexact = true;
		bool inf = mode == FE_TONEAREST || (mode == FE_UPWARD && !v.neg) || (mode == FE_DOWNWARD && v.neg);
		T r = inf ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); return v.neg ? -r : r;
	}
	// m fits 64 bits and m*2^q is a value of T
	if (nbits(m) > 64) { mpz_fdiv_q_2exp(m, m, 1); ++q; }
	u64 u = mpz_get_ui(m); T r = static_cast<T>(std::ldexp(static_cast<long double>(u), static_cast<int>(q))); return v.neg ? -r : r;
}
template <class T> static void from_fp(V & v, T x)
{
	v.neg = sgn(x); int e; long double a = x < 0 ? -static_cast<long double>(x) : static_cast<long double>(x);
	if (a == 0) { mpz_set_ui(v.m, 0); v.e = 0; return; }
	long double f = std::frexp(a, &e); u64 u = static_cast<u64>(std::ldexp(f, 64)); mpz_set_ui(v.m, u); v.e = e - 64;
}
template <size_t B> using D = ty::DyadicFloat<B>;
template <size_t B> using M = typename D<B>::mantissa_type;
template <size_t B> constexpr int NWB = static_cast<int>((B + 63) / 64);
template <size_t B> static M<B> getm(const u64 * w) { M<B> m; std::memcpy(m.val.data(), w, B / 8); return m; }
template <class U> static void impu(Z & z, const U & m) { mpz_import(z, m.val.size(), -1, sizeof(m.val[0]), 0, 0, m.val.data()); }
template <class U> static U expu(const Z & z) { static thread_local Z t; mpz_fdiv_r_2exp(t, z, U::BITS); U b; size_t n; mpz_export(b.val.data(), &n, -1, sizeof(b.val[0]), 0, 0, t); return b; }
template <size_t B> static void val(V & v, const D<B> & d) { v.neg = d.sign.is_neg(); impu(v.m, d.mantissa); v.e = d.exponent; }
// three-way comparison of |a| and |b|
static int cmpabs(const V & a, const V & b)
{
	static thread_local Z x, y; if (SGN(a.m) == 0 || SGN(b.m) == 0) return SGN(a.m) - SGN(b.m);
	long e = std::min(a.e, b.e); long ta = a.e + nbits(a.m), tb = b.e + nbits(b.m); if (ta != tb) return ta < tb ? -1 : 1;
	mpz_mul_2exp(x, a.m, static_cast<mp_bitcnt_t>(a.e - e)); mpz_mul_2exp(y, b.m, static_cast<mp_bitcnt_t>(b.e - e)); int c = mpz_cmp(x, y); return c < 0 ? -1 : c > 0;
}
static bool eqv(const V & a, const V & b) { return (SGN(a.m) == 0 && SGN(b.m) == 0) || (a.neg == b.neg && cmpabs(a, b) == 0); }
static void addv(V & r, const V & a, const V & b, int sb = 1)
{
	static thread_local Z x, y; long e = std::min(a.e, b.e); mpz_mul_2exp(x, a.m, static_cast<mp_bitcnt_t>(a.e - e)); mpz_mul_2exp(y, b.m, static_cast<mp_bitcnt_t>(b.e - e));
	if (a.neg) mpz_neg(x, x); if (b.neg != (sb < 0)) mpz_neg(y, y); mpz_add(x, x, y); bool n = SGN(x) < 0; mpz_abs(r.m, x); r.neg = n; r.e = e;
}
static void mulv(V & r, const V & a, const V & b) { bool n = a.neg != b.neg; mpz_mul(r.m, a.m, b.m); r.e = a.e + b.e; r.neg = n; }
static std::string sv(const V & v) { char * s = mpz_get_str(nullptr, 16, v.m); std::string r = (v.neg ? "-0x" : "0x") + std::string(s) + "*2^" + std::to_string(v.e); free(s); return r; }
template <size_t B> static bool normed(const D<B> & d) { return d.mantissa.is_zero() || d.mantissa.get_bit(B - 1); }
template <class X> static X hid(X b) { asm volatile("" : "+m"(b)); return b; }
static int mode_of(u64 w)
{
#ifdef MC_CTMODE
	return CCM_CONSTEXPR_ROUNDING_MODE;
#else
	return RM[w & 3];
#endif
}
// in a forced build the library does not read the hardware mode
struct Env { std::optional<Round> r; explicit Env(int m) { if (!forced_ce) r.emplace(m); } };
#if defined(MC_MODES)
constexpr u64 NM = 4;
#else
constexpr u64 NM = 1;
#endif
template <size_t B> static D<B> getd(const u64 * w, bool neg) { D<B> d; d.sign = neg ? ty::Sign::NEG : ty::Sign::POS; d.exponent = static_cast<int>(static_cast<std::int64_t>(w[0])); d.mantissa = getm<B>(w + 1); return d; }

// ------------------------------------------------------------------ conversions to a floating type
template <size_t B, class T> static bool j_conv(const u64 * w, Rep * r)
{
	static thread_local V v; D<B> d = hid(getd<B>(w + 1, w[0] & 4)); val(v, d); int m = mode_of(w[0]); bool ix;
	T e = to_fp<T>(v, m, &ix); T g1, g2, g3, g4;
	{ Env q(m); g1 = d.template as<T, false>(); g2 = static_cast<T>(d); g3 = d.template generic_as<T, false>(); g4 = d.template fast_as<T, false>(); g1 = keep(g1); g2 = keep(g2); g3 = keep(g3); g4 = keep(g4); }
	if (!same(g3, e)) MC_RET(false, "generic_as " + show(g3), show(e));
#ifdef MC_CTMODE
	e = to_fp<T>(v, FE_TONEAREST, &ix); // the others round with the arithmetic itself: to nearest in constant evaluation
#endif
	if (!same(g1, e)) MC_RET(false, "as " + show(g1), show(e));
	if (!same(g2, e)) MC_RET(false, "cast " + show(g2), show(e));
	if (!same(g4, e)) MC_RET(false, "fast_as " + show(g4), show(e));
#ifndef MC_NOERR
	if (!forced_ce)
	{
		T h1, h2; errno = 0; int e1, e2; { Env q(m); h1 = keep(d.template as<T, true>()); } e1 = errno; errno = 0; { Env q(m); h2 = keep(d.template generic_as<T, true>()); } e2 = errno; errno = 0;
		if (!same(h1, e)) MC_RET(false, "as signalling " + show(h1), show(e));
		if (!same(h2, e)) MC_RET(false, "generic_as signalling " + show(h2), show(e));
		// errno: ERANGE for an infinite result and for an inexact subnormal one, untouched for an exact or normal one
		bool tiny = ix && (e < 0 ? -e : e) < std::numeric_limits<T>::min();
		if (is_inf(e) || tiny) { if ((tiny && e1 != ERANGE) || e2 != ERANGE) MC_RET(false, "errno " + std::to_string(e1) + " " + std::to_string(e2), "ERANGE"); }
		else if (!ix) { if (e1 || e2) MC_RET(false, "errno " + std::to_string(e1) + " " + std::to_string(e2), "0"); }
	}
#endif
	MC_RET(true, show(e), "");
}
template <size_t B> static std::vector<M<B>> & mants(int p)
{
	// every rounding position x last kept bit x round bit x sticky pattern x head
	auto & out = *new std::vector<M<B>>; Z m;
	auto add = [&]() { mpz_setbit(m, B - 1); out.push_back(expu<M<B>>(m)); };
	for (int head = 0; head < 3; ++head)
		for (int r = 0; r < static_cast<int>(B) - 1; ++r)
		{
			if (B > 64 && !(std::abs(static_cast<int>(B) - 1 - p - r) < 4 || r % 3 == 0 || r > static_cast<int>(B) - 6) && !thorough) continue;
			for (int lsb = 0; lsb < 2; ++lsb) for (int rb = 0; rb < 2; ++rb) for (int st = 0; st < 4; ++st)
			{
				mpz_set_ui(m, 0);
				if (head) for (int i = r + 1; i < static_cast<int>(B); ++i) if (head == 1 || (i & 1)) mpz_setbit(m, static_cast<mp_bitcnt_t>(i));
				if (r + 1 < static_cast<int>(B) - 1) { if (lsb) mpz_setbit(m, static_cast<mp_bitcnt_t>(r + 1)); else mpz_clrbit(m, static_cast<mp_bitcnt_t>(r + 1)); }
				if (rb) mpz_setbit(m, static_cast<mp_bitcnt_t>(r));
				if (st == 1 && r > 0) mpz_setbit(m, 0);
				if (st == 2 && r > 0) mpz_setbit(m, static_cast<mp_bitcnt_t>(r - 1));
				if (st == 3) for (int i = 0; i < r; ++i) mpz_setbit(m, static_cast<mp_bitcnt_t>(i));
				add();
			}
		}
	auto lt = [](const M<B> & a, const M<B> & b) { return a.val < b.val; };
	std::sort(out.begin(), out.end(), lt); out.erase(std::unique(out.begin(), out.end(), [](const M<B> & a, const M<B> & b) { return a.val == b.val; }), out.end());
	return out;
}
template <size_t B, class T> static void conv(const char * nm)
{
	static std::vector<M<B>> * ms; ms = &mants<B>(Fp<T>::p);
	static std::vector<long> es; int p = Fp<T>::p, lo = Fp<T>::emin, hi = Fp<T>::emax;
	for (int i = -4; i <= 4; ++i) { es.push_back(lo - p + i); es.push_back(lo + i); es.push_back(hi + i); }
	for (int i = lo - p; i <= lo; i += thorough ? 1 : 3) es.push_back(i);
	for (long i : {0L, 1L, -1L, 20L, -20L, 63L, 64L, -64L, 100L, 2L * lo, 2L * hi, 20000L, -20000L, 40000L, -40000L, 1000000L, -1000000L, 500000000L, -500000000L}) es.push_back(i);
	std::sort(es.begin(), es.end()); es.erase(std::unique(es.begin(), es.end()), es.end());
	explore(nm, 2 + NWB<B>, 4, ms->size() * es.size() * 2 * NM, [](u64 i, u64 * w) {
		u64 md = i % NM; i /= NM; w[0] = md | ((i & 1) << 2); i >>= 1; w[1] = static_cast<u64>(es[i % es.size()] - static_cast<long>(B) + 1); i /= es.size();
		for (int k = 0; k < NWB<B>; ++k) w[2 + k] = 0; std::memcpy(w + 2, (*ms)[i].val.data(), B / 8); }, j_conv<B, T>);
}
// ------------------------------------------------------------------ from a floating type and back
template <size_t B, class T> static bool from_one(T x, Rep * r)
{
	static thread_local V v, e; D<B> d(x); val(v, d); from_fp(e, x);
	if (!eqv(v, e) || v.neg != e.neg || !normed(d)) MC_RET(false, "from " + show(x) + ": " + sv(v), sv(e));
	if (x != 0 && d.get_unbiased_exponent() != std::ilogb(x)) MC_RET(false, "get_unbiased_exponent " + std::to_string(d.get_unbiased_exponent()), std::to_string(std::ilogb(x)));
	if (!same(static_cast<T>(d), x)) MC_RET(false, "round trip " + show(static_cast<T>(d)), show(x));
	D<B> n = -d; if (!same(static_cast<T>(n), -x)) MC_RET(false, "negation " + show(static_cast<T>(n)), show(-x));
	return true;
}
template <class T> static bool j_bits(const u64 * w, Rep * r)
{
	using F = su::fp::FPBits<T>; using S = typename F::storage_type;
	T x = Fp<T>::get(w); F f(hid(x)); constexpr int fl = F::fraction_length;
#define B1(name, got, want) do { auto g_ = (got); auto e_ = (want); if (!(g_ == e_)) MC_RET(false, std::string(name) + " " + std::to_string(static_cast<long long>(g_)), std::to_string(static_cast<long long>(e_))); } while (0)
#define X1(name, got, want) do { T g_ = (got), e_ = (want); if (!same(g_, e_)) MC_RET(false, std::string(name) + " " + show(g_), show(e_)); } while (0)
	bool fin = is_fin(x), nan = is_nan(x), inf = is_inf(x), zero = x == 0, sub = !zero && fin && (x < 0 ? -x : x) < std::numeric_limits<T>::min();
	B1("is_finite", f.is_finite(), fin); B1("is_nan", f.is_nan(), nan); B1("is_inf", f.is_inf(), inf); B1("is_zero", f.is_zero(), zero); B1("is_subnormal", f.is_subnormal(), sub || zero); B1("is_normal", f.is_normal(), fin && !sub && !zero);
	B1("is_inf_or_nan", f.is_inf_or_nan(), !fin); B1("is_neg", f.is_neg(), sgn(x)); B1("is_pos", f.is_pos(), !sgn(x)); B1("is_signaling_nan", f.is_signaling_nan(), is_snan(x)); B1("is_quiet_nan", f.is_quiet_nan(), nan && !is_snan(x));
	// raw bits are compared as bits: a signalling NaN must not be loaded
	auto bits_eq = [&](const F & a) { return a.uintval() == f.uintval(); };
	{ F g; g.set_uintval(f.uintval()); B1("set_uintval", bits_eq(g), true); }
	{ T y = f.get_val(); u64 a[2] = {}, b[2] = {}; put(y, a); put(x, b); if (!is_snan(x)) B1("get_val", a[0] == b[0] && a[1] == b[1], true); }
	{ F g(T(0)); g.set_sign(f.sign()); g.set_biased_exponent(f.get_biased_exponent()); S sig = f.uintval() & F::significand_mask; g.set_significand(sig); B1("set parts", bits_eq(g), true);
	  F h = F::create_value(f.sign(), f.get_biased_exponent(), sig); B1("create_value", bits_eq(h), true);
	  F k(x); k.set_mantissa(S(0)); k.set_mantissa(f.get_mantissa()); B1("set_mantissa", bits_eq(k), true);
	  F o(x); o.set_sign(f.is_neg() ? ty::Sign::POS : ty::Sign::NEG); B1("set_sign", o.is_neg() != f.is_neg() && o.abs() == f.abs(), true); B1("abs", f.abs().is_pos() && (f.is_neg() ? !bits_eq(f.abs()) : bits_eq(f.abs())), true); }
	{ F g = f.next_toward_inf(); if (fin) X1("next_toward_inf", g.get_val(), sgn(x) ? dn(x) : up(x)); else B1("next_toward_inf", bits_eq(g), true); }
	if (fin)
	{
		int ee = zero ? 0 : sub ? Fp<T>::emin : std::ilogb(x); B1("get_explicit_exponent", f.get_explicit_exponent(), ee);
		B1("get_exponent", f.get_exponent(), zero || sub ? -F::exponent_bias : std::ilogb(x));
		long double a = zero ? 0.0L : std::ldexp(static_cast<long double>(x < 0 ? -x : x), fl - ee); u64 em = static_cast<u64>(a); B1("get_explicit_mantissa", static_cast<u64>(f.get_explicit_mantissa()) == em, true);
		if (sizeof(T) <= 8) B1("get_mantissa", static_cast<u64>(f.get_mantissa()) == (em & ((1ull << fl) - 1)), true);
		if (!zero && !sgn(x)) { // the value from an integer and an exponent
			F k = F::make_value(f.get_explicit_mantissa(), ee + F::exponent_bias - 1); X1("make_value", k.get_val(), x); }
		from_one<128, T>(x, r) ; if (!from_one<128, T>(x, r) || !from_one<192, T>(x, r)) return false;
		if constexpr (fl < 63) { if (!from_one<64, T>(x, r)) return false; }
		if (!zero)
		{
			ty::NormalizedFloat<T> n(x); X1("normalized round trip", static_cast<T>(n), x); B1("normalized mantissa", n.mantissa >= ty::NormalizedFloat<T>::ONE && n.mantissa < 2 * ty::NormalizedFloat<T>::ONE, true); B1("normalized exponent", n.exponent, std::ilogb(x));
			for (int k : {0, 1, -1, 2, -2, 10, -10, fl, -fl, fl + 1, -fl - 1, -fl - 2, Fp<T>::emax, Fp<T>::emin, 2 * Fp<T>::emax, 2 * Fp<T>::emin, Fp<T>::emax - ee, Fp<T>::emax - ee + 1, Fp<T>::emin - ee, Fp<T>::emin - ee - 1, Fp<T>::emin - ee - 2, Fp<T>::emin - ee - fl + 1, Fp<T>::emin - ee - fl, Fp<T>::emin - ee - fl - 1, Fp<T>::emin - ee - fl - 2}) { T g = static_cast<T>(n.mul2(k)), e = std::scalbn(x, k); if (!same(g, e)) MC_RET(false, "mul2 " + std::to_string(k) + " " + show(g), show(e)); }
			ty::NormalizedFloat<T> q(f.sign(), Fp<T>::emin, sub ? f.get_explicit_mantissa() : n.mantissa); X1("normalized from parts", static_cast<T>(q), sub ? x : std::scalbn(x, Fp<T>::emin - std::ilogb(x)));
		}
	}
	MC_RET(true, "ok", "");
}
template <class T> static bool j_ncmp(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w), y = Fp<T>::get(w + Fp<T>::nw); ty::NormalizedFloat<T> a(x), b(y); int c = a.cmp(b), e = x < y ? -1 : x > y; c = c < 0 ? -1 : c > 0;
	MC_RET(c == e, std::to_string(c), std::to_string(e));
}
template <class O, class I> static bool j_cast(const u64 * w, Rep * r)
{
	I x = Fp<I>::get(w + 1); int m = mode_of(w[0]); O g, e;
#ifdef MC_CTMODE
	m = FE_TONEAREST;
#endif
 { Env q(m); g = keep(su::fp::cast<O>(hid(x))); }
	{ static thread_local V v; if (is_nan(x) || is_inf(x)) e = static_cast<O>(x); else { from_fp(v, x); e = to_fp<O>(v, m); } }
	if (is_nan(x) && (!is_nan(g) || is_snan(g))) MC_RET(false, show(g), "quiet NaN");
	MC_RET_SAME(g, e);
}
// ------------------------------------------------------------------ arithmetic
template <size_t B> static void bound(V & v, int neg, unsigned ulps, long e) { v.neg = neg; mpz_set_ui(v.m, ulps); v.e = e; }
template <size_t B> static long top(const V & v) { return v.e + nbits(v.m) - 1; }
template <size_t B> static bool j_arith(const u64 * w, Rep * r)
{
	static thread_local V a, b, x, g, d, lim; int m = mode_of(w[0]);
	D<B> p = hid(getd<B>(w + 1, w[0] & 4)), q = hid(getd<B>(w + 2 + NWB<B>, w[0] & 8)); val(a, p); val(b, q);
	bool za = SGN(a.m) == 0, zb = SGN(b.m) == 0; constexpr unsigned WC = M<B>::WORD_COUNT;
	// sums
	for (int s = 1; s >= -1; s -= 2)
	{
		D<B> c = s > 0 ? ty::quick_add(p, q) : ty::quick_sub(p, q); addv(x, a, b, s); val(g, c); const char * nm = s > 0 ? "quick_add " : "quick_sub ";
		if (!normed(c)) MC_RET(false, std::string(nm) + "not normalized " + sv(g), sv(x));
		if (za || zb) { if (!eqv(g, x)) MC_RET(false, nm + sv(g), sv(x)); continue; }
		addv(d, g, x, -1);
		long ta = top<B>(a), tb = top<B>(b), mx = std::max(ta, tb), gap = std::abs(ta - tb); bool same_sign = a.neg == (b.neg != (s < 0));
		// the smaller operand is cut at the last place of the larger one
		const V & sm = ta < tb ? a : b; bool cut = gap >= static_cast<long>(B) || (gap > 0 && mpz_scan1(sm.m, 0) < static_cast<mp_bitcnt_t>(gap));
		if (!cut && (!same_sign || nbits(x.m) + x.e <= mx + 1)) { if (!eqv(g, x)) MC_RET(false, nm + sv(g), sv(x) + " exactly"); continue; }
		long tx = SGN(x.m) ? top<B>(x) : mx; long scale = same_sign || gap > 1 ? tx : mx;
		bound<B>(lim, 0, 1, scale - static_cast<long>(B) + 2); if (cmpabs(d, lim) >= 0) MC_RET(false, nm + sv(g), sv(x));
		if (SGN(g.m) && SGN(x.m) && g.neg != x.neg) MC_RET(false, std::string(nm) + "sign " + sv(g), sv(x));
	}
	// products
	mulv(x, a, b);
	{
		D<B> c = ty::quick_mul(p, q); val(g, c); if (g.neg != x.neg || (!(za || zb) && !normed(c))) MC_RET(false, "quick_mul form " + sv(g), sv(x));
		if (za || zb) { if (SGN(g.m)) MC_RET(false, "quick_mul zero " + sv(g), "0"); }
		else { addv(d, x, g, -1); bound<B>(lim, 0, 2 * WC, top<B>(x) - static_cast<long>(B) + 1); if ((SGN(d.m) && d.neg != x.neg) || cmpabs(d, lim) > 0) MC_RET(false, "quick_mul " + sv(g), sv(x)); }
		D<B> c3 = ty::multiply_add(p, q, p); static thread_local V y; addv(y, x, a); val(g, c3); addv(d, y, g, -1); long sc = std::max(SGN(x.m) ? top<B>(x) : -1000000L, za ? -1000000L : top<B>(a)); bound<B>(lim, 0, 2 * WC + 4, sc - static_cast<long>(B) + 2); if (!(za && zb) && sc > -1000000L && cmpabs(d, lim) > 0) MC_RET(false, "multiply_add " + sv(g), sv(y));
	}
	{
		D<B> c; { Env e(m); c = ty::rounded_mul(p, q); } val(g, c);
		static thread_local V y; static thread_local Z mm; long qe; bool ix; if (za || zb) { if (SGN(g.m) || g.neg != x.neg) MC_RET(false, "rounded_mul zero " + sv(g), "0"); }
		else { round_to(x, B, LONG_MIN / 2, m, mm, qe, ix); set(y, x.neg, mm, qe); if (!eqv(y, g) || !normed(c)) MC_RET(false, "rounded_mul " + sv(g), sv(y)); }
	}
	if (!zb)
	{
		D<B> c; { Env e(m); c = ty::rounded_div(p, q); } val(g, c); static thread_local V y, t; static thread_local Z mm, rem; long qe; bool ix;
		t.neg = a.neg != b.neg; mpz_mul_2exp(t.m, a.m, 2 * B + 8); mpz_tdiv_qr(t.m, rem, t.m, b.m); t.e = a.e - b.e - static_cast<long>(2 * B + 8);
		if (za) { if (SGN(g.m) || g.neg != t.neg) MC_RET(false, "rounded_div zero " + sv(g), "0"); }
		else { round_to(t, B, LONG_MIN / 2, m, mm, qe, ix, SGN(rem) != 0); set(y, t.neg, mm, qe); if (!eqv(y, g) || !normed(c)) MC_RET(false, "rounded_div " + sv(g), sv(y)); }
	}
	MC_RET(true, "ok", "");
}
template <size_t B> static bool j_unary(const u64 * w, Rep * r)
{
	static thread_local V a, g, x, d, lim; int m = mode_of(w[0]); D<B> p = hid(getd<B>(w + 1, w[0] & 4)); val(a, p); constexpr unsigned WC = M<B>::WORD_COUNT;
	for (int k : {0, 1, -1, 17, -400, 5000}) { D<B> c = ty::mul_pow_2(p, k); val(g, c); set(x, a.neg, a.m, a.e + k); if (!eqv(g, x)) MC_RET(false, "mul_pow_2 " + sv(g), sv(x)); }
	{ D<B> c = -p; val(g, c); set(x, !a.neg, a.m, a.e); if (!eqv(g, x) || g.neg == a.neg) MC_RET(false, "negation " + sv(g), sv(x)); }
	// construction normalizes
	for (unsigned s : {1u, 7u, 31u, 63u}) { D<B> c(p.sign, p.exponent + static_cast<int>(s), M<B>(p.mantissa >> s)); val(g, c); static thread_local Z t; mpz_fdiv_q_2exp(t, a.m, s); set(x, a.neg, t, a.e + static_cast<long>(s)); if (!eqv(g, x) || !normed(c)) MC_RET(false, "normalize " + sv(g), sv(x)); }
	// integer part: cut, and rounded in the current mode with the direction reported
	for (int sh = 0; sh <= static_cast<int>(B) + 3; ++sh)
	{
		D<B> c = p; c.exponent = -sh; static thread_local Z t; mpz_fdiv_q_2exp(t, a.m, static_cast<mp_bitcnt_t>(sh)); if (a.neg) mpz_neg(t, t);
		M<B> e = expu<M<B>>(t), gi = c.as_mantissa_type(); if (!(gi == e)) { impu(g.m, gi); g.e = 0; g.neg = 0; MC_RET(false, "as_mantissa_type shift " + std::to_string(sh) + " " + sv(g), "integer part"); }
		int dir = 99; { Env q(m); gi = c.as_mantissa_type_rounded(&dir); }
		mpz_fdiv_q_2exp(t, a.m, static_cast<mp_bitcnt_t>(sh)); bool half = sh > 0 && mpz_tstbit(a.m, static_cast<mp_bitcnt_t>(sh - 1)), low = sh > 1 && SGN(a.m) && mpz_scan1(a.m, 0) < static_cast<mp_bitcnt_t>(sh - 1), ix = half || low, up = m == FE_TONEAREST ? half && (low || mpz_tstbit(t, 0)) : m == FE_UPWARD ? ix && !a.neg : m == FE_DOWNWARD ? ix && a.neg : false;
		if (up) mpz_add_ui(t, t, 1); if (a.neg) mpz_neg(t, t); e = expu<M<B>>(t); int ed = !ix ? 0 : up ? 1 : -1;
		if (!(gi == e) || dir != ed) { impu(g.m, gi); g.e = 0; g.neg = 0; static thread_local V h; impu(h.m, e); h.e = 0; MC_RET(false, "as_mantissa_type_rounded shift " + std::to_string(sh) + " " + sv(g) + " direction " + std::to_string(dir), sv(h) + " " + std::to_string(ed)); }
	}
	if (SGN(a.m))
	{
		for (unsigned n : {0u, 1u, 2u, 3u, 5u, 8u, 31u, 64u})
		{
			D<B> c = ty::pow_n(p, n); val(g, c); mpz_pow_ui(x.m, a.m, n); x.e = a.e * static_cast<long>(n); x.neg = a.neg && (n & 1); addv(d, x, g, -1); bound<B>(lim, 0, 2 * WC * (2 * n + 2), top<B>(x) - static_cast<long>(B) + 1);
			if (g.neg != x.neg || cmpabs(d, lim) > 0) MC_RET(false, "pow_n " + std::to_string(n) + " " + sv(g), sv(x));
		}
		if (!a.neg)
		{
			D<B> c = ty::approx_reciprocal(p); val(g, c); mulv(x, a, g); static thread_local V one; mpz_set_ui(one.m, 1); one.e = 0; one.neg = 0; addv(d, x, one, -1); bound<B>(lim, 0, 1, -static_cast<long>(B) + MC_RSLACK); if (cmpabs(d, lim) > 0) MC_RET(false, "approx_reciprocal " + sv(g) + " off " + sv(d), "relative error");
		}
	}
	MC_RET(true, "ok", "");
}
template <size_t B> static void arith(const char * n1, const char * n2)
{
	// mantissas: zero, heads x tails
	static std::vector<M<B>> ms; Z m; auto add = [&](bool norm = true) { if (norm) mpz_setbit(m, B - 1); ms.push_back(expu<M<B>>(m)); };
	mpz_set_ui(m, 0); add(false);
	std::vector<int> pos{0, 1, 2, 31, 32, 33, 62, 63, static_cast<int>(B) / 2 - 1, static_cast<int>(B) / 2, static_cast<int>(B) - 3, static_cast<int>(B) - 2};
	for (int h = 0; h < 3; ++h)
	{
		auto base = [&] { mpz_set_ui(m, 0); if (h) for (size_t i = 0; i < B; ++i) if (h == 1 || i % 2) mpz_setbit(m, i); };
		base(); add(); for (int x : pos) { base(); mpz_combit(m, static_cast<mp_bitcnt_t>(x)); add(); } base(); mpz_combit(m, 0); mpz_combit(m, 1); add(); base(); mpz_combit(m, 0); mpz_combit(m, B / 2); add();
		for (size_t x : {B / 3, B / 2, B - 12}) { base(); for (size_t i = 0; i < x; ++i) mpz_clrbit(m, i); add(); base(); for (size_t i = 0; i < x; ++i) mpz_setbit(m, i); add(); mpz_clrbit(m, x - 1); add(); }
	}
	static std::vector<long> gaps; for (long g = -3; g <= 3; ++g) gaps.push_back(g);
	for (long g : {static_cast<long>(B) / 2, static_cast<long>(B) - 2, static_cast<long>(B) - 1, static_cast<long>(B), static_cast<long>(B) + 1, 31L, 33L, 400L, 2000L}) { gaps.push_back(g); gaps.push_back(-g); }
	explore(n1, 3 + 2 * NWB<B>, 8, ms.size() * ms.size() * gaps.size() * 4 * NM, [](u64 i, u64 * w) {
		u64 md = i % NM; i /= NM; w[0] = md | ((i & 3) << 2); i >>= 2; long gap = gaps[i % gaps.size()]; i /= gaps.size(); std::memset(w + 1, 0, sizeof(u64) * (2 + 2 * NWB<B>));
		w[1] = static_cast<u64>(-100L); std::memcpy(w + 2, ms[i % ms.size()].val.data(), B / 8); i /= ms.size(); w[2 + NWB<B>] = static_cast<u64>(-100L + gap); std::memcpy(w + 3 + NWB<B>, ms[i].val.data(), B / 8); }, j_arith<B>);
	static std::vector<M<B>> * mu; mu = &mants<B>(24);
	explore(n2, 2 + NWB<B>, static_cast<int>(2 * B), mu->size() * 2 * NM, [](u64 i, u64 * w) { u64 md = i % NM; i /= NM; w[0] = md | ((i & 1) << 2); i >>= 1; w[1] = static_cast<u64>(-static_cast<long>(B) + 1); std::memset(w + 2, 0, 8 * NWB<B>); std::memcpy(w + 2, (*mu)[i].val.data(), B / 8); }, j_unary<B>);
}
// ------------------------------------------------------------------ double-double error-free transforms
static bool j_dd(const u64 * w, Rep * r)
{
	static thread_local V a, b, s, h, l, g; double x = f64(w[0]), y = f64(w[1]); from_fp(a, x); from_fp(b, y);
	auto sum = [&](const ty::DoubleDouble & q) { from_fp(h, q.hi); from_fp(l, q.lo); addv(g, h, l); };
	double p = hid(x), q = hid(y);
	if (std::fabs(x) >= std::fabs(y)) { auto t = ty::exact_add(p, q); sum(t); addv(s, a, b); if (!eqv(g, s) || !same(t.hi, keep(p + q))) MC_RET(false, "exact_add " + sv(g), sv(s)); }
	{ auto t = ty::exact_mult(p, q); sum(t); mulv(s, a, b); if (!eqv(g, s) || !same(t.hi, keep(p * q))) MC_RET(false, "exact_mult " + sv(g), sv(s)); }
	{ auto t = ty::split(p); sum(t); if (!eqv(g, a)) MC_RET(false, "split " + sv(g), sv(a)); }
	{ double z = hid(x * 0x1p-54); ty::DoubleDouble u{p, z}, v{q, hid(y * -0x1p-55)}; V e, f, k; from_fp(e, u.hi); from_fp(f, u.lo); addv(k, e, f); V kb; from_fp(e, v.hi); from_fp(f, v.lo); addv(kb, e, f); auto t = ty::quick_mult(u, v); sum(t); mulv(s, k, kb); V d, lim; addv(d, g, s, -1); mpz_set_ui(lim.m, 1); lim.e = top<64>(s) - 99; if (cmpabs(d, lim) > 0) MC_RET(false, "quick_mult " + sv(g), sv(s));
	  auto t2 = ty::quick_mult(p, v); sum(t2); mulv(s, a, kb); addv(d, g, s, -1); lim.e = top<64>(s) - 99; if (cmpabs(d, lim) > 0) MC_RET(false, "quick_mult(double) " + sv(g), sv(s));
	  if (std::fabs(x) >= std::fabs(y) && sgn(x) == sgn(y)) { auto t3 = ty::add(u, v); sum(t3); addv(s, k, kb); addv(d, g, s, -1); lim.e = top<64>(s) - 99; if (cmpabs(d, lim) > 0) MC_RET(false, "add " + sv(g), sv(s)); auto t4 = ty::add(u, q); sum(t4); addv(s, k, b); addv(d, g, s, -1); lim.e = top<64>(s) - 99; if (cmpabs(d, lim) > 0) MC_RET(false, "add double " + sv(g), sv(s)); } }
	MC_RET(true, "ok", "");
}
template <class T> static bool j_consts(const u64 *, Rep * r)
{
	using F = su::fp::FPBits<T>; using L = std::numeric_limits<T>;
	X1("zero", F::zero().get_val(), T(0)); X1("-zero", F::zero(ty::Sign::NEG).get_val(), -T(0)); X1("one", F::one().get_val(), T(1)); X1("-one", F::one(ty::Sign::NEG).get_val(), T(-1)); X1("inf", F::inf().get_val(), L::infinity()); X1("-inf", F::inf(ty::Sign::NEG).get_val(), -L::infinity());
	X1("min_subnormal", F::min_subnormal().get_val(), L::denorm_min()); X1("-min_subnormal", F::min_subnormal(ty::Sign::NEG).get_val(), -L::denorm_min()); X1("max_subnormal", F::max_subnormal().get_val(), dn(L::min())); X1("min_normal", F::min_normal().get_val(), L::min()); X1("max_normal", F::max_normal().get_val(), L::max()); X1("-max_normal", F::max_normal(ty::Sign::NEG).get_val(), -L::max());
	B1("quiet_nan", F::quiet_nan().is_quiet_nan(), true); B1("signaling_nan", F::signaling_nan().is_signaling_nan(), true); B1("-quiet_nan", F::quiet_nan(ty::Sign::NEG).is_neg() && F::quiet_nan(ty::Sign::NEG).is_quiet_nan(), true); B1("payload", static_cast<u64>(F::quiet_nan(ty::Sign::POS, 5).get_mantissa()) & 0xff, 5); B1("payload", static_cast<u64>(F::signaling_nan(ty::Sign::POS, 5).get_mantissa()) & 0xff, 5);
	MC_RET(true, "ok", "");
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
#ifdef MC_P1
	conv<64, float>("64 to float"); conv<64, double>("64 to double"); conv<128, float>("128 to float"); conv<128, double>("128 to double"); conv<128, long double>("128 to long double"); conv<192, double>("192 to double"); conv<96, float>("96 to float");
	conv<96, double>("96 to double"); conv<192, long double>("192 to long double"); conv<256, double>("256 to double"); conv<256, long double>("256 to long double"); conv<64, long double>("64 to long double");
	static std::vector<double> xd = alphabet<double>(thorough ? 2 : 8); static std::vector<long double> xl = alphabet<long double>(thorough ? 31 : 160);
	explore("cast double to float", 2, 1, xd.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; put(xd[i / NM], w + 1); }, j_cast<float, double>);
	explore("cast long double to float", 3, 1, xl.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; put(xl[i / NM], w + 1); }, j_cast<float, long double>);
	explore("cast long double to double", 3, 1, xl.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; put(xl[i / NM], w + 1); }, j_cast<double, long double>);
#endif
#ifdef MC_P2
	arith<64>("arithmetic 64", "unary 64"); arith<96>("arithmetic 96", "unary 96"); arith<128>("arithmetic 128", "unary 128"); arith<192>("arithmetic 192", "unary 192"); arith<256>("arithmetic 256", "unary 256");
#endif
#ifdef MC_P3
	static u64 st = thorough ? 11 : 911; explore("bits float", 1, 40, (1ull << 32) / st, [](u64 i, u64 * w) { w[0] = i * st; }, j_bits<float>);
	static std::vector<double> xd = alphabet<double>(thorough ? 1 : 4); static std::vector<long double> xl = alphabet<long double>(thorough ? 7 : 60); static std::vector<float> xf = alphabet<float>(1);
	explore("bits float alphabet", 1, 40, xf.size(), gen1(xf), j_bits<float>); explore("bits double", 1, 40, xd.size(), gen1(xd), j_bits<double>); explore("bits long double", 2, 40, xl.size(), gen1(xl), j_bits<long double>);
	static std::vector<double> cd; for (double x : alphabet<double>(60, false)) if (x != 0 && is_fin(x)) cd.push_back(x); static std::vector<long double> cl; for (long double x : alphabet<long double>(900, false)) if (x != 0 && is_fin(x)) cl.push_back(x);
	explore("normalized cmp double", 2, 1, cd.size() * cd.size(), gen2(cd, cd), j_ncmp<double>); explore("normalized cmp long double", 4, 1, cl.size() * cl.size(), gen2(cl, cl), j_ncmp<long double>);
	explore("constants float", 1, 20, 1, [](u64, u64 * w) { w[0] = 0; }, j_consts<float>); explore("constants double", 1, 20, 1, [](u64, u64 * w) { w[0] = 0; }, j_consts<double>); explore("constants long double", 1, 20, 1, [](u64, u64 * w) { w[0] = 0; }, j_consts<long double>);
	static std::vector<double> dd; for (double m : {1.0, 1.5, 1.0 + 0x1p-52, 2.0 - 0x1p-52, 1.0 + 0x1p-26, 1.0 + 0x1p-27, 2.0 - 0x1p-26, 2.0 - 0x1p-27, 4.0 / 3, 1.1, 1.7777, 1.0 + 0x1p-26 + 0x1p-52, 1.5 + 0x1p-27, 1.25 - 0x1p-51, 1.9, 1.3}) for (int e : {0, 1, -1, 2, -3, 26, -26, 27, -27, 52, -52, 53, -53, 54, 60, -60, 100, -100, 300, -300, 400, -380}) { dd.push_back(std::ldexp(m, e)); dd.push_back(-std::ldexp(m, e)); }
	explore("double-double", 2, 7, dd.size() * dd.size(), gen2(dd, dd), j_dd);
#endif
}
