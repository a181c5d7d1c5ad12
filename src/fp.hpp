// Floating-point helpers: raw bits, alphabets, enumeration grids, ulp judgement.
#pragma once
#include "mc.hpp"
namespace mc
{
	template <class To, class From> inline To raw(const From & f) { static_assert(sizeof(To) == sizeof(From)); To t; std::memcpy(&t, &f, sizeof t); return t; }
	inline float f32(u64 b) { return raw<float>(static_cast<u32>(b)); }
	inline double f64(u64 b) { return raw<double>(b); }
	inline long double f80(const u64 * w) { long double r = 0; unsigned char b[sizeof(long double)] = {}; std::memcpy(b, &w[0], 8); std::uint16_t se = static_cast<std::uint16_t>(w[1]); std::memcpy(b + 8, &se, 2); std::memcpy(&r, b, sizeof r); return r; }
	inline void put(float x, u64 * w) { w[0] = raw<u32>(x); }
	inline void put(double x, u64 * w) { w[0] = raw<u64>(x); }
	inline void put(long double x, u64 * w) { unsigned char b[sizeof(long double)] = {}; std::memcpy(b, &x, 10); std::memcpy(&w[0], b, 8); std::uint16_t se; std::memcpy(&se, b + 8, 2); w[1] = se; }
	template <class T> struct Fp;
	template <> struct Fp<float> { static constexpr int nw = 1, p = 24, emin = -126, emax = 127; using R = double; static float get(const u64 * w) { return f32(w[0]); } static constexpr const char * name = "f32"; };
	template <> struct Fp<double> { static constexpr int nw = 1, p = 53, emin = -1022, emax = 1023; using R = long double; static double get(const u64 * w) { return f64(w[0]); } static constexpr const char * name = "f64"; };
	template <> struct Fp<long double> { static constexpr int nw = 2, p = 64, emin = -16382, emax = 16383; using R = long double; static long double get(const u64 * w) { return f80(w); } static constexpr const char * name = "f80"; };
	// same bits; NaNs equal as a class
	template <class T> inline bool is_nan(T x) { u64 w[2]; put(x, w); if constexpr (std::is_same_v<T, float>) return (w[0] & 0x7fffffffu) > 0x7f800000u; else if constexpr (std::is_same_v<T, double>) return (w[0] & ~(1ull << 63)) > 0x7ff0000000000000ull; else return (w[1] & 0x7fff) == 0x7fff && (w[0] << 1) != 0; }
	template <class T> inline bool is_inf(T x) { u64 w[2]; put(x, w); if constexpr (std::is_same_v<T, float>) return (w[0] & 0x7fffffffu) == 0x7f800000u; else if constexpr (std::is_same_v<T, double>) return (w[0] & ~(1ull << 63)) == 0x7ff0000000000000ull; else return (w[1] & 0x7fff) == 0x7fff && (w[0] << 1) == 0; }
	template <class T> inline bool is_snan(T x) { u64 w[2]; put(x, w); if (!is_nan(x)) return false; if constexpr (std::is_same_v<T, float>) return !(w[0] & 0x400000u); else if constexpr (std::is_same_v<T, double>) return !(w[0] & 0x8000000000000ull); else return !(w[0] & 0x4000000000000000ull); }
	template <class T> inline bool is_fin(T x) { return !is_nan(x) && !is_inf(x); }
	template <class T> inline bool sgn(T x) { u64 w[2]; put(x, w); if constexpr (std::is_same_v<T, float>) return w[0] >> 31; else if constexpr (std::is_same_v<T, double>) return w[0] >> 63; else return (w[1] >> 15) & 1; }
	template <class T> inline bool same(T a, T b) { u64 x[2] = {}, y[2] = {}; put(a, x); put(b, y); if (is_nan(a) && is_nan(b)) return true; if constexpr (std::is_same_v<T, long double>) return x[0] == y[0] && x[1] == y[1]; else return x[0] == y[0]; }
	template <class T> inline u64 obs_bits(T a) { u64 x[2] = {}; put(a, x); if (is_nan(a)) return 0x7ff8dead00000000ull; if constexpr (std::is_same_v<T, long double>) return fnv(x[0], x[1]); else return x[0]; }
	template <class T> inline std::string show(T x)
	{
		char b[96];
		if constexpr (std::is_floating_point_v<T>) { u64 w[2] = {}; put(x, w); if constexpr (std::is_same_v<T, long double>) std::snprintf(b, 96, "%La[%" PRIx64 ":%" PRIx64 "]", x, w[1], w[0]); else std::snprintf(b, 96, "%a[%" PRIx64 "]", static_cast<double>(x), w[0]); }
		else if constexpr (std::is_signed_v<T>) std::snprintf(b, 96, "%lld", static_cast<long long>(x));
		else std::snprintf(b, 96, "%llu", static_cast<unsigned long long>(x));
		return b;
	}
	// The operand seen by the library: through a volatile so that nothing is folded or hoisted.
	template <class T> inline T hide(T x) { volatile T v = x; return v; }
	template <class T> inline T keep(T x) { asm volatile("" : : "m"(x) : "memory"); return x; }

	template <class T> inline T ulp_of(T /*tag*/, long double r)
	{ // spacing of T at the magnitude of r
		using F = Fp<T>;
		long double a = r < 0 ? -r : r;
		int e = F::emin;
		if (a != 0 && a <= LDBL_MAX) { int k; (void)std::frexp(a, &k); e = std::max(F::emin, std::min(F::emax, k - 1)); }
		else if (a != 0) e = F::emax;
		return static_cast<T>(std::ldexp(1.0L, e - (F::p - 1)));
	}
	// |got - ref| <= bound ulp, with the special values of ref carried over
	template <class T> inline bool within(T got, typename Fp<T>::R ref, double bound)
	{
		using R = typename Fp<T>::R;
		if (is_nan(ref)) return is_nan(got);
		if (is_nan(got)) return false;
		if (ref == 0) return got == 0 && sgn(got) == sgn(ref);
		if (sgn(got) != sgn(ref)) return false;
		if (is_inf(ref)) return is_inf(got);
		R a = ref < 0 ? -ref : ref;
		R u;
		if constexpr (std::is_same_v<T, float>)
		{ // fast exponent extraction
			u64 b = raw<u64>(a); int e = static_cast<int>(b >> 52) - 1023; if (e < -126) e = -126; if (e > 127) e = 127;
			u = raw<double>(static_cast<u64>(e - 23 + 1023) << 52);
		}
		else if constexpr (std::is_same_v<T, double>)
		{
			u64 w[2]; put(a, w); int e = static_cast<int>(w[1] & 0x7fff) - 16383; if (e < -1022) e = -1022; if (e > 1023) e = 1023;
			u64 q[2] = {0x8000000000000000ull, static_cast<u64>(e - 52 + 16383)}; u = f80(q);
		}
		else u = static_cast<R>(ulp_of(T{}, static_cast<long double>(ref)));
		R big = static_cast<R>(std::numeric_limits<T>::max());
		if (is_inf(got)) return a > big - static_cast<R>(bound) * u;
		R g = static_cast<R>(got); if (g < 0) g = -g;
		if (a > big + (static_cast<R>(bound) + 1) * u) return false;
		R d = g > a ? g - a : a - g;
		return d <= static_cast<R>(bound) * u;
	}

	// ---------------------------------------------------------------- grids
	// sign x exponent x top-k mantissa bits x low-bit patterns; exponents optionally restricted to [elo,ehi] (biased)
	template <class T> struct Grid;
	template <> struct Grid<double>
	{
		int k; u64 elo, ehi; bool neg; std::vector<u64> low; u64 nlow, ne, ns;
		explicit Grid(int k_, u64 elo_ = 0, u64 ehi_ = 2047, bool neg_ = true, int nl = 6) : k(k_), elo(elo_), ehi(ehi_), neg(neg_)
		{
			u64 m = (1ull << (52 - k)) - 1;
			for (u64 v : {0ull, 1ull, (1ull << (51 - k)), (unsigned long long)m, 0x5555555555555ull & m, (1ull << (51 - k)) - 1, 0x2545f4914f6cdull & m, 0xaaaaaaaaaaaaaull & m}) if (static_cast<int>(low.size()) < nl && std::find(low.begin(), low.end(), v) == low.end()) low.push_back(v);
			nlow = low.size(); ne = ehi - elo + 1; ns = neg ? 2 : 1;
		}
		u64 n() const { return ns * ne * (1ull << k) * nlow; }
		u64 bits(u64 i) const { u64 l = i % nlow; i /= nlow; u64 m = i & ((1ull << k) - 1); i >>= k; u64 e = i % ne; i /= ne; return (i << 63) | ((elo + e) << 52) | (m << (52 - k)) | low[l]; }
		void operator()(u64 i, u64 * w) const { w[0] = bits(i); }
	};
	template <> struct Grid<float>
	{ // k >= 23 means every float
		int k; u64 elo, ehi; bool neg; std::vector<u64> low; u64 nlow, ne, ns;
		explicit Grid(int k_, u64 elo_ = 0, u64 ehi_ = 255, bool neg_ = true, int nl = 4) : k(std::min(k_, 23)), elo(elo_), ehi(ehi_), neg(neg_)
		{
			if (k == 23) low.push_back(0);
			else { u64 m = (1ull << (23 - k)) - 1; for (u64 v : {u64(0), u64(1), m, u64(1ull << (22 - k)), u64(0x2a5a5a) & m}) if (static_cast<int>(low.size()) < nl && std::find(low.begin(), low.end(), v) == low.end()) low.push_back(v); }
			nlow = low.size(); ne = ehi - elo + 1; ns = neg ? 2 : 1;
		}
		u64 n() const { return ns * ne * (1ull << k) * nlow; }
		u64 bits(u64 i) const { u64 l = i % nlow; i /= nlow; u64 m = i & ((1ull << k) - 1); i >>= k; u64 e = i % ne; i /= ne; return (i << 31) | ((elo + e) << 23) | (m << (23 - k)) | low[l]; }
		void operator()(u64 i, u64 * w) const { w[0] = bits(i); }
	};
	template <> struct Grid<long double>
	{
		int k; u64 elo, ehi; bool neg; std::vector<u64> low; u64 nlow, ne, ns;
		explicit Grid(int k_, u64 elo_ = 0, u64 ehi_ = 32767, bool neg_ = true, int nl = 4) : k(k_), elo(elo_), ehi(ehi_), neg(neg_)
		{
			u64 m = (1ull << (63 - k)) - 1;
			for (u64 v : {u64(0), u64(1), m, u64(1ull << (62 - k)), u64(0x1545f4914f6cd1d5ull & m)}) if (static_cast<int>(low.size()) < nl && std::find(low.begin(), low.end(), v) == low.end()) low.push_back(v);
			nlow = low.size(); ne = ehi - elo + 1; ns = neg ? 2 : 1;
		}
		u64 n() const { return ns * ne * (1ull << k) * nlow; }
		void operator()(u64 i, u64 * w) const
		{
			u64 l = i % nlow; i /= nlow; u64 m = i & ((1ull << k) - 1); i >>= k; u64 e = elo + i % ne; i /= ne;
			w[0] = (e ? 1ull << 63 : 0) | (m << (63 - k)) | low[l]; w[1] = (i << 15) | e;
		}
	};
	inline void all_f32(u64 i, u64 * w) { w[0] = i; }
	constexpr u64 N32 = 1ull << 32;

	// ---------------------------------------------------------------- alphabets
	template <class T> inline void uniq(std::vector<T> & v)
	{ // bitwise unique, stable
		std::vector<T> r;
		auto key = [](T x) { u64 w[2] = {}; put(x, w); return std::pair<u64, u64>(w[0], w[1]); };
		std::vector<std::pair<std::pair<u64, u64>, size_t>> k;
		for (size_t i = 0; i < v.size(); ++i) k.push_back({key(v[i]), i});
		std::sort(k.begin(), k.end());
		std::vector<char> keepv(v.size(), 0);
		for (size_t i = 0; i < k.size(); ++i) if (i == 0 || k[i].first != k[i - 1].first) keepv[k[i].second] = 1;
		for (size_t i = 0; i < v.size(); ++i) if (keepv[i]) r.push_back(v[i]);
		v = r;
	}
	template <class T> inline T from_words(u64 a, u64 b) { u64 w[2] = {a, b}; return Fp<T>::get(w); }
	template <class T> inline T snan_of() { if constexpr (std::is_same_v<T, float>) return f32(0x7f800001u); else if constexpr (std::is_same_v<T, double>) return f64(0x7ff0000000000001ull); else return from_words<T>(0x8000000000000001ull, 0x7fff); }
	template <class T> inline T dn(T x) { return std::nextafter(x, -std::numeric_limits<T>::infinity()); }
	template <class T> inline T up(T x) { return std::nextafter(x, std::numeric_limits<T>::infinity()); }
	// special values (both signs)
	template <class T> inline std::vector<T> specials(bool nans = true)
	{
		using L = std::numeric_limits<T>;
		std::vector<T> v;
		auto a = [&](T x) { v.push_back(x); v.push_back(-x); };
		a(0); a(1); a(T(0.5)); a(2); a(3); a(L::infinity());
		if (nans) { v.push_back(L::quiet_NaN()); v.push_back(-L::quiet_NaN()); }
		a(L::denorm_min()); a(2 * L::denorm_min()); a(3 * L::denorm_min()); a(dn(L::min())); a(L::min()); a(up(L::min())); a(2 * L::min()); a(dn(2 * L::min()));
		a(L::max()); a(dn(L::max())); a(L::max() / 2); a(up(L::max() / 2)); a(dn(T(1))); a(up(T(1))); a(dn(T(2))); a(up(T(2))); a(dn(T(0.5))); a(up(T(0.5)));
		a(T(1.5)); a(dn(T(1.5))); a(up(T(1.5))); a(T(2.5)); a(T(0.25)); a(T(0.75)); a(T(10)); a(T(0.1L)); a(T(3.14159265358979323846L)); a(T(1.57079632679489661923L)); a(T(0.785398163397448309616L)); a(T(2.71828182845904523536L));
		a(std::ldexp(T(1), Fp<T>::p)); a(std::ldexp(T(1), Fp<T>::p - 1)); a(std::ldexp(T(1), Fp<T>::p - 1) - T(0.5)); a(std::ldexp(T(1), Fp<T>::p) - 1); a(std::ldexp(T(1), Fp<T>::p - 2) + T(0.5)); a(L::epsilon()); a(L::epsilon() / 2); a(L::epsilon() * L::min());
		a(T(100)); a(T(1e10L)); a(T(1e30L)); a(T(1e-30L)); a(T(4)); a(T(5)); a(T(7)); a(T(1.0L / 3)); a(T(2.0L / 3)); a(T(123.456L));
		uniq(v);
		return v;
	}
	// specials plus powers of two with neighbours every `estep` exponents and a few mantissa patterns
	template <class T> inline std::vector<T> alphabet(int estep, bool nans = true, bool neg = true)
	{
		std::vector<T> v = specials<T>(nans);
		int lo = Fp<T>::emin - Fp<T>::p + 1;
		for (int e = lo; e <= Fp<T>::emax; e += estep)
		{
			T p2 = std::ldexp(T(1), e);
			for (T x : {p2, up(p2), dn(p2), T(p2 * T(1.5)), T(p2 * T(1.1L)), T(p2 * T(1.9L))}) { if (!is_fin(x)) continue; v.push_back(x); if (neg) v.push_back(-x); }
		}
		uniq(v);
		return v;
	}
	template <class T> inline std::vector<T> ints_alphabet()
	{
		std::vector<T> v;
		using L = std::numeric_limits<T>;
		auto a = [&](T x) { if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
		for (int i = 0; i <= 20; ++i) { a(static_cast<T>(i)); if (std::is_signed_v<T>) a(static_cast<T>(-i)); }
		for (int b = 0; b < L::digits; ++b) { T p = static_cast<T>(T(1) << b); a(p); a(static_cast<T>(p - 1)); a(static_cast<T>(p + 1)); if (std::is_signed_v<T>) { a(static_cast<T>(-p)); a(static_cast<T>(-p - 1)); a(static_cast<T>(-p + 1)); } }
		a(L::max()); a(static_cast<T>(L::max() - 1)); a(L::min()); a(static_cast<T>(L::min() + 1)); a(static_cast<T>(100)); a(static_cast<T>(127));
		return v;
	}
	// generators over alphabets held by shared vectors
	template <class T> inline auto gen1(const std::vector<T> & v) { return [&v](u64 i, u64 * w) { put(v[i], w); }; }
	template <class A, class B> inline auto gen2(const std::vector<A> & a, const std::vector<B> & b) { u64 nb = b.size(); return [&a, &b, nb](u64 i, u64 * w) { put(a[i / nb], w); put(b[i % nb], w + Fp<A>::nw); }; }
	template <class A, class B, class C> inline auto gen3(const std::vector<A> & a, const std::vector<B> & b, const std::vector<C> & c) { u64 nb = b.size(), nc = c.size(); return [&a, &b, &c, nb, nc](u64 i, u64 * w) { put(a[i / nc / nb], w); put(b[i / nc % nb], w + Fp<A>::nw); put(c[i % nc], w + Fp<A>::nw + Fp<B>::nw); }; }

	inline const char * cat2(const char * a, const char * b) { return (new std::string(std::string(a) + " " + b))->c_str(); }
	inline bool put_rep(Rep * r, bool ok, const std::string & g, const std::string & w) { if (r) { r->got = g; r->want = w; } return ok; }
#define MC_RET(ok, g, w) do { bool ok_ = (ok); if (r) { r->got = (g); r->want = (w); } return ok_; } while (0)
#define MC_RET_SAME(g, w) do { auto g_ = (g); decltype(g_) w_ = (w); bool ok_ = ::mc::same(g_, w_); if (r) { r->got = ::mc::show(g_); r->want = ::mc::show(w_); } return ok_; } while (0)
	inline const int RM[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	struct Round { int old; explicit Round(int m) : old(std::fegetround()) { if (m != old) std::fesetround(m); } ~Round() { std::fesetround(old); } };
} // namespace mc
