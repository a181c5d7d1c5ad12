// One table of every public floating-point function for every floating type, for the checks that quantify over all of
// them.  A call observes the returned value (and every output parameter) as a 64-bit digest.
#pragma once
#include "lib.hpp"
namespace mc
{
	enum Cls : unsigned { EXACT = 1, APPROX = 2, SILENT = 4, NANSIGN = 8 };
	struct Ent { const char * nm; char ty; int ar; unsigned cls; u64 (*fn)(const u64 *); int nw; };
	template <class R> inline u64 obsv(R r) { if constexpr (std::is_floating_point_v<R>) return obs_bits(r); else return static_cast<u64>(static_cast<long long>(r)); }
#define FN1(N) struct f_##N { template <class T> static u64 c(T x) { return obsv(keep(ccm::N(x))); } };
#define FN2(N) struct f_##N { template <class T> static u64 c(T x, T y) { return obsv(keep(ccm::N(x, y))); } };
#define FN3(N) struct f_##N { template <class T> static u64 c(T x, T y, T z) { return obsv(keep(ccm::N(x, y, z))); } };
	FN1(abs) FN1(fabs) FN1(floor) FN1(ceil) FN1(trunc) FN1(round) FN1(rint) FN1(nearbyint) FN1(fpclassify) FN1(isnan) FN1(isinf) FN1(isfinite) FN1(isnormal) FN1(signbit)
	FN1(logb) FN1(ilogb) FN1(nextup) FN1(nextdown) FN1(exp) FN1(exp2) FN1(expm1) FN1(log) FN1(log2) FN1(log10) FN1(log1p) FN1(sin) FN1(cos) FN1(tan) FN1(asin) FN1(acos) FN1(atan) FN1(cbrt) FN1(sqrt) FN1(tgamma) FN1(gamma) FN1(lgamma)
	FN2(fmin) FN2(fmax) FN2(min) FN2(max) FN2(fdim) FN2(copysign) FN2(fmod) FN2(remainder) FN2(nextafter) FN2(isless) FN2(islessequal) FN2(isgreater) FN2(isgreaterequal) FN2(islessgreater) FN2(isunordered) FN2(atan2) FN2(pow) FN2(hypot)
	FN3(fma) FN3(lerp)
	struct f_hypot3 { template <class T> static u64 c(T x, T y, T z) { return obsv(keep(ccm::hypot(x, y, z))); } };
	struct f_frexp { template <class T> static u64 c(T x) { int e = 77; T m = keep(ccm::frexp(x, &e)); return fnv(obs_bits(m), is_fin(x) ? static_cast<u64>(e) : 0); } };
	struct f_modf { template <class T> static u64 c(T x) { T i = 0; T m = keep(ccm::modf(x, &i)); return fnv(obs_bits(m), obs_bits(i)); } };
	struct f_remquo { template <class T> static u64 c(T x, T y) { int q = 0; T m = keep(ccm::remquo(x, y, &q)); return fnv(obs_bits(m), is_nan(m) ? 0 : static_cast<u64>((q < 0 ? -q : q) & 7) * 2 + (q < 0)); } };
	struct f_nexttoward { template <class T> static u64 c(T x, T y) { return obsv(keep(ccm::nexttoward(x, static_cast<long double>(y)))); } };
	// the integer operand of the scaling functions is derived from the second floating operand's table index
	template <class T> inline int toint(T y) { if (is_nan(y)) return INT_MIN; if (y > T(2000000000)) return INT_MAX; if (y < T(-2000000000)) return INT_MIN; return static_cast<int>(y); }
	struct f_ldexp { template <class T> static u64 c(T x, T y) { return obsv(keep(ccm::ldexp(x, hide(toint(y))))); } };
	struct f_scalbn { template <class T> static u64 c(T x, T y) { return obsv(keep(ccm::scalbn(x, hide(toint(y))))); } };
	struct f_scalbln { template <class T> static u64 c(T x, T y) { return obsv(keep(ccm::scalbln(x, hide(static_cast<long>(toint(y)) * 4)))); } };
	template <class F, class T> inline u64 call1(const u64 * w) { return F::template c<T>(hide(Fp<T>::get(w))); }
	template <class F, class T> inline u64 call2(const u64 * w) { return F::template c<T>(hide(Fp<T>::get(w)), hide(Fp<T>::get(w + Fp<T>::nw))); }
	template <class F, class T> inline u64 call3(const u64 * w) { return F::template c<T>(hide(Fp<T>::get(w)), hide(Fp<T>::get(w + Fp<T>::nw)), hide(Fp<T>::get(w + 2 * Fp<T>::nw))); }
	template <class T> constexpr char tych() { return std::is_same_v<T, float> ? 'f' : std::is_same_v<T, double> ? 'd' : 'l'; }
	template <class F> inline void add(std::vector<Ent> & v, const char * nm, int ar, unsigned cls)
	{
		if (ar == 1) { v.push_back({nm, 'f', 1, cls, call1<F, float>, 1}); v.push_back({nm, 'd', 1, cls, call1<F, double>, 1}); v.push_back({nm, 'l', 1, cls, call1<F, long double>, 2}); }
	}
	template <class F> inline void add2(std::vector<Ent> & v, const char * nm, unsigned cls) { v.push_back({nm, 'f', 2, cls, call2<F, float>, 1}); v.push_back({nm, 'd', 2, cls, call2<F, double>, 1}); v.push_back({nm, 'l', 2, cls, call2<F, long double>, 2}); }
	template <class F> inline void add3(std::vector<Ent> & v, const char * nm, unsigned cls) { v.push_back({nm, 'f', 3, cls, call3<F, float>, 1}); v.push_back({nm, 'd', 3, cls, call3<F, double>, 1}); v.push_back({nm, 'l', 3, cls, call3<F, long double>, 2}); }
#define A1(N, C) add<f_##N>(v, #N, 1, C);
#define A2(N, C) add2<f_##N>(v, #N, C);
#define A3(N, C) add3<f_##N>(v, #N, C);
	inline const std::vector<Ent> & table()
	{
		static const std::vector<Ent> t = [] {
			std::vector<Ent> v;
			A1(abs, EXACT | SILENT) A1(fabs, EXACT | SILENT) A1(fpclassify, EXACT | SILENT) A1(isnan, EXACT | SILENT) A1(isinf, EXACT | SILENT) A1(isfinite, EXACT | SILENT) A1(isnormal, EXACT | SILENT) A1(signbit, EXACT | SILENT)
			A1(floor, EXACT) A1(ceil, EXACT) A1(trunc, EXACT) A1(round, EXACT) A1(rint, EXACT) A1(nearbyint, EXACT)
			A1(frexp, EXACT | SILENT) A1(modf, EXACT | SILENT) A1(logb, EXACT) A1(ilogb, EXACT) A1(nextup, EXACT) A1(nextdown, EXACT)
			A1(exp, APPROX) A1(exp2, APPROX) A1(expm1, APPROX) A1(log, APPROX) A1(log2, APPROX) A1(log10, APPROX) A1(log1p, APPROX)
			A1(sin, APPROX) A1(cos, APPROX) A1(tan, APPROX) A1(asin, APPROX) A1(acos, APPROX) A1(atan, APPROX) A1(cbrt, APPROX) A1(sqrt, EXACT) A1(tgamma, APPROX) A1(gamma, APPROX) A1(lgamma, APPROX)
			A2(fmin, EXACT) A2(fmax, EXACT) A2(min, EXACT) A2(max, EXACT) A2(fdim, EXACT) A2(copysign, EXACT | SILENT) A2(fmod, EXACT) A2(remainder, EXACT) A2(remquo, EXACT)
			A2(nextafter, EXACT) A2(nexttoward, EXACT) A2(isless, EXACT | SILENT) A2(islessequal, EXACT | SILENT) A2(isgreater, EXACT | SILENT) A2(isgreaterequal, EXACT | SILENT) A2(islessgreater, EXACT | SILENT) A2(isunordered, EXACT | SILENT)
			A2(atan2, APPROX) A2(pow, APPROX) A2(hypot, APPROX) A2(ldexp, EXACT) A2(scalbn, EXACT) A2(scalbln, EXACT)
			A3(fma, EXACT) A3(lerp, EXACT) A3(hypot3, APPROX)
			return v;
		}();
		return t;
	}
	// operand alphabets shared by all entries: dense for one operand, thinner for two and three
	struct Alpha { std::vector<float> f[4]; std::vector<double> d[4]; std::vector<long double> l[4]; };
	template <class T> inline void extra(std::vector<T> & v)
	{ // arguments near the switch-over points of the in-tree kernels
		for (double c : {0.25, 0.0625, 0.5, 0.414284, 0.292893, 0.693147, 1.0, 0.9375, 1.09, 0.785398, 1.570796, 3.141592, 2.0, 3.0, 4.0, 7.5, 12.0, 20.0, 33.5, 34.0, 35.04, 36.0, 60.0, 64.0, 88.7, 103.9, 127.5, 149.5, 170.6, 171.7, 184.0, 512.0, 700.0, 709.7, 745.1, 1023.9, 1074.5, 1e5, 1e8, 1e9, 1e15, 1048576.5})
			for (int s = 0; s < 2; ++s) { T x = static_cast<T>(s ? -c : c); v.push_back(x); v.push_back(up(x)); v.push_back(dn(x)); }
		for (int i = 1; i <= 40; ++i) { v.push_back(static_cast<T>(i)); v.push_back(static_cast<T>(-i)); v.push_back(static_cast<T>(i) + T(0.5)); v.push_back(static_cast<T>(-i) - T(0.5)); v.push_back(static_cast<T>(i) / T(7)); v.push_back(-static_cast<T>(i) / T(11)); }
	}
	template <class T> inline void fill(std::vector<T> (&a)[4], int e1, int e2)
	{
		a[1] = alphabet<T>(e1); extra(a[1]); uniq(a[1]);
		a[2] = specials<T>(); extra(a[2]); for (T x : alphabet<T>(e2)) a[2].push_back(x); uniq(a[2]);
		a[3] = specials<T>(); for (T x : {T(4), T(-0.7L), T(1e5L), T(-1e20L), T(1e-20L)}) a[3].push_back(x); uniq(a[3]);
	}
	inline Alpha & alph() { static Alpha a; return a; }
	inline void init_alpha(int k = 1)
	{
		fill(alph().f, k, 16 * k); fill(alph().d, 8 * k, 120 * k); fill(alph().l, 130 * k, 2000 * k);
	}
	template <class T> inline const std::vector<T> & av(int ar) { if constexpr (std::is_same_v<T, float>) return alph().f[ar]; else if constexpr (std::is_same_v<T, double>) return alph().d[ar]; else return alph().l[ar]; }
	inline u64 asize(char ty, int ar) { u64 n = ty == 'f' ? alph().f[ar].size() : ty == 'd' ? alph().d[ar].size() : alph().l[ar].size(); return n; }
	inline u64 points(const Ent & e) { u64 n = asize(e.ty, e.ar), m = 1; for (int i = 0; i < e.ar; ++i) m *= n; return m; }
	inline void operands(const Ent & e, u64 i, u64 * w)
	{
		u64 n = asize(e.ty, e.ar);
		for (int k = 0; k < e.ar; ++k) { u64 j = i % n; i /= n; if (e.ty == 'f') put(alph().f[e.ar][j], w + k); else if (e.ty == 'd') put(alph().d[e.ar][j], w + k); else put(alph().l[e.ar][j], w + 2 * k); }
	}
	// a thinner version for checks that multiply every point by many environment states
	template <class T> inline void thin_(std::vector<T> (&a)[4], int n2, int n3)
	{
		std::vector<T> v = alphabet<T>(std::is_same_v<T, float> ? 12 : std::is_same_v<T, double> ? 80 : 1200); extra(v); uniq(v); a[1] = v;
		std::vector<T> s = specials<T>(); for (T x : {T(4), T(-0.7L), T(1e5L), T(-1e20L), T(1e-20L), T(2.5), T(-20.5), T(750), T(-750), T(12000)}) s.push_back(x); uniq(s);
		a[2].clear(); for (size_t i = 0; i < s.size(); ++i) a[2].push_back(s[i]); for (size_t i = 0; i < v.size() && static_cast<int>(a[2].size()) < n2; i += 7) a[2].push_back(v[i]); uniq(a[2]);
		a[3].clear(); for (size_t i = 0; i < s.size() && static_cast<int>(a[3].size()) < n3; ++i) a[3].push_back(s[(i * 5) % s.size()]); uniq(a[3]);
	}
	inline void thin(int n2, int n3) { thin_(alph().f, n2, n3); thin_(alph().d, n2, n3); thin_(alph().l, n2, n3); }
	inline const char * ename(const Ent & e) { static const char * t[3] = {"f32", "f64", "f80"}; return cat2(e.nm, t[e.ty == 'f' ? 0 : e.ty == 'd' ? 1 : 2]); }
} // namespace mc
