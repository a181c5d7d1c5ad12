// Accuracy of approximated functions against the next wider format (binary64 for float, 80-bit for double).
#pragma once
#include "lib.hpp"
namespace mc
{
#if defined(MC_DET)
	constexpr int CFG = 1; // deterministic mode: in-tree kernels at run time
#elif defined(MC_FORCE_CE)
	constexpr int CFG = 2; // constant-evaluation path
#else
	constexpr int CFG = 0; // default run time
#endif
#ifndef MC_FK
	#define MC_FK 14 // leading mantissa bits enumerated for float (23 = every float)
#endif
#ifndef MC_DK
	#define MC_DK 8 // ... and for double
#endif
	constexpr double pick(double rt, double det, double ce) { return CFG == 0 ? rt : CFG == 1 ? det : ce; }
#define ACC_FN(NAME, STD) struct NAME##_f { static float f(float x) { return ccm::NAME(x); } static double f(double x) { return ccm::NAME(x); } static double r(double x) { return std::STD(x); } static long double r(long double x) { return std::STD(x); } };
	// B: bound in units of 2^-8 ulp
	template <class F, class T, int B> inline bool j_acc(const u64 * w, Rep * r)
	{
		T x = Fp<T>::get(w); T g = keep(F::f(hide(x))); typename Fp<T>::R e = F::r(static_cast<typename Fp<T>::R>(x));
		MC_RET(within<T>(g, e, B / 256.0), show(g), show(e));
	}
	template <class F, class T> inline bool j_exact(const u64 * w, Rep * r) { T x = Fp<T>::get(w), e = Fp<T>::get(w + 1); MC_RET_SAME(keep(F::f(hide(x))), e); }
	inline const char * cat(const char * a, const char * b) { return (new std::string(std::string(a) + " " + b))->c_str(); }
	// centres with +-n ulp, both signs
	template <class T> inline std::vector<T> & around(std::vector<T> c, int n, int wide = 0)
	{
		auto & v = *new std::vector<T>;
		for (T x : c) for (int s = 0; s < 2; ++s)
		{
			T y = s ? -x : x; v.push_back(y); T a = y, b = y;
			for (int i = 0; i < n; ++i) { a = up(a); b = dn(b); v.push_back(a); v.push_back(b); }
			for (int i = 0; i < wide; ++i) { T d = y * (T(1) + std::ldexp(T(1), -(i % 40) - 2)); v.push_back(d); v.push_back(y * (T(1) - std::ldexp(T(1), -(i % 40) - 2))); }
		}
		return v;
	}
	template <class F, class T, int B> inline void acc_list(const char * nm, const std::vector<T> & v) { static const std::vector<T> * p; p = &v; explore(nm, Fp<T>::nw, 1, v.size(), [](u64 i, u64 * w) { put((*p)[i], w); }, j_acc<F, T, B>); }
	// n evenly spaced arguments in [lo, hi] (with a tail in the low bits)
	template <class F, class T, int B> inline void acc_line(const char * nm, T lo, T hi, u64 n)
	{
		static T l, h; static u64 m; l = lo; h = hi; m = n;
		explore(nm, Fp<T>::nw, 1, n, [](u64 i, u64 * w) { put(static_cast<T>(static_cast<long double>(l) + (static_cast<long double>(h) - l) * (static_cast<long double>(i) + (i & 1 ? 0.31830988618379L : 0.0L)) / static_cast<long double>(m)), w); }, j_acc<F, T, B>);
	}
	template <class F, int BF, int BD> inline void acc_grids(const char * nm, u64 felo = 0, u64 fehi = 255, u64 delo = 0, u64 dehi = 2047)
	{
		static Grid<float> gf(thorough ? 23 : MC_FK, felo, fehi); explore(cat(nm, "f32 grid"), 1, 1, gf.n(), gf, j_acc<F, float, BF>);
		static Grid<double> gd(thorough ? 13 : MC_DK, delo, dehi, true, 4); explore(cat(nm, "f64 grid"), 1, 1, gd.n(), gd, j_acc<F, double, BD>);
		static std::vector<double> sd = alphabet<double>(3); sd.push_back(snan_of<double>()); acc_list<F, double, BD>(cat(nm, "f64 specials"), sd);
		static std::vector<float> sf = alphabet<float>(1); sf.push_back(snan_of<float>()); acc_list<F, float, BF>(cat(nm, "f32 specials"), sf);
	}
	template <class F, class T> inline void exact_list(const char * nm, const std::vector<std::pair<T, T>> & v) { static const std::vector<std::pair<T, T>> * p; p = &v; explore(nm, 2 * Fp<T>::nw, 1, v.size(), [](u64 i, u64 * w) { put((*p)[i].first, w); put((*p)[i].second, w + Fp<T>::nw); }, j_exact<F, T>); }
	// integer arguments behave as doubles
	template <class F, class I> inline bool j_integral(const u64 * w, Rep * r) { I i = hide(static_cast<I>(w[0])); double e = keep(F::f(static_cast<double>(i))), g = keep(F::i(i)); MC_RET_SAME(g, e); }
	template <class F, class I> inline void integral(const char * nm) { static std::vector<I> v = ints_alphabet<I>(); explore(nm, 1, 1, v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i]); }, j_integral<F, I>); }
} // namespace mc
