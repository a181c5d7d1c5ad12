// C08 fused multiply-add
#include "lib.hpp"
using namespace mc;
// Reference: the FPU's fused instruction when there is one, otherwise the C library's (correctly rounded in all modes).
static bool has_fma = __builtin_cpu_supports("fma");
static float ref(float x, float y, float z) { if (has_fma) { float r = x; asm volatile("vfmadd213ss %2, %1, %0" : "+x"(r) : "x"(y), "x"(z)); return r; } return std::fma(hide(x), hide(y), hide(z)); }
static double ref(double x, double y, double z) { if (has_fma) { double r = x; asm volatile("vfmadd213sd %2, %1, %0" : "+x"(r) : "x"(y), "x"(z)); return r; } return std::fma(hide(x), hide(y), hide(z)); }
static long double ref(long double x, long double y, long double z) { return std::fma(hide(x), hide(y), hide(z)); }
static inline double f3(double a, double b, double c) { return ccm::fma(a, b, c); }
static inline float f3(float a, float b, float c) { return ccm::fmaf(a, b, c); }
static inline long double f3(long double a, long double b, long double c) { return ccm::fmal(a, b, c); }
template <class T> static bool j_fma(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw;
	T x = Fp<T>::get(w + 1), y = Fp<T>::get(w + 1 + n), z = Fp<T>::get(w + 1 + 2 * n);
	T g, e;
#ifdef MC_CTMODE
	int m = CCM_CONSTEXPR_ROUNDING_MODE; { Round q(m); e = keep(ref(hide(x), hide(y), hide(z))); }
	g = keep(f3(hide(x), hide(y), hide(z)));
#else
	int m = RM[w[0] & 3];
	if (forced_ce) { e = keep(ref(hide(x), hide(y), hide(z))); g = keep(f3(hide(x), hide(y), hide(z))); }
	else { Round q(m); e = keep(ref(hide(x), hide(y), hide(z))); g = keep(f3(hide(x), hide(y), hide(z))); }
#endif
	MC_RET_SAME(g, e);
}
#if defined(MC_MODES)
constexpr u64 NM = 4;
#else
constexpr u64 NM = 1;
#endif
// mantissa patterns
template <class T> static std::vector<T> mants(int want)
{
	T ep = std::numeric_limits<T>::epsilon();
	int p = Fp<T>::p;
	std::vector<T> v{T(1), 1 + ep, 2 - ep, T(1.5), T(1.5) + ep, T(1.5) - ep, 1 + std::ldexp(T(1), -(p / 2)), 1 + std::ldexp(T(1), -((p + 1) / 2)), 2 - std::ldexp(T(1), -(p / 2)), T(1.1L), T(4.0L / 3), T(1.9L), T(5.0L / 4) + ep, 2 - 2 * ep, 1 + 2 * ep, T(7.0L / 4) - ep};
	v.resize(static_cast<size_t>(std::min<int>(want, static_cast<int>(v.size()))));
	return v;
}
// z at every exponent distance from the product x*y, with the product placed at the interesting exponents
template <class T> static void gaps(const char * nm, int want)
{
	static std::vector<T> m = mants<T>(want);
	static const int p = Fp<T>::p;
	static const int span = 3 * p + 8;
	static std::vector<int> anchors;
	int lo = Fp<T>::emin, hi = Fp<T>::emax;
	for (int a : {0, lo - p - 3, lo - p, lo - p + 1, lo - p / 2, lo - 2, lo - 1, lo, lo + 1, lo + p, hi - p - 1, hi - 2, hi - 1, hi, hi + 1}) anchors.push_back(a);
	u64 M = m.size(), S = static_cast<u64>(2 * span + 1);
	explore(nm, 1 + 3 * Fp<T>::nw, 1, M * M * M * S * anchors.size() * 2 * NM, [](u64 i, u64 * w) {
		u64 M = m.size(), S = static_cast<u64>(2 * span + 1);
		w[0] = i % NM; i /= NM;
		bool neg = i & 1; i >>= 1;
		T a = m[i % M]; i /= M; T b = m[i % M]; i /= M; T c = m[i % M]; i /= M;
		int gap = static_cast<int>(i % S) - span; i /= S;
		int an = anchors[i];
		int ea = an / 2, eb = an - ea; // exponents of x and y
		// keep x and y representable
		int lim = Fp<T>::emin;
		if (ea < lim) { eb += ea - lim; ea = lim; }
		put(std::ldexp(a, ea), w + 1); put(std::ldexp(b, eb), w + 1 + Fp<T>::nw);
		T z = std::ldexp(c, std::max(Fp<T>::emin - Fp<T>::p - 1, std::min(Fp<T>::emax, an + gap)));
		put(neg ? -z : z, w + 1 + 2 * Fp<T>::nw);
	}, j_fma<T>);
}
// near-total cancellation: z = -(rounded product) +- a few ulp
template <class T> static void cancel(const char * nm, int k)
{
	static std::vector<T> a;
	T ep = std::numeric_limits<T>::epsilon();
	for (int i = 0; i < k; ++i) { T f = static_cast<T>(i) / k; a.push_back(1 + f); a.push_back(1 + f + ep); a.push_back(2 - f / 2 - ep); a.push_back(std::ldexp(1 + f + ep, Fp<T>::emin / 2 - (i % 12))); }
	uniq(a);
	explore(nm, 1 + 3 * Fp<T>::nw, 1, a.size() * a.size() * 5 * NM, [](u64 i, u64 * w) {
		w[0] = i % NM; i /= NM; int d = static_cast<int>(i % 5) - 2; i /= 5;
		T x = a[i / a.size()], y = a[i % a.size()], z = -(x * y);
		for (int q = 0; q < (d < 0 ? -d : d); ++q) z = d < 0 ? dn(z) : up(z);
		put(x, w + 1); put(y, w + 1 + Fp<T>::nw); put(z, w + 1 + 2 * Fp<T>::nw);
	}, j_fma<T>);
}
template <class T> static std::vector<T> alpha(size_t cap, int estep)
{
	std::vector<T> v = specials<T>(); v.push_back(snan_of<T>());
	for (T x : alphabet<T>(estep, false)) v.push_back(x);
	uniq(v); if (v.size() > cap) v.resize(cap); return v;
}
template <class T> static void triples(const char * nm, int estep)
{
	static std::vector<T> v = alpha<T>(100000, estep);
	explore(nm, 1 + 3 * Fp<T>::nw, 1, v.size() * v.size() * v.size() * NM, [](u64 i, u64 * w) {
		w[0] = i % NM; i /= NM; u64 n = v.size(); put(v[i / n / n], w + 1); put(v[i / n % n], w + 1 + Fp<T>::nw); put(v[i % n], w + 1 + 2 * Fp<T>::nw);
	}, j_fma<T>);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	bool t = thorough;
	triples<float>("triples f32", t ? 3 : NM > 1 ? 20 : 10); triples<double>("triples f64", t ? 20 : NM > 1 ? 160 : 80);
#ifndef MC_CTMODE // the constant-evaluation rounding-mode policy is claimed for float and double only
	triples<long double>("triples f80", t ? 400 : NM > 1 ? 4000 : 2000); gaps<long double>("gaps f80", t ? 10 : 5); cancel<long double>("cancel f80", t ? 300 : 64);
#endif
	gaps<float>("gaps f32", t ? 16 : 9); gaps<double>("gaps f64", t ? 14 : 7);
	cancel<float>("cancel f32", t ? 1000 : 128); cancel<double>("cancel f64", t ? 800 : 128);
	// every small significand triple at a subnormal scale: ties and exact cases of every kind
	if constexpr (true)
	{
		static const u64 B = t ? 64 : 24;
		explore("small f32", 4, 1, B * B * 2 * B * 8 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; int s = static_cast<int>(i & 7); i >>= 3; long z = static_cast<long>(i % (2 * B)) - static_cast<long>(B); i /= 2 * B; put(std::ldexp(static_cast<float>(i % B), -75 - (s & 3)), w + 1); put(std::ldexp(static_cast<float>(i / B), -72), w + 2); put(std::ldexp(static_cast<float>(z), -149), w + 3); }, j_fma<float>);
		explore("small f64", 4, 1, B * B * 2 * B * 8 * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; int s = static_cast<int>(i & 7); i >>= 3; long z = static_cast<long>(i % (2 * B)) - static_cast<long>(B); i /= 2 * B; put(std::ldexp(static_cast<double>(i % B), -540 - (s & 3)), w + 1); put(std::ldexp(static_cast<double>(i / B), -532), w + 2); put(std::ldexp(static_cast<double>(z), -1074), w + 3); }, j_fma<double>);
	}
}
