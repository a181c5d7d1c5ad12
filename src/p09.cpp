// C09 square root
#include "lib.hpp"
using namespace mc;
// Reference: the FPU's square root (correctly rounded in every mode).
static float ref(float x) { float r; asm volatile("sqrtss %1, %0" : "=x"(r) : "x"(x)); return r; }
static double ref(double x) { double r; asm volatile("sqrtsd %1, %0" : "=x"(r) : "x"(x)); return r; }
static long double ref(long double x) { long double r; asm volatile("fsqrt" : "=t"(r) : "0"(x)); return r; }
#ifdef MC_MODES
constexpr u64 NM = 4;
#else
constexpr u64 NM = 1;
#endif
template <class T> static bool j_sqrt(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w + 1), g, e;
#ifdef MC_CTMODE
	{ Round q(CCM_CONSTEXPR_ROUNDING_MODE); e = keep(ref(hide(x))); }
	g = keep(ccm::sqrt(hide(x)));
#else
	{ Round q(RM[w[0] & 3]); e = keep(ref(hide(x))); g = keep(ccm::sqrt(hide(x))); }
#endif
	MC_RET_SAME(g, e);
}
template <class I> static bool j_int(const u64 * w, Rep * r)
{
	I i = hide(static_cast<I>(w[0])); double e = ref(static_cast<double>(i));
	static_assert(std::is_same_v<decltype(ccm::sqrt(i)), double>);
	MC_RET_SAME(ccm::sqrt(i), e);
}
template <class I> static void ints(const char * nm) { static std::vector<I> v = ints_alphabet<I>(); for (int k = 0; k < 2000; ++k) v.push_back(static_cast<I>(k)); explore(nm, 1, 1, v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i]); }, j_int<I>); }
template <class T, class G> static void grid(const char * nm, const G & g)
{
	static const G & gg = g;
	explore(nm, 1 + Fp<T>::nw, 1, gg.n() * NM, [](u64 i, u64 * w) { w[0] = i % NM; gg(i / NM, w + 1); }, j_sqrt<T>);
}
// squares of every k-bit significand, one ulp around them, and the midpoints between representable roots
template <class T> static void squares(const char * nm, int bits)
{
	static u64 K; K = 1ull << bits;
	static int EN = Fp<T>::emax - Fp<T>::emin + Fp<T>::p; static int step; step = std::max(1, EN / 24);
	static u64 NE; NE = static_cast<u64>(EN / step);
	explore(nm, 1 + Fp<T>::nw, 1, K * 5 * NE * NM, [](u64 i, u64 * w) {
		w[0] = i % NM; i /= NM; int d = static_cast<int>(i % 5) - 2; i /= 5; int e = static_cast<int>(i % NE) * step + Fp<T>::emin - Fp<T>::p + 1; i /= NE;
		T m = 1 + static_cast<T>(i) / static_cast<T>(K); // root
		T x = std::ldexp(m * m, e);
		for (int q = 0; q < (d < 0 ? -d : d); ++q) x = d < 0 ? dn(x) : up(x);
		put(x, w + 1);
	}, j_sqrt<T>);
}
// Hardest cases: roots next to a representable number or to the midpoint of two.  z is a root with one extra bit (odd:
// a midpoint), X*2^n = z^2 - k for a small k; such z solve z^2 = k modulo 2^n and are found by lifting.
template <class T> static void hard(const char * nm, int K)
{
	using u128 = unsigned __int128; constexpr int p = Fp<T>::p;
	static std::vector<std::pair<u64, int>> pts; // significand, n
	for (int k = -K; k <= K; ++k)
	{
		if ((k & 7) != 1) continue;
		for (int n = p + 1; n <= p + 2; ++n)
			for (int j = 0; j <= 1; ++j)
			{
				int m = n - 2 * j; u128 M = static_cast<u128>(1) << m; u128 kk = static_cast<u128>(static_cast<__int128>(k));
				u128 r = 1; // r^2 = k modulo 2^b, b from 3 upwards
				for (int b = 3; b < m; ++b) if (((r * r - kk) >> b) & 1) r += static_cast<u128>(1) << (b - 1);
				u128 lo = static_cast<u128>(1) << (p - j), hi = lo << 1;
				for (u128 q : {r, M - r, r + M / 2, 2 * M - r - M / 2})
					for (u128 z = q & (M - 1); z < hi; z += M)
					{
						if (z < lo) continue;
						u128 X;
						if (j) X = (z * z - kk) >> m;
						else { u128 w = z - lo; if (w < static_cast<u128>(K)) continue; X = (static_cast<u128>(1) << (p - 1)) + w + ((w * w - kk) >> (p + 1)); if (n == p + 2) X >>= 1; }
						if (X >> (p - 1) == 1) pts.push_back({static_cast<u64>(X), n});
					}
			}
	}
	static std::vector<int> qs;
	for (int q = 0; q < 3; ++q) qs.push_back(-p + q);
	for (int e = Fp<T>::emin + 4 * p; e < Fp<T>::emax - 2 * p; e += (Fp<T>::emax - Fp<T>::emin) / 9) qs.push_back((e - 2 * p) / 2);
	if (pts.size() < 16) { note("no hard square roots found"); return; }
	explore(nm, 1 + Fp<T>::nw, 1, pts.size() * qs.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; i /= NM; auto & c = pts[i / qs.size()]; put(std::ldexp(static_cast<T>(c.first), c.second + 2 * qs[i % qs.size()]), w + 1); }, j_sqrt<T>);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	bool t = thorough;
#ifndef MC_F32K
	#define MC_F32K 17
#endif
	static Grid<float> gf(t ? 23 : MC_F32K); static Grid<double> gd(t ? 12 : 8), gs(t ? 20 : 14, 0, 2), gt(t ? 22 : 16, 1022, 1024); static Grid<long double> gl(t ? 6 : 3), gls(t ? 18 : 13, 0, 2), glt(t ? 20 : 14, 16382, 16384);
	grid<float>("grid f32", gf); 
	{ static auto g = [](u64 i, u64 * w) { w[0] = i % NM; gd(i / NM, w + 1); }; explore("grid f64", 2, 1, gd.n() * NM, g, j_sqrt<double>); }
	{ static auto g = [](u64 i, u64 * w) { w[0] = i % NM; gs(i / NM, w + 1); }; explore("subnormal f64", 2, 1, gs.n() * NM, g, j_sqrt<double>); }
	{ static auto g = [](u64 i, u64 * w) { w[0] = i % NM; gt(i / NM, w + 1); }; explore("near one f64", 2, 1, gt.n() * NM, g, j_sqrt<double>); }
	{ static auto g = [](u64 i, u64 * w) { w[0] = i % NM; gl(i / NM, w + 1); }; explore("grid f80", 3, 1, gl.n() * NM, g, j_sqrt<long double>); }
	{ static auto g = [](u64 i, u64 * w) { w[0] = i % NM; gls(i / NM, w + 1); }; explore("subnormal f80", 3, 1, gls.n() * NM, g, j_sqrt<long double>); }
	{ static auto g = [](u64 i, u64 * w) { w[0] = i % NM; glt(i / NM, w + 1); }; explore("near one f80", 3, 1, glt.n() * NM, g, j_sqrt<long double>); }
	squares<float>("squares f32", t ? 14 : 11); squares<double>("squares f64", t ? 17 : 13); squares<long double>("squares f80", t ? 15 : 11);
	hard<float>("hard f32", t ? 65536 : 8192); hard<double>("hard f64", t ? 262144 : 8192); hard<long double>("hard f80", t ? 65536 : 8192);
	static auto sf = specials<float>(); static auto sd = specials<double>(); static auto sl = specials<long double>();
	sf.push_back(snan_of<float>()); sd.push_back(snan_of<double>()); sl.push_back(snan_of<long double>());
	explore("specials f32", 2, 1, sf.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; put(sf[i / NM], w + 1); }, j_sqrt<float>);
	explore("specials f64", 2, 1, sd.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; put(sd[i / NM], w + 1); }, j_sqrt<double>);
	explore("specials f80", 3, 1, sl.size() * NM, [](u64 i, u64 * w) { w[0] = i % NM; put(sl[i / NM], w + 1); }, j_sqrt<long double>);
#if !defined(MC_MODES) && !defined(MC_CTMODE)
	ints<int>("int32"); ints<long>("int64"); ints<unsigned long>("uint64"); ints<signed char>("int8"); ints<unsigned short>("uint16"); ints<bool>("bool");
#endif
}
