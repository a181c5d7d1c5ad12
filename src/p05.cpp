// C05 scaling by powers of two
#include "lib.hpp"
using namespace mc;
// exact x*2^n (in a wider format or by exact steps), rounded once in the current mode
template <class T> static T ref(T x, long n)
{
	if (!is_fin(x) || x == 0) return x;
	if constexpr (!std::is_same_v<T, long double>)
	{
		long m = n > 5000 ? 5000 : n < -5000 ? -5000 : n;
		volatile long double l = std::scalbln(static_cast<long double>(x), m); // exact: |m| far inside the wider range
		volatile T r = static_cast<T>(l);
		return r;
	}
	else
	{ // significand as integer, round by hand to nearest even
		int e; T f = std::frexp(x < 0 ? -x : x, &e);
		u64 s = static_cast<u64>(std::ldexp(f, 64)); // [2^63,2^64)
		__int128 q = static_cast<__int128>(e) - 64 + n; // value = s*2^q
		T res;
		if (q + 64 > 16384) res = std::numeric_limits<T>::infinity();
		else if (q >= -16445) res = std::ldexp(static_cast<T>(s), static_cast<int>(q));
		else
		{
			__int128 sh = -16445 - q; // drop sh bits
			u64 k, rem, half;
			if (sh > 65) { k = 0; rem = 1; half = 2; }
			else if (sh == 65) { k = 0; rem = 1; half = 2; }
			else if (sh == 64) { k = 0; rem = s; half = 1ull << 63; }
			else { k = s >> sh; rem = s & ((1ull << sh) - 1); half = 1ull << (sh - 1); }
			if (rem > half || (rem == half && (k & 1))) ++k;
			res = std::ldexp(static_cast<T>(k), -16445);
		}
		return x < 0 ? -res : res;
	}
}
template <class T> static bool j_scale(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w)); long n = hide(static_cast<long>(w[Fp<T>::nw]));
	T e = ref(x, n);
	if (n >= INT_MIN && n <= INT_MAX)
	{
		int k = static_cast<int>(n);
		T a = ccm::ldexp(x, k); if (!same(a, e)) MC_RET(false, "ldexp=" + show(a), show(e));
		T b = ccm::scalbn(x, k); if (!same(b, e)) MC_RET(false, "scalbn=" + show(b), show(e));
	}
	T c = ccm::scalbn(x, n); if (!same(c, e)) MC_RET(false, "scalbn(long)=" + show(c), show(e));
	T d = ccm::scalbln(x, n); MC_RET(same(d, e), "scalbln=" + show(d), show(e));
}
template <class T> static bool j_mode(const u64 * w, Rep * r)
{
	int rm = RM[w[0]]; T x = hide(Fp<T>::get(w + 1)); int n = static_cast<int>(w[1 + Fp<T>::nw]);
	T e, a, b, c;
	{ Round m(rm); e = ref(x, n); a = keep(ccm::ldexp(x, hide(n))); b = keep(ccm::scalbn(x, hide(n))); c = keep(ccm::scalbln(x, hide(static_cast<long>(n)))); }
	if (!same(a, e)) MC_RET(false, "ldexp=" + show(a), show(e));
	if (!same(b, e)) MC_RET(false, "scalbn=" + show(b), show(e));
	MC_RET(same(c, e), "scalbln=" + show(c), show(e));
}
template <class I> static bool j_int(const u64 * w, Rep * r)
{
	I i = hide(static_cast<I>(w[0])); int n = static_cast<int>(w[1]);
	double e = ref(static_cast<double>(i), n);
	double a = ccm::ldexp(i, n), b = ccm::scalbn(i, n), c = ccm::scalbln(i, static_cast<long>(n));
	if (!same(a, e)) MC_RET(false, "ldexp=" + show(a), show(e));
	if (!same(b, e)) MC_RET(false, "scalbn=" + show(b), show(e));
	MC_RET(same(c, e), "scalbln=" + show(c), show(e));
}
static const long XT[] = {INT_MAX, INT_MIN, INT_MAX - 1L, INT_MIN + 1L, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, 4294967296L, 4294967297L, 4294967295L, -4294967296L, -4294967295L, -4294967297L, 4294967296L + 5, -4294967296L - 5, 4294967296L * 4 + 1, 100000, -100000, 65536, -65536, 65535, -65535, 32768, -32768, 50000, -50000, 1L << 40, -(1L << 40), (1L << 62), -(1L << 62)};
constexpr u64 NX = sizeof XT / sizeof *XT;
template <class T> static std::vector<T> xs()
{
	std::vector<T> v = specials<T>();
	// mantissas that provoke double rounding when shifted into the subnormals: runs of ones/zeros around every bit
	for (int b = 0; b < Fp<T>::p; ++b)
		for (int k = 0; k < 4; ++k)
		{
			T one = 1, u = std::ldexp(T(1), -b), v2 = k == 0 ? one + u : k == 1 ? 2 - u : k == 2 ? one + u + std::numeric_limits<T>::epsilon() : one + u / 2 * 3;
			v.push_back(v2); if (b % 3 == 0) v.push_back(-v2);
			v.push_back(std::ldexp(v2, Fp<T>::emin)); v.push_back(std::ldexp(v2, Fp<T>::emax - 1)); v.push_back(std::ldexp(v2, Fp<T>::emin - b));
		}
	for (int e = Fp<T>::emin - Fp<T>::p + 1; e <= Fp<T>::emax; e += std::max(1, Fp<T>::emax / (thorough ? 128 : 40))) v.push_back(std::ldexp(T(1.7L), e));
	v.push_back(snan_of<T>());
	uniq(v); return v;
}
// n: all integers in a window wide enough to move any value from one end of the range to beyond the other
template <class T> static u64 nwin() { return 2 * (2 * static_cast<u64>(Fp<T>::emax) + 2 * Fp<T>::p + 40); }
template <class T> static void run(const char * nm, const char * nm2, const char * nm3)
{
	static std::vector<T> v = xs<T>();
	static u64 stride = std::is_same_v<T, long double> ? (thorough ? 3 : 37) : 1;
	static u64 N = nwin<T>() / stride;
	explore(nm, Fp<T>::nw + 1, 4, v.size() * N, [](u64 i, u64 * w) { put(v[i / N], w); w[Fp<T>::nw] = static_cast<u64>(static_cast<long>(i % N * stride) - static_cast<long>(nwin<T>() / 2)); }, j_scale<T>);
	explore(nm2, Fp<T>::nw + 1, 4, v.size() * NX, [](u64 i, u64 * w) { put(v[i / NX], w); w[Fp<T>::nw] = static_cast<u64>(XT[i % NX]); }, j_scale<T>);
	// targets around the subnormal / overflow boundary: every x against every n that lands within p+3 of it
	static u64 M = 2 * (Fp<T>::p + 6);
	explore(nm3, Fp<T>::nw + 1, 4, v.size() * M, [](u64 i, u64 * w) { T x = v[i / M]; long t = static_cast<long>(i % M); put(x, w); int e = 0; if (is_fin(x) && x != 0) { (void)std::frexp(x, &e); } long tgt = t < static_cast<long>(M / 2) ? Fp<T>::emin + 3 - t : Fp<T>::emax + 3 - (t - static_cast<long>(M / 2)); w[Fp<T>::nw] = static_cast<u64>(tgt - e); }, j_scale<T>);
}
// every source exponent against every target near the ends of the range, for significands next to the rounding decisions there
template <class T> static void rune(const char * nm)
{
	static std::vector<T> m; T one = 1, eps = std::numeric_limits<T>::epsilon();
	for (T x : {one, one + eps, one + 2 * eps, T(1.5L), T(1.5L) + eps, T(1.5L) - eps, 2 - eps, T(1.25L), T(1.25L) + eps, T(1.75L) - eps, one + T(0.5L) * T(0.25L) + eps, T(1.7L)}) m.push_back(x);
	static const int E0 = Fp<T>::emin - Fp<T>::p + 1, TG = std::is_same_v<T, long double> ? 10 : 2 * Fp<T>::p / 3;
	static u64 st = std::is_same_v<T, long double> ? (thorough ? 1 : 7) : 1, NE = static_cast<u64>(Fp<T>::emax - E0 + 1) / st, NT = static_cast<u64>(TG) + 6;
	explore(nm, Fp<T>::nw + 1, 4, m.size() * NE * NT, [](u64 i, u64 * w) { u64 t = i % NT; i /= NT; T x = m[i % m.size()]; int e = E0 + static_cast<int>(i / m.size() * st); x = std::ldexp(x, e); put(x, w); long tgt = t < static_cast<u64>(TG) ? E0 - 4 + static_cast<long>(t) : Fp<T>::emax - 3 + static_cast<long>(t - TG); w[Fp<T>::nw] = static_cast<u64>(tgt - e); }, j_scale<T>);
}
template <class T> static void runm(const char * nm)
{
	static std::vector<T> v = xs<T>();
	static u64 M = 2 * (Fp<T>::p + 6);
	explore(nm, Fp<T>::nw + 2, 3, v.size() * M * 4, [](u64 i, u64 * w) { w[0] = i & 3; i >>= 2; T x = v[i / M]; long t = static_cast<long>(i % M); put(x, w + 1); int e = 0; if (is_fin(x) && x != 0) { (void)std::frexp(x, &e); } long tgt = t < static_cast<long>(M / 2) ? Fp<T>::emin + 3 - t : Fp<T>::emax + 3 - (t - static_cast<long>(M / 2)); w[1 + Fp<T>::nw] = static_cast<u64>(tgt - e); }, j_mode<T>);
}
template <class I> static void ints(const char * name)
{
	static std::vector<I> v = ints_alphabet<I>();
	explore(name, 2, 3, v.size() * 2400, [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i / 2400]); w[1] = static_cast<u64>(static_cast<long>(i % 2400) - 1200); }, j_int<I>);
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
#ifdef MC_MODES
	runm<float>("modes f32"); runm<double>("modes f64");
#else
	run<float>("window f32", "extreme f32", "edges f32"); run<double>("window f64", "extreme f64", "edges f64"); run<long double>("window f80", "extreme f80", "edges f80");
	rune<float>("every exponent f32"); rune<double>("every exponent f64"); rune<long double>("every exponent f80");
	static Grid<float> gf(thorough ? 14 : 6);
	explore("grid f32 x n", 2, 4, gf.n() * 600, [](u64 i, u64 * w) { gf(i / 600, w); w[1] = static_cast<u64>(static_cast<long>(i % 600) - 300); }, j_scale<float>);
	ints<int>("int32"); ints<long>("int64"); ints<unsigned long>("uint64"); ints<signed char>("int8"); ints<unsigned short>("uint16");
#endif
}
