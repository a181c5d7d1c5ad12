// C01 rounding to integer
#include "lib.hpp"
using namespace mc;
enum { FL, CE, TR, RO, RI };
// reference: split into integer part and exact fraction, decide on the fraction
template <class T> static T ref(T x, int f, int rm)
{
	if (is_nan(x) || is_inf(x) || x == 0) return x;
	T a = x < 0 ? -x : x;
	if (a >= std::ldexp(T(1), Fp<T>::p - 1)) return x;
	std::int64_t i = static_cast<std::int64_t>(a); // truncation, exact
	T fr = a - static_cast<T>(i);                  // exact
	bool neg = x < 0;
	bool up = false;
	switch (f)
	{
	case FL: up = neg && fr > 0; break;
	case CE: up = !neg && fr > 0; break;
	case TR: break;
	case RO: up = fr >= T(0.5); break;
	default:
		if (rm == FE_TONEAREST) up = fr > T(0.5) || (fr == T(0.5) && (i & 1));
		else if (rm == FE_UPWARD) up = !neg && fr > 0;
		else if (rm == FE_DOWNWARD) up = neg && fr > 0;
		break;
	}
	T q = static_cast<T>(static_cast<u64>(i) + (up ? 1u : 0u));
	return neg ? -q : q;
}
template <class T> static bool j_all(const u64 * w, Rep * r)
{
	T x = hide(Fp<T>::get(w));
	const T g[6] = {ccm::floor(x), ccm::ceil(x), ccm::trunc(x), ccm::round(x), ccm::rint(x), ccm::nearbyint(x)};
	static const char * nm[6] = {"floor", "ceil", "trunc", "round", "rint", "nearbyint"};
	for (int i = 0; i < 6; ++i)
	{
		T e = ref(x, i < 4 ? i : RI, FE_TONEAREST);
		if (!same(g[i], e)) { if (r) { r->got = std::string(nm[i]) + "=" + show(g[i]); r->want = show(e); } return false; }
	}
	if (r) r->got = show(g[0]) + show(g[3]);
	return true;
}
// rint / nearbyint under a rounding mode; floor/ceil/trunc/round unaffected by it; nearbyint silent about inexact
template <class T> static bool j_mode(const u64 * w, Rep * r)
{
	int rm = RM[w[0]];
	T x = hide(Fp<T>::get(w + 1));
	T g[6]; bool inex; int rm_after;
	{
		Round m(rm);
		g[0] = keep(ccm::floor(x)); g[1] = keep(ccm::ceil(x)); g[2] = keep(ccm::trunc(x)); g[3] = keep(ccm::round(x)); g[4] = keep(ccm::rint(x));
		std::feclearexcept(FE_ALL_EXCEPT);
		x = hide(x);
		g[5] = keep(ccm::nearbyint(x));
		inex = std::fetestexcept(FE_INEXACT) != 0;
		rm_after = std::fegetround();
	}
	static const char * nm[6] = {"floor", "ceil", "trunc", "round", "rint", "nearbyint"};
	if (rm_after != rm) MC_RET(false, "rounding mode changed", "unchanged");
	for (int i = 0; i < 6; ++i)
	{
		T e = ref(x, i < 4 ? i : RI, rm);
		if (!same(g[i], e)) { if (r) { r->got = std::string(nm[i]) + "=" + show(g[i]); r->want = show(e); } return false; }
	}
	MC_RET(!inex, inex ? "nearbyint raised inexact" : show(g[5]), "no inexact");
}
// Tie grid: integer part pattern x fraction pattern at every exponent where both exist
template <class T> struct Ties
{
	static constexpr u64 NI = 96, NF = 24;
	static constexpr int P = Fp<T>::p;
	static constexpr u64 n() { return u64(2) * (P + 3) * NI * NF; }
	void operator()(u64 i, u64 * w) const
	{
		u64 f = i % NF; i /= NF; u64 ip = i % NI; i /= NI; int e = static_cast<int>(i % (P + 3)) - 3; bool neg = (i / (P + 3)) & 1;
		int fb = P - 1 - e; // number of fraction bits in the significand
		if (fb > P - 1) fb = P - 1;
		u64 sig;
		u64 fm = fb <= 0 ? 0 : (1ull << fb) - 1, half = fb <= 0 ? 0 : 1ull << (fb - 1);
		u64 fp[NF] = {0, 1, 2, 3, half - 3, half - 2, half - 1, half, half + 1, half + 2, half + 3, fm, fm - 1, fm - 2, half / 2, half + half / 2, half / 2 - 1, half / 2 + 1, fm / 3, fm / 5, half + half / 2 + 1, half + half / 2 - 1, fm / 7, half + fm / 9};
		u64 fr = fp[f] & fm;
		int ib = P - 1 - fb; // integer bits below the leading one
		u64 im = ib <= 0 ? 0 : (1ull << ib) - 1;
		u64 lowp = ip & 7, hi = ip >> 3;
		static const u64 H[12] = {0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0xffffffff00000000ull, 0x00000000ffffffffull, 8, 16, 0xfffffffffffffff0ull, 0xff00ff00ff00ff00ull, 0x123456789abcdef0ull, 0x8000000000000000ull};
		u64 in = ((H[hi] & ~7ull) | lowp) & im;
		if (ib > 0 && H[hi] >> 63) in |= 1ull << (ib - 1);
		sig = (P == 64 ? 1ull << 63 : 1ull << (P - 1)) | (in << fb) | fr;
		T x = std::ldexp(static_cast<T>(sig), e - (P - 1));
		put(neg ? -x : x, w);
	}
};
template <class I> static bool j_int(const u64 * w, Rep * r)
{
	I i = hide(static_cast<I>(w[0]));
	double e = static_cast<double>(i);
	static_assert(std::is_same_v<decltype(ccm::floor(i)), double> && std::is_same_v<decltype(ccm::ceil(i)), double> && std::is_same_v<decltype(ccm::trunc(i)), double> && std::is_same_v<decltype(ccm::round(i)), double>);
	double g[6] = {ccm::floor(i), ccm::ceil(i), ccm::trunc(i), ccm::round(i), static_cast<double>(ccm::rint(i)), static_cast<double>(ccm::nearbyint(i))};
	for (double v : g) if (!same(v, e)) MC_RET(false, show(v), show(e));
	MC_RET(true, show(g[0]), "");
}
template <class I> static void ints(const char * name)
{
	static std::vector<I> v = ints_alphabet<I>();
	explore(name, 1, 6, v.size(), [](u64 i, u64 * w) { w[0] = static_cast<u64>(v[i]); }, j_int<I>);
}
// constant evaluation under a configured constant-evaluation rounding mode
template <class T> static bool j_ctmode(const u64 * w, Rep * r)
{
#ifdef CCM_CONSTEXPR_ROUNDING_MODE
	T x = hide(Fp<T>::get(w));
	T e = ref(x, RI, CCM_CONSTEXPR_ROUNDING_MODE);
	T g = ccm::rint(x), h = ccm::nearbyint(x);
	if (!same(g, e)) MC_RET(false, "rint=" + show(g), show(e));
	MC_RET(same(h, e), "nearbyint=" + show(h), show(e));
#else
	return true;
#endif
}
template <class T> static auto moded(const T & g) { return [&g](u64 i, u64 * w) { w[0] = i & 3; g(i >> 2, w + 1); }; }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
#ifdef MC_CTMODE
	{ static Grid<float> g(14); explore("ctmode f32", 1, 2, g.n(), g, j_ctmode<float>); static Grid<double> d(8); explore("ctmode f64", 1, 2, d.n(), d, j_ctmode<double>);
	  static Ties<float> tf; explore("ctmode ties f32", 1, 2, tf.n(), tf, j_ctmode<float>); static Ties<double> td; explore("ctmode ties f64", 1, 2, td.n(), td, j_ctmode<double>); static Ties<long double> tl; explore("ctmode ties f80", 2, 2, tl.n(), tl, j_ctmode<long double>); }
	return;
#endif
#ifndef MC_MODES
	static Grid<float> gf(thorough ? 23 : MC_F32K);
	explore("grid f32", 1, 6, gf.n(), gf, j_all<float>);
	static Grid<double> gd(thorough ? 13 : 9), gd2(thorough ? 20 : 15, 1020, 1080);
	explore("grid f64", 1, 6, gd.n(), gd, j_all<double>);
	explore("dense f64", 1, 6, gd2.n(), gd2, j_all<double>);
	static Grid<long double> gl(thorough ? 8 : 4), gl2(thorough ? 18 : 13, 16380, 16450);
	explore("grid f80", 2, 6, gl.n(), gl, j_all<long double>);
	explore("dense f80", 2, 6, gl2.n(), gl2, j_all<long double>);
	static Ties<float> tf; static Ties<double> td; static Ties<long double> tl;
	explore("ties f32", 1, 6, tf.n(), tf, j_all<float>);
	explore("ties f64", 1, 6, td.n(), td, j_all<double>);
	explore("ties f80", 2, 6, tl.n(), tl, j_all<long double>);
	static std::vector<float> sf = specials<float>(); sf.push_back(snan_of<float>());
	static std::vector<double> sd = specials<double>(); sd.push_back(snan_of<double>());
	static std::vector<long double> sl = specials<long double>(); sl.push_back(snan_of<long double>());
	explore("specials f32", 1, 6, sf.size(), gen1(sf), j_all<float>);
	explore("specials f64", 1, 6, sd.size(), gen1(sd), j_all<double>);
	explore("specials f80", 2, 6, sl.size(), gen1(sl), j_all<long double>);
	ints<signed char>("int8"); ints<unsigned char>("uint8"); ints<short>("int16"); ints<unsigned short>("uint16"); ints<int>("int32"); ints<unsigned>("uint32"); ints<long>("int64"); ints<unsigned long>("uint64"); ints<long long>("llong"); ints<unsigned long long>("ullong");
#else
	{
		static Ties<float> tf; static Ties<double> td; static Ties<long double> tl;
		static Grid<float> mf(thorough ? 23 : 13); static Grid<double> md(thorough ? 12 : 8); static Grid<double> md2(thorough ? 17 : 12, 1020, 1080); static Grid<long double> ml(thorough ? 14 : 9, 16380, 16450);
		static auto a = moded(mf); static auto b = moded(md); static auto b2 = moded(md2); static auto c = moded(ml); static auto d = moded(tf); static auto e = moded(td); static auto f = moded(tl);
		explore("modes f32", 2, 6, 4 * mf.n(), a, j_mode<float>);
		explore("modes f64", 2, 6, 4 * md.n(), b, j_mode<double>);
		explore("modes dense f64", 2, 6, 4 * md2.n(), b2, j_mode<double>);
		explore("modes f80", 3, 6, 4 * ml.n(), c, j_mode<long double>);
		explore("modes ties f32", 2, 6, 4 * tf.n(), d, j_mode<float>);
		explore("modes ties f64", 2, 6, 4 * td.n(), e, j_mode<double>);
		explore("modes ties f80", 3, 6, 4 * tl.n(), f, j_mode<long double>);
	}
#endif
}
