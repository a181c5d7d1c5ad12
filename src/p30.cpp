// C30 SIMD math, reductions, concatenation and splitting
#include "simd_pp.hpp"
using namespace mc;
// numbers: equality as numbers; for a NaN operand or two zeros either operand is right
template <class T> static bool minmax_ok(T g, T a, T b, bool mx)
{
	if constexpr (isf<T>) { if (!(a == a) || !(b == b)) return lsame(g, a) || lsame(g, b); }
	return g == (mx ? std::max(a, b) : std::min(a, b));
}
template <class T> static T ref1(int f, T x) { switch (f) { case 0: return std::sqrt(x); case 1: return std::floor(x); case 2: return std::ceil(x); case 3: return std::trunc(x); case 4: return std::round(x); default: return std::fabs(x); } }
template <class T, int N> static bool j_math(const u64 * w, Rep * rep)
{
	Bad r(rep); T a[N], b[N], e[N]; fill<T, N>(w, a, b); V<T, N> va(a), vb(b);
	auto mm = [&](const char * what, const V<T, N> & v, bool mx) { T g[N]; v.copy_to(g); barrier(g); for (int i = 0; i < N; ++i) if (!minmax_ok(g[i], a[i], b[i], mx)) r.say(std::string(what) + " lane " + std::to_string(i) + " = " + lshow(g[i]), "that of " + lshow(a[i]) + ", " + lshow(b[i])); };
	mm("min", pp::min(va, vb), false); mm("max", pp::max(va, vb), true);
	if constexpr (isf<T>)
	{
		static const char * nms[] = {"sqrt", "floor", "ceil", "trunc", "round", "fabs", "abs"};
		for (int f = 0; f < 7; ++f)
		{
			for (int i = 0; i < N; ++i) e[i] = ref1(f, a[i]);
			V<T, N> g = f == 0 ? pp::sqrt(va) : f == 1 ? pp::floor(va) : f == 2 ? pp::ceil(va) : f == 3 ? pp::trunc(va) : f == 4 ? pp::round(va) : f == 5 ? pp::fabs(va) : pp::abs(va);
			chk<T, N>(r, nms[f], g, e);
		}
		T c[N]; for (int i = 0; i < N; ++i) { c[i] = i & 1 ? -a[i] * b[i] : b[N - 1 - i]; e[i] = std::fma(a[i], b[i], c[i]); } barrier(c);
		chk<T, N>(r, "fma", pp::fma(va, vb, V<T, N>(c)), e);
	}
	else if constexpr (std::is_signed_v<T>)
	{ T s[N]; for (int i = 0; i < N; ++i) { s[i] = a[i] == std::numeric_limits<T>::min() ? T(-5) : a[i]; e[i] = s[i] < 0 ? static_cast<T>(-s[i]) : s[i]; } barrier(s); chk<T, N>(r, "abs", pp::abs(V<T, N>(s)), e); }
	return r.ok;
}
// exp, log, pow: within 2 ulp of a wider evaluation in every lane
template <class T, int N> static bool j_trans(const u64 * w, Rep * rep)
{
	Bad r(rep); using R = typename Fp<T>::R; T a[N], b[N], g[N]; fill<T, N>(w, a, b);
	if (w[0] & 1) for (int i = 0; i < N; ++i) { if (std::fabs(a[i]) > 100) a[i] = std::copysign(T(1) + T(i) / 7, a[i]); if (std::fabs(b[i]) > 100) b[i] = T(i) - T(3.5); } // mostly finite results
	barrier(a); barrier(b); V<T, N> va(a), vb(b);
	auto cmp = [&](const char * what, const V<T, N> & v, auto ref) { v.copy_to(g); barrier(g); for (int i = 0; i < N; ++i) { R e = ref(static_cast<R>(a[i]), static_cast<R>(b[i])); if (!within<T>(g[i], e, 2.0)) r.say(std::string(what) + " lane " + std::to_string(i) + " = " + lshow(g[i]), show(e)); } };
	cmp("exp", pp::exp(va), [](R x, R) { return std::exp(x); }); cmp("log", pp::log(va), [](R x, R) { return std::log(x); }); cmp("pow", pp::pow(va, vb), [](R x, R y) { return std::pow(x, y); });
	return r.ok;
}
// horizontal: w = {ix, mask, mode}; mode 0: special lane pattern, 1: all rotating
template <class T> struct Wide { using type = std::conditional_t<isf<T>, long double, __int128>; };
template <class T, int N> static void hfill(const u64 * w, T * a)
{
	auto & A = elems<T>(); size_t n = A.size(); int k = static_cast<int>(w[0] / n % (N + 1)); size_t x = w[0] % n;
	for (int i = 0; i < N; ++i) { if (k == N) a[i] = A[(x + static_cast<size_t>(i) * 3) % n]; else a[i] = i == k ? A[x] : (i & 1 ? static_cast<T>(T(0) - ordinary<T>(i, 0)) : ordinary<T>(i, 0)); }
	barrier(*a);
}
template <class T> static bool sum_ok(const T * a, int n, u64 m, T g, T init)
{
	if constexpr (isf<T>)
	{
		long double s = init, t = std::fabs(static_cast<long double>(init)); bool pinf = false, ninf = false, nan = false; for (int i = 0; i < n; ++i) if (m >> i & 1) { if (a[i] != a[i]) nan = true; else if (std::isinf(a[i])) (a[i] > 0 ? pinf : ninf) = true; else { s += a[i]; t += std::fabs(static_cast<long double>(a[i])); } }
		if (nan || (pinf && ninf)) return g != g;
		if (pinf || ninf) return t > std::numeric_limits<T>::max() / 2 ? true : g == (pinf ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
		if (t > std::numeric_limits<T>::max() / 2) return true; // an intermediate sum may overflow
		return std::fabs(static_cast<long double>(g) - s) <= t * std::numeric_limits<T>::epsilon() * n;
	}
	else { u64 s = static_cast<u64>(init); for (int i = 0; i < n; ++i) if (m >> i & 1) s += static_cast<u64>(a[i]); return g == static_cast<T>(s); }
}
template <class T> static bool sum_overflows(const T * a, int n)
{ if constexpr (std::is_signed_v<T> && !isf<T> && sizeof(T) >= 4) { __int128 p = 0, q = 0; for (int i = 0; i < n; ++i) (a[i] > 0 ? p : q) += a[i]; return p > std::numeric_limits<T>::max() || q < std::numeric_limits<T>::min(); } else return false; }
template <class T, int N> static bool j_red(const u64 * w, Rep * rep)
{
	Bad r(rep); T a[N]; hfill<T, N>(w, a); u64 m = w[1]; bool whole = m == full(N);
	bool nan = false; for (int i = 0; i < N; ++i) if (a[i] != a[i]) nan = true;
	V<T, N> v(a); auto k = K<T, N>::from_bits(hide(m));
	auto rep1 = [&](const char * what, T g) { std::string l; for (int i = 0; i < N; ++i) if (m >> i & 1) l += " " + lshow(a[i]); r.say(std::string(what) + " = " + lshow(g), "over" + l); };
	if (!sum_overflows(a, N))
	{
		if (whole) { T g = pp::reduce(v); if (!sum_ok(a, N, m, g, T(0))) rep1("reduce", g); g = pp::reduce(v, std::plus<>{}); if (!sum_ok(a, N, m, g, T(0))) rep1("reduce plus", g); }
		{ T g = pp::reduce(v, k, T(0)); if (!sum_ok(a, N, m, g, T(0))) rep1("masked reduce", g); }
	}
	if constexpr (!isf<T>)
	{
		T x = 0, o = 0, n = static_cast<T>(~T(0)), p = 1; for (int i = 0; i < N; ++i) if (m >> i & 1) { x = static_cast<T>(x ^ a[i]); o = static_cast<T>(o | a[i]); n = static_cast<T>(n & a[i]); p = static_cast<T>(static_cast<u64>(p) * static_cast<u64>(a[i])); }
		T g = pp::reduce(v, k, T(0), std::bit_xor<>{}); if (g != x) rep1("masked xor", g); g = pp::reduce(v, k, T(0), std::bit_or<>{}); if (g != o) rep1("masked or", g); g = pp::reduce(v, k, static_cast<T>(~T(0)), std::bit_and<>{}); if (g != n) rep1("masked and", g);
		if (!std::is_signed_v<T> && sizeof(T) != 2) { g = pp::reduce(v, k, T(1), std::multiplies<>{}); if (g != p) rep1("masked product", g); }
		if (whole) { g = pp::reduce(v, std::bit_xor<>{}); if (g != x) rep1("xor", g); g = pp::reduce(v, std::bit_or<>{}); if (g != o) rep1("or", g); g = pp::reduce(v, std::bit_and<>{}); if (g != n) rep1("and", g); }
	}
	if (!nan)
	{ // the smallest and largest selected lane (as numbers); nothing selected gives the neutral element
		T lo = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(), hi = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest();
		for (int i = 0; i < N; ++i) if (m >> i & 1) { if (a[i] < lo) lo = a[i]; if (a[i] > hi) hi = a[i]; }
		T g = pp::reduce_min(v, k); if (g != lo) rep1("masked reduce_min", g); g = pp::reduce_max(v, k); if (g != hi) rep1("masked reduce_max", g);
		if (whole) { g = pp::reduce_min(v); if (g != lo) rep1("reduce_min", g); g = pp::reduce_max(v); if (g != hi) rep1("reduce_max", g); }
	}
	return r.ok;
}
template <class T, int N> static bool j_mred(const u64 * w, Rep * rep)
{
	Bad r(rep); u64 m = w[0]; auto k = K<T, N>::from_bits(hide(m)); int c = __builtin_popcountll(m), lo = m ? __builtin_ctzll(m) : N, hi = m ? 63 - __builtin_clzll(m) : N;
	auto is = [&](const char * what, long g, long e) { if (g != e) r.say(std::string(what) + " = " + std::to_string(g), std::to_string(e)); };
	is("all_of", pp::all_of(k), m == full(N)); is("any_of", pp::any_of(k), m != 0); is("none_of", pp::none_of(k), m == 0); is("reduce_count", pp::reduce_count(k), c);
	is("reduce_min_index", pp::reduce_min_index(k), lo); is("reduce_max_index", pp::reduce_max_index(k), hi);
	is("all_of(bool)", pp::all_of((m & 1) != 0), m & 1); is("any_of(bool)", pp::any_of((m & 1) != 0), m & 1); is("none_of(bool)", pp::none_of((m & 1) != 0), !(m & 1)); is("reduce_count(bool)", pp::reduce_count((m & 1) != 0), m & 1);
	// a mask that came from a comparison, not from bits
	if constexpr (isf<T>) { T a[N]; for (int i = 0; i < N; ++i) a[i] = m >> i & 1 ? T(i + 1) : (i % 3 == 0 ? std::numeric_limits<T>::quiet_NaN() : -T(i)); barrier(a); auto q = V<T, N>(a) > V<T, N>(T(0)); is("count of a comparison", pp::reduce_count(q), c); is("all_of a comparison", pp::all_of(q), m == full(N)); is("any_of a comparison", pp::any_of(q), m != 0); }
	return r.ok;
}
template <class T, int N> static T lane_id(int i) { if constexpr (isf<T>) return static_cast<T>(i) + T(0.5); else return static_cast<T>(i * 3 + 1); }
template <class T, int N> static bool j_cat(const u64 * w, Rep * rep)
{ // split a vector (and a mask) of N lanes into pieces of every width, and put them together again
	Bad r(rep); u64 m = w[0]; T a[N]; for (int i = 0; i < N; ++i) { a[i] = m >> i & 1 ? lane_id<T, N>(i) : static_cast<T>(T(0) - lane_id<T, N>(i)); } barrier(a); V<T, N> v(a); auto k = K<T, N>::from_bits(hide(m));
	auto piece = [&](auto pc) {
		constexpr int P = decltype(pc)::value;
		if constexpr (P <= N)
		{
			auto s = pp::simd_split<V<T, P>>(v); if (static_cast<int>(s.size()) != N / P) r.say("parts", std::to_string(N / P));
			for (int i = 0; i < N / P; ++i) chk<T, P>(r, "split", s[static_cast<size_t>(i)], a + i * P);
			auto ks = pp::simd_split<K<T, P>>(k); for (int i = 0; i < N / P; ++i) chkm(r, "mask split", ks[static_cast<size_t>(i)], m >> (i * P) & full(P));
			if constexpr (P * 2 == N) { chk<T, N>(r, "cat 2", pp::simd_cat(s[0], s[1]), a); chkm(r, "mask cat 2", pp::simd_cat(ks[0], ks[1]), m); T x[N]; for (int i = 0; i < N; ++i) x[i] = a[(i + P) % N]; chk<T, N>(r, "cat swapped", pp::simd_cat(s[1], s[0]), x); }
			if constexpr (P * 4 == N) { chk<T, N>(r, "cat 4", pp::simd_cat(s[0], s[1], s[2], s[3]), a); chkm(r, "mask cat 4", pp::simd_cat(ks[0], ks[1], ks[2], ks[3]), m); auto h = pp::simd_split<V<T, P * 2>>(v); auto kh = pp::simd_split<K<T, P * 2>>(k); chk<T, N>(r, "cat 1+1+2", pp::simd_cat(s[0], s[1], h[1]), a); chkm(r, "mask cat 1+1+2", pp::simd_cat(ks[0], ks[1], kh[1]), m); chk<T, N>(r, "cat 2+1+1", pp::simd_cat(h[0], s[2], s[3]), a); chkm(r, "mask cat 2+1+1", pp::simd_cat(kh[0], ks[2], ks[3]), m); }
			if constexpr (P == N) { chk<T, N>(r, "cat 1", pp::simd_cat(v), a); chkm(r, "mask cat 1", pp::simd_cat(k), m); }
		}
	};
	piece(std::integral_constant<int, 1>{}); piece(std::integral_constant<int, 2>{}); piece(std::integral_constant<int, 4>{}); piece(std::integral_constant<int, 8>{}); piece(std::integral_constant<int, 16>{}); piece(std::integral_constant<int, 32>{}); piece(std::integral_constant<int, 64>{});
	return r.ok;
}
template <class T, int N> static void all()
{
	if constexpr (N <= maxlanes<T>)
	{
		explore(nm<T, N>("math"), 3, 10, fill_n<T, N>(), fill_gen<T, N>, j_math<T, N>);
		if constexpr (isf<T>) explore(nm<T, N>("exp log pow"), 3, 3 * N, fill_n<T, N>(), fill_gen<T, N>, j_trans<T, N>);
		static auto & ms = masks(N); static auto & sm = masks(N, N > 8); static u64 ne = elems<T>().size() * (N + 1), st = sizeof(T) == 1 ? (N >= 32 ? 41 : 11) : 1; st = thorough ? 1 : st;
		explore(nm<T, N>("reduce"), 2, 12, ne / st * sm.size(), [](u64 i, u64 * w) { w[0] = i % (ne / st) * st; w[1] = sm[i / (ne / st)]; }, j_red<T, N>);
		explore(nm<T, N>("mask reductions"), 1, 13, ms.size(), [](u64 i, u64 * w) { w[0] = ms[i]; }, j_mred<T, N>);
		static auto & cm = masks(N, N > 8 && !thorough);
		explore(nm<T, N>("cat split"), 1, 20, cm.size(), [](u64 i, u64 * w) { w[0] = cm[i]; }, j_cat<T, N>);
	}
}
template <class T> static void widths() { all<T, 1>(); all<T, 2>(); all<T, 4>(); all<T, 8>(); all<T, 16>(); all<T, 32>(); all<T, 64>(); }
void mc_main()
{
#if MC_PART == 1
	widths<float>(); widths<double>();
#elif MC_PART == 2
	widths<int32_t>(); widths<uint32_t>(); widths<int64_t>(); widths<uint64_t>();
#elif MC_PART == 3
	widths<int8_t>(); widths<uint8_t>(); widths<int16_t>(); widths<uint16_t>();
#elif MC_PART == 4
	widths<char>(); widths<wchar_t>(); widths<char16_t>(); widths<char32_t>(); widths<long long>(); widths<unsigned long long>();
#endif
}
