// C26 integer helpers
#include "ext.hpp"
using namespace mc;
namespace ex = ccm::ext;
using W = __int128;
static std::string ws(W v) { return std::to_string(static_cast<long long>(v >> 64 == 0 || v >> 63 == -1 ? v : (v > 0 ? LLONG_MAX : LLONG_MIN))); }
#define RQ(cond, g, want) do { if (!(cond)) MC_RET(false, g, want); } while (0)
template <class I> static bool fits(W v) { return v >= std::numeric_limits<I>::min() && v <= std::numeric_limits<I>::max(); }
template <class I> static bool j_ceil(const u64 * w, Rep * r)
{
	I a = static_cast<I>(w[0]), b = static_cast<I>(w[1]);
	if (b == 0) { I s = ex::safe::ceil_div(hide(a), hide(b)); MC_RET(s == 0, ws(s), "0"); }
	if (a < 0 || b < 0) MC_RET(true, "", ""); // documented for non-negative values
	W e = (static_cast<W>(a) + b - 1) / b;
	I g = ex::ceil_div(hide(a), hide(b)), s = ex::safe::ceil_div(hide(a), hide(b));
	MC_RET(g == e && s == e, ws(g) + " " + ws(s), ws(e));
}
template <class I> static bool j_diff(const u64 * w, Rep * r)
{
	I a = static_cast<I>(w[0]), b = static_cast<I>(w[1]); W e = static_cast<W>(a) - b; if (e < 0) e = -e;
	if (!fits<I>(e)) MC_RET(true, "", "");
	I g = ex::abs_diff(hide(a), hide(b)); MC_RET(g == e, ws(g), ws(e));
}
template <class I> static bool j_pow2(const u64 * w, Rep * r)
{
	I a = static_cast<I>(w[0]); bool e = a > 0 && (static_cast<W>(a) & (static_cast<W>(a) - 1)) == 0;
	bool s = ex::safe::is_power_of_two(hide(a)), s2 = ex::safe::ispow2(hide(a));
	RQ(s == e && s2 == e, std::string("safe ") + (s ? "true " : "false ") + (s2 ? "true" : "false"), e ? "true" : "false");
	if (std::is_signed_v<I> && a == std::numeric_limits<I>::min()) MC_RET(true, "", ""); // documented: use the safe form
	bool g = ex::is_power_of_two(hide(a)), g2 = ex::ispow2(hide(a));
	MC_RET(g == e && g2 == e, g ? "true" : "false", e ? "true" : "false");
}
template <class I, std::size_t A> static bool al(I v, Rep * r, u64)
{
	W a = static_cast<W>(A), x = v, dn = x >= 0 ? x / a * a : -((-x + a - 1) / a * a), u = dn == x ? dn : dn + a;
	if (fits<I>(dn)) { I g = ex::align_down<I, A>(hide(v)), h = ex::align<I, A, ex::AlignmentRounding::Direction::eDOWN>(hide(v)); RQ(g == dn && h == dn, "down to " + std::to_string(A) + ": " + ws(g) + " " + ws(h), ws(dn)); }
	if (fits<I>(u) && fits<I>(x + a - 1)) { I g = ex::align_up<I, A>(hide(v)), h = ex::align<I, A, ex::AlignmentRounding::Direction::eUP>(hide(v)); RQ(g == u && h == u, "up to " + std::to_string(A) + ": " + ws(g) + " " + ws(h), ws(u)); }
	return true;
}
template <class I, std::size_t... K> static bool j_al(const u64 * w, Rep * r, std::index_sequence<K...>)
{
	I v = static_cast<I>(w[0]); bool ok = true;
	((ok = ok && al<I, (std::size_t(1) << K)>(v, r, K)), ...);
	if (ok && r) { r->got = "aligned"; }
	return ok;
}
// alignments that the type can represent
template <class I> static bool j_align(const u64 * w, Rep * r) { return j_al<I>(w, r, std::make_index_sequence<std::numeric_limits<I>::digits>{}); }
template <class I> static void run(const char * nm)
{
	auto cat = [nm](const char * a) { return (new std::string(std::string(a) + " " + nm))->c_str(); };
	constexpr int B = sizeof(I) * 8;
	if constexpr (B <= 16)
	{
		explore(cat("is_power_of_two"), 1, 4, 1ull << B, [](u64 i, u64 * w) { w[0] = i; }, j_pow2<I>);
		explore(cat("align"), 1, 2 * B, 1ull << B, [](u64 i, u64 * w) { w[0] = i; }, j_align<I>);
		static u64 st; st = B == 16 && !thorough ? 7 : 1;
		explore(cat("ceil_div all pairs"), 2, 2, (1ull << 2 * B) / st, [](u64 i, u64 * w) { i *= st; w[0] = i & ((1 << B) - 1); w[1] = i >> B; }, j_ceil<I>);
		explore(cat("abs_diff all pairs"), 2, 1, (1ull << 2 * B) / st, [](u64 i, u64 * w) { i *= st; w[0] = i & ((1 << B) - 1); w[1] = i >> B; }, j_diff<I>);
	}
	else
	{
		// every window of set bits, its neighbours, and its complement
		static std::vector<u64> v; v.clear();
		for (int hi = 0; hi <= B; ++hi) for (int lo = 0; lo <= hi; ++lo)
		{
			u64 x = (hi == 64 ? ~0ull : (1ull << hi) - 1) & ~(lo == 64 ? ~0ull : (1ull << lo) - 1);
			for (int d = -2; d <= 2; ++d) { v.push_back(x + static_cast<u64>(d)); v.push_back(~x + static_cast<u64>(d)); v.push_back(static_cast<u64>(std::numeric_limits<I>::max()) - x + static_cast<u64>(d)); }
		}
		for (u64 i = 0; i < 2000; ++i) { v.push_back(i); v.push_back(static_cast<u64>(std::numeric_limits<I>::max()) - i); v.push_back(0 - i); }
		for (auto & x : v) x = static_cast<u64>(static_cast<I>(x));
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
		static u64 n = v.size();
		explore(cat("is_power_of_two"), 1, 4, n, [](u64 i, u64 * w) { w[0] = v[i]; }, j_pow2<I>);
		explore(cat("align"), 1, 2 * B, n, [](u64 i, u64 * w) { w[0] = v[i]; }, j_align<I>);
		static u64 k = thorough ? 1 : 5, nk = n / k; // pairs: every value against every k-th
		explore(cat("ceil_div"), 2, 2, n * nk, [](u64 i, u64 * w) { w[0] = v[i / nk]; w[1] = v[i % nk * k + i / nk % k]; }, j_ceil<I>);
		explore(cat("ceil_div small"), 2, 2, n * 2000, [](u64 i, u64 * w) { w[0] = v[i / 2000]; w[1] = i % 2000; }, j_ceil<I>);
		explore(cat("abs_diff"), 2, 1, n * nk, [](u64 i, u64 * w) { w[0] = v[i / nk]; w[1] = v[i % nk * k + i / nk % k]; }, j_diff<I>);
		// 32-bit: every value, for the one-argument helpers
		if (B == 32 && thorough)
		{
			explore(cat("is_power_of_two all"), 1, 4, 1ull << 32, [](u64 i, u64 * w) { w[0] = i; }, j_pow2<I>);
			explore(cat("align all"), 1, 2 * B, 1ull << 32, [](u64 i, u64 * w) { w[0] = i; }, j_align<I>);
		}
	}
}
void mc_main()
{
	run<signed char>("int8"); run<unsigned char>("uint8"); run<short>("int16"); run<unsigned short>("uint16"); run<int>("int32"); run<unsigned>("uint32"); run<long>("int64"); run<unsigned long>("uint64"); run<unsigned long long>("unsigned long long"); run<char>("char");
}
