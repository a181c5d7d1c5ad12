// C29 SIMD values and masks act lane by lane
#include "simd_pp.hpp"
using namespace mc;
template <class T> static bool ovf_add(T a, T b) { if constexpr (std::is_signed_v<T> && !isf<T> && sizeof(T) >= 4) { T r; return __builtin_add_overflow(a, b, &r); } else return false; }
template <class T> static bool ovf_sub(T a, T b) { if constexpr (std::is_signed_v<T> && !isf<T> && sizeof(T) >= 4) { T r; return __builtin_sub_overflow(a, b, &r); } else return false; }
template <class T> static bool ovf_mul(T a, T b) { if constexpr (!isf<T> && sizeof(T) == 2) { if (!std::is_signed_v<T>) return static_cast<long long>(a) * static_cast<long long>(b) > INT_MAX; } if constexpr (std::is_signed_v<T> && !isf<T> && sizeof(T) >= 4) { T r; return __builtin_mul_overflow(a, b, &r); } else return false; }
template <class T> static bool bad_div(T a, T b) { if constexpr (isf<T>) return false; else return b == T(0) || (std::is_signed_v<T> && a == std::numeric_limits<T>::min() && b == T(-1)); }
template <class T> static bool bad_shift(T a, T b) { (void)a; if constexpr (isf<T>) return true; else return b < T(0) || static_cast<unsigned long long>(b) >= sizeof(T) * 8; }
template <class T> static T shl(T a, T b) { if constexpr (isf<T>) return a; else return static_cast<T>(static_cast<unsigned long long>(a) << static_cast<int>(b)); }
template <class T> static T shr(T a, T b) { if constexpr (isf<T>) return a; else return static_cast<T>(a >> static_cast<int>(b)); }
#define ARITH(OP, BADF, EXPR) { T a[N], b[N], e[N]; for (int i = 0; i < N; ++i) { a[i] = a0[i]; b[i] = b0[i]; if (BADF(a[i], b[i])) { a[i] = T(6); b[i] = T(2); } T x = a[i], y = b[i]; e[i] = static_cast<T>(EXPR); } barrier(a); barrier(b); \
	V<T, N> va(a), vb(b), c = va OP vb; chk<T, N>(r, #OP, c, e); V<T, N> d = va; d OP##= vb; chk<T, N>(r, #OP "=", d, e); chk<T, N>(r, "left operand of " #OP, va, a); chk<T, N>(r, "right operand of " #OP, vb, b); }
#define CMP(OP) { u64 e = 0; for (int i = 0; i < N; ++i) if (a0[i] OP b0[i]) e |= 1ull << i; chkm(r, #OP, va OP vb, e); }
template <class T, int N> static bool j_bin(const u64 * w, Rep * rep)
{
	Bad r(rep); T a0[N], b0[N]; fill<T, N>(w, a0, b0);
	ARITH(+, ovf_add, x + y) ARITH(-, ovf_sub, x - y) ARITH(*, ovf_mul, x * y) ARITH(/, bad_div, x / y)
	if constexpr (!isf<T>)
	{
		ARITH(%, bad_div, x % y) ARITH(<<, bad_shift, shl(x, y)) ARITH(>>, bad_shift, shr(x, y))
		auto never = [](T, T) { return false; };
		ARITH(&, never, x & y) ARITH(|, never, x | y) ARITH(^, never, x ^ y)
		{ T e[N]; for (int i = 0; i < N; ++i) e[i] = static_cast<T>(~a0[i]); chk<T, N>(r, "~", ~V<T, N>(a0), e); }
	}
	{
		T a[N], e[N]; for (int i = 0; i < N; ++i) { a[i] = ovf_sub(T(0), a0[i]) ? T(9) : a0[i]; e[i] = static_cast<T>(-a[i]); } barrier(a);
		V<T, N> va(a); chk<T, N>(r, "unary -", -va, e); chk<T, N>(r, "unary +", +va, a);
	}
	V<T, N> va(a0), vb(b0);
	{
		CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
		T e[N]; for (int i = 0; i < N; ++i) e[i] = a0[i] < b0[i] ? a0[i] : b0[i]; chk<T, N>(r, "select(a<b,a,b)", pp::simd_select(va < vb, va, vb), e);
	}
	// broadcast (also implicitly, in a mixed expression), generator, proxies
	{
		T s = b0[0]; T e[N]; for (int i = 0; i < N; ++i) e[i] = s; chk<T, N>(r, "broadcast", V<T, N>(s), e);
		if constexpr (isf<T> || sizeof(T) <= 2 || !std::is_signed_v<T>) { T a[N]; for (int i = 0; i < N; ++i) { a[i] = a0[i]; e[i] = static_cast<T>(a[i] + s); } chk<T, N>(r, "v + scalar", va + s, e); for (int i = 0; i < N; ++i) e[i] = static_cast<T>(s + a[i]); chk<T, N>(r, "scalar + v", s + va, e); }
		for (int i = 0; i < N; ++i) e[i] = a0[N - 1 - i]; chk<T, N>(r, "generator", V<T, N>([&](auto i) { return a0[N - 1 - static_cast<int>(i)]; }), e);
		V<T, N> p = va; const V<T, N> & cp = p; for (int i = 0; i < N; ++i) e[i] = a0[i];
		for (int i = 0; i < N; ++i) { if (!lsame(cp[i], e[i]) || !lsame(static_cast<T>(p[i]), e[i])) r.say("[" + std::to_string(i) + "] = " + lshow(cp[i]), lshow(e[i])); }
		for (int i = 0; i < N; ++i) { p[i] = b0[i]; e[i] = b0[i]; chk<T, N>(r, "proxy assignment", p, e); if (!r.ok) break; }
	}
	return r.ok;
}
// masks: a lone pattern and pairs
template <class T, int N> static bool j_mask1(const u64 * w, Rep * rep)
{
	Bad r(rep); u64 p = w[0] & full(N), junk = N < 64 ? (w[0] * 0x9e3779b97f4a7c15ull) & ~full(N) : 0; using M = K<T, N>;
	M m = M::from_bits(hide(p | junk)); chkm(r, "from_bits", m, p);
	for (int i = 0; i < N; ++i) if (m[i] != ((p >> i & 1) != 0)) r.say("mask[" + std::to_string(i) + "]", "bit " + std::to_string(p >> i & 1));
	std::bitset<static_cast<size_t>(N)> b = m.to_bitset(); for (int i = 0; i < N; ++i) if (b[static_cast<size_t>(i)] != ((p >> i & 1) != 0)) r.say("to_bitset bit " + std::to_string(i), "mask bit");
	chkm(r, "!", !m, ~p & full(N)); chkm(r, "~", ~m, ~p & full(N)); chkm(r, "!!", !!m, p);
	chkm(r, "mask(true)", M(true), full(N)); chkm(r, "mask(false)", M(false), 0); chkm(r, "m==m", m == m, full(N)); chkm(r, "m!=m", m != m, 0);
	// the whole-true and whole-false masks as operands
	const M t(hide(1) != 0), f(hide(0) != 0); auto fl = full(N);
	chkm(r, "!mask(true)", !t, 0); chkm(r, "!mask(false)", !f, fl); chkm(r, "mask(true)==mask(true)", t == M(true), fl); chkm(r, "mask(true)!=mask(false)", t != f, fl);
	chkm(r, "m & mask(true)", m & t, p); chkm(r, "mask(true) & m", t & m, p); chkm(r, "m & mask(false)", m & f, 0); chkm(r, "m | mask(true)", m | t, fl); chkm(r, "m | mask(false)", m | f, p); chkm(r, "mask(false) | m", f | m, p);
	chkm(r, "m ^ mask(true)", m ^ t, ~p & fl); chkm(r, "mask(true) ^ m", t ^ m, ~p & fl); chkm(r, "m ^ mask(false)", m ^ f, p); chkm(r, "m == mask(true)", m == t, p); chkm(r, "m == mask(false)", m == f, ~p & fl); chkm(r, "m != mask(true)", m != t, ~p & fl); chkm(r, "m != mask(false)", m != f, p);
	chkm(r, "mask(false)==mask(false)", f == M(false), fl);
	{ T a[N], b[N]; for (int i = 0; i < N; ++i) { a[i] = T(3); b[i] = T(4); } V<T, N> va(a), vb(b); V<T, N> x = va; T e[N]; chk<T, N>(r, "select(mask(true))", pp::simd_select(t, va, vb), a); chk<T, N>(r, "select(mask(false))", pp::simd_select(f, va, vb), b);
	  for (int i = 0; i < N; ++i) e[i] = p >> i & 1 ? a[i] : b[i]; chk<T, N>(r, "select(m ^ mask(true))", pp::simd_select(m ^ t, vb, va), e); chk<T, N>(r, "select(!m)", pp::simd_select(!m, vb, va), e); pp::where(t, x) = vb; chk<T, N>(r, "where(mask(true))", x, b); x = va; pp::where(f, x) = vb; chk<T, N>(r, "where(mask(false))", x, a); }
	if (M::size() != N || V<T, N>::size() != N) r.say("size", std::to_string(N));
	return r.ok;
}
template <class T, int N> static bool j_mask2(const u64 * w, Rep * rep)
{
	Bad r(rep); using M = K<T, N>; u64 p = w[0], q = w[1]; M a = M::from_bits(hide(p)), b = M::from_bits(hide(q));
	chkm(r, "&", a & b, p & q); chkm(r, "|", a | b, p | q); chkm(r, "^", a ^ b, p ^ q); chkm(r, "&&", a && b, p & q); chkm(r, "||", a || b, p | q);
	chkm(r, "==", a == b, ~(p ^ q) & full(N)); chkm(r, "!=", a != b, p ^ q);
	// the same pair with masks that comparisons of values returned, and of mixed origin
	T ta[N], tb[N], z[N]; for (int i = 0; i < N; ++i) { ta[i] = p >> i & 1 ? T(1) : T(2); tb[i] = q >> i & 1 ? T(0) : T(3); z[i] = T(1); } barrier(ta); barrier(tb); V<T, N> va(ta), vb(tb), vz(z); M c = va == vz, d = vb < vz;
	chkm(r, "cmp", c, p); chkm(r, "cmp", d, q); chkm(r, "cmp & cmp", c & d, p & q); chkm(r, "cmp | bits", c | b, p | q); chkm(r, "bits ^ cmp", a ^ d, p ^ q); chkm(r, "cmp ^ bits", c ^ b, p ^ q); chkm(r, "bits == cmp", a == d, ~(p ^ q) & full(N)); chkm(r, "cmp != bits", c != b, p ^ q); chkm(r, "!(cmp ^ bits)", !(c ^ b), ~(p ^ q) & full(N)); chkm(r, "(bits == cmp) && cmp", (a == c) && d, q); chkm(r, "(bits != cmp) || cmp", (b != d) || c, p);
	return r.ok;
}
// select and where with a mask pattern
#define WH(OP, BADF, EXPR) { T a[N], b[N], e[N]; for (int i = 0; i < N; ++i) { a[i] = a0[i]; b[i] = b0[i]; bool s = m >> i & 1; if (BADF(a[i], b[i], s)) { a[i] = T(6); b[i] = T(2); } T x = a[i], y = b[i]; e[i] = s ? static_cast<T>(EXPR) : x; } barrier(a); barrier(b); V<T, N> va(a), vb(b); pp::where(k, va) OP vb; chk<T, N>(r, "where " #OP, va, e); }
template <class T, int N> static bool j_where(const u64 * w, Rep * rep)
{
	Bad r(rep); {
		T a0[N], b0[N]; u64 f[3] = {w[0], w[0] * 5 + 3, static_cast<u64>(N)}; u64 m = w[1]; fill<T, N>(f, a0, b0); auto k = K<T, N>::from_bits(hide(m));
		T e[N]; for (int i = 0; i < N; ++i) e[i] = m >> i & 1 ? a0[i] : b0[i]; chk<T, N>(r, "select", pp::simd_select(k, V<T, N>(a0), V<T, N>(b0)), e);
		// the operation is carried out in the selected lanes only: a zero divisor in another lane is of no consequence
		auto d1 = [](T a, T b, bool s) { return s && bad_div(a, b); }; auto nv = [](T, T, bool) { return false; }; auto ad = [](T a, T b, bool) { return ovf_add(a, b); }; auto sb = [](T a, T b, bool) { return ovf_sub(a, b); }; auto ml = [](T a, T b, bool) { return ovf_mul(a, b); };
		WH(=, nv, y) WH(+=, ad, x + y) WH(-=, sb, x - y) WH(*=, ml, x * y) WH(/=, d1, x / y)
		{ V<T, N> va(a0); T s = b0[0]; for (int i = 0; i < N; ++i) e[i] = m >> i & 1 ? s : a0[i]; pp::where(k, va) = s; chk<T, N>(r, "where = scalar", va, e); }
	}
	return r.ok;
}
// memory: a page followed by an inaccessible one; every load and store ends at the boundary or sits inside a filled page
struct Page { char * p; size_t n = 4096; Page() { p = static_cast<char *>(mmap(nullptr, 3 * n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); mprotect(p, n, PROT_NONE); mprotect(p + 2 * n, n, PROT_NONE); p += n; } };
static Page & page() { static thread_local Page p; return p; }
template <class T, int N> static bool j_mem(const u64 * w, Rep * rep)
{
	Bad r(rep); char * pg = page().p; constexpr int S = 2 * N + 8; int off = static_cast<int>(w[0]); bool atend = w[1] & 1, flags = w[1] & 2;
	// atend: the window of S elements ends at the page end; otherwise starts at page start
	T * base = reinterpret_cast<T *>(atend ? pg + 4096 - S * sizeof(T) : pg); T img[S]; for (int i = 0; i < S; ++i) { img[i] = ordinary<T>(i * 3 + 1, 0); base[i] = img[i]; } barrier(*base);
	T * p = atend ? base + (S - N - off) : base + off; T e[N]; for (int i = 0; i < N; ++i) e[i] = img[p - base + i];
	auto unchanged = [&](const char * what) { barrier(*base); T g[S]; for (int i = 0; i < S; ++i) g[i] = base[i]; lanes(r, what, g, img, S); };
	if (flags)
	{ // aligned and over-aligned accesses, at addresses that keep the promise
		uintptr_t u = reinterpret_cast<uintptr_t>(p); size_t need = sizeof(T) * N;
		if (u % need) return true;
		V<T, N> v(p, pp::simd_flag_aligned); chk<T, N>(r, "load aligned", v, e); V<T, N> v2; v2.copy_from(p, pp::vector_aligned); chk<T, N>(r, "copy_from aligned", v2, e);
		T x[N]; for (int i = 0; i < N; ++i) { x[i] = ordinary<T>(N - i, 1); img[p - base + i] = x[i]; } V<T, N> y(x); y.copy_to(p, pp::simd_flag_aligned); unchanged("store aligned");
		if (u % 64 == 0) { V<T, N> v3; v3.copy_from(p, pp::simd_flag_overaligned<64>); chk<T, N>(r, "copy_from overaligned", v3, x); for (int i = 0; i < N; ++i) { x[i] = ordinary<T>(i, 1); img[p - base + i] = x[i]; } V<T, N> z(x); z.copy_to(p, pp::simd_flag_overaligned<64>); unchanged("store overaligned"); }
		return r.ok;
	}
	V<T, N> v(p); chk<T, N>(r, "load", v, e); V<T, N> v2; v2.copy_from(p); chk<T, N>(r, "copy_from", v2, e); V<T, N> v3; v3.copy_from(p, pp::simd_flag_default); chk<T, N>(r, "copy_from default", v3, e); unchanged("memory after a load");
	T x[N]; for (int i = 0; i < N; ++i) { x[i] = ordinary<T>(N - i, 1); img[p - base + i] = x[i]; } V<T, N> y(x); y.copy_to(p); unchanged("store"); chk<T, N>(r, "stored vector", y, x);
	return r.ok;
}
template <class T, int N> static bool j_mmem(const u64 * w, Rep * rep)
{ // masked: lanes beyond the last selected one lie in the inaccessible page
	Bad r(rep); {
		char * pg = page().p; u64 m = w[0]; int hi = 0, lo = N; for (int i = 0; i < N; ++i) if (m >> i & 1) { hi = i + 1; lo = std::min(lo, i); }
		bool front = w[1] & 1; if (front && m == 0) lo = 0;
		T * p = front ? reinterpret_cast<T *>(pg) - lo : reinterpret_cast<T *>(pg + 4096) - hi; constexpr int S = 2 * N; T * base = front ? reinterpret_cast<T *>(pg) : reinterpret_cast<T *>(pg + 4096) - S; T img[S];
		for (int i = 0; i < S; ++i) { img[i] = ordinary<T>(i + 5, 0); base[i] = img[i]; } barrier(*base);
		auto k = K<T, N>::from_bits(hide(m)); T x[N], e[N]; for (int i = 0; i < N; ++i) { x[i] = ordinary<T>(3 * i + 2, 1); e[i] = m >> i & 1 ? img[p - base + i] : x[i]; } barrier(x);
		V<T, N> v(x); pp::where(k, v).copy_from(p); chk<T, N>(r, "masked copy_from", v, e);
		for (int i = 0; i < N; ++i) if (m >> i & 1) img[p - base + i] = x[i];
		V<T, N> y(x); pp::where(k, y).copy_to(p); chk<T, N>(r, "masked copy_to source", y, x); barrier(*base); { T g[S]; for (int i = 0; i < S; ++i) g[i] = base[i]; lanes(r, "masked copy_to", g, img, S); }
		T z[N]; for (int i = 0; i < N; ++i) { z[i] = ordinary<T>(2 * i + 7, 1); if (m >> i & 1) img[p - base + i] = z[i]; } const V<T, N> c(z); pp::where(k, c).copy_to(p); barrier(*base); { T g[S]; for (int i = 0; i < S; ++i) g[i] = base[i]; lanes(r, "const masked copy_to", g, img, S); }
	}
	return r.ok;
}
// operation sequences on two registers, a mask and a memory cell, against an array model
template <class T, int N> struct St { V<T, N> a, b; K<T, N> m; T ma[N], mb[N]; u64 mm; };
template <class T, int N> static void step(St<T, N> & s, int op)
{
	auto fl = full(N); T t[N];
	switch (op)
	{
	case 0: s.a += s.b; for (int i = 0; i < N; ++i) s.ma[i] = static_cast<T>(s.ma[i] + s.mb[i]); break;
	case 1: s.b = s.a - s.b; for (int i = 0; i < N; ++i) s.mb[i] = static_cast<T>(s.ma[i] - s.mb[i]); break;
	case 2: s.a = s.a * s.b; for (int i = 0; i < N; ++i) s.ma[i] = isf<T> ? static_cast<T>(s.ma[i] * s.mb[i]) : static_cast<T>(static_cast<u64>(s.ma[i]) * static_cast<u64>(s.mb[i])); break;
	case 3: std::swap(s.a, s.b); for (int i = 0; i < N; ++i) std::swap(s.ma[i], s.mb[i]); break;
	case 4: s.m = s.a < s.b; s.mm = 0; for (int i = 0; i < N; ++i) if (s.ma[i] < s.mb[i]) s.mm |= 1ull << i; break;
	case 5: s.m = !s.m; s.mm = ~s.mm & fl; break;
	case 6: s.m = s.m && (s.a != s.b); for (int i = 0; i < N; ++i) if (!(s.ma[i] != s.mb[i])) s.mm &= ~(1ull << i); break;
	case 7: pp::where(s.m, s.a) = s.b; for (int i = 0; i < N; ++i) if (s.mm >> i & 1) s.ma[i] = s.mb[i]; break;
	case 8: pp::where(s.m, s.b) += s.a; for (int i = 0; i < N; ++i) if (s.mm >> i & 1) s.mb[i] = static_cast<T>(s.mb[i] + s.ma[i]); break;
	case 9: s.b = pp::simd_select(s.m, s.b, s.a); for (int i = 0; i < N; ++i) if (!(s.mm >> i & 1)) s.mb[i] = s.ma[i]; break;
	case 10: s.a[N - 1] = s.b[0]; s.ma[N - 1] = s.mb[0]; break;
	case 11: s.a[0] = static_cast<const V<T, N> &>(s.a)[N / 2]; s.ma[0] = s.ma[N / 2]; break;
	case 12: s.a = -s.a; for (int i = 0; i < N; ++i) s.ma[i] = static_cast<T>(isf<T> ? -s.ma[i] : static_cast<T>(T(0) - s.ma[i])); break;
	case 13: { T buf[2 * N]; s.a.copy_to(buf); s.b.copy_to(buf + N); barrier(buf); s.a.copy_from(buf + N / 2); for (int i = 0; i < N; ++i) { int j = i + N / 2; t[i] = j < N ? s.ma[j] : s.mb[j - N]; } for (int i = 0; i < N; ++i) s.ma[i] = t[i]; break; }
	case 14: { T buf[N]; s.b.copy_to(buf); barrier(buf); pp::where(s.m, s.a).copy_from(buf); for (int i = 0; i < N; ++i) if (s.mm >> i & 1) s.ma[i] = s.mb[i]; break; }
	case 15: s.a = V<T, N>(static_cast<const V<T, N> &>(s.b)[N - 1]); for (int i = N - 1; i >= 0; --i) s.ma[i] = s.mb[N - 1]; break;
	case 16: s.m = s.m ^ K<T, N>::from_bits(0x6b); s.mm = (s.mm ^ 0x6b) & fl; break;
	case 17: if constexpr (!isf<T>) { s.b = ~s.b ^ (s.a & s.b); for (int i = 0; i < N; ++i) s.mb[i] = static_cast<T>(~s.mb[i] ^ (s.ma[i] & s.mb[i])); } else { s.b = s.b / s.a; for (int i = 0; i < N; ++i) s.mb[i] = s.mb[i] / s.ma[i]; } break;
	}
}
static constexpr int NOPS = 18;
template <class T, int N> static bool j_seq(const u64 * w, Rep * rep)
{
	Bad r(rep); {
		St<T, N> s; u64 q = w[0]; int depth = static_cast<int>(w[1]); u64 f[3] = {w[2], w[2] * 3 + 1, w[2] & 1 ? static_cast<u64>(N) : static_cast<u64>(N / 2)}; fill<T, N>(f, s.ma, s.mb); s.mm = (w[2] * 0x35) & full(N);
		s.a = V<T, N>(s.ma); s.b = V<T, N>(s.mb); s.m = K<T, N>::from_bits(s.mm);
		for (int d = 0; d < depth; ++d) { step<T, N>(s, static_cast<int>(q % NOPS)); q /= NOPS; }
		chk<T, N>(r, "a", s.a, s.ma); chk<T, N>(r, "b", s.b, s.mb); chkm(r, "m", s.m, s.mm);
	}
	return r.ok;
}
// conversions
template <class T, class U> static bool fits(T x)
{
	if constexpr (isf<T> && !isf<U>) { long double l = std::trunc(static_cast<long double>(x)); return x == x && l >= static_cast<long double>(std::numeric_limits<U>::min()) && l <= static_cast<long double>(std::numeric_limits<U>::max()); }
	else if constexpr (isf<T> && isf<U>) return !(x == x) || std::isinf(x) || std::fabs(static_cast<long double>(x)) <= static_cast<long double>(std::numeric_limits<U>::max());
	else return true;
}
template <class T, class U, int N> static bool j_conv(const u64 * w, Rep * rep)
{
	Bad r(rep); T a[N], b[N]; u64 f[3] = {w[0], w[0], w[1]}; fill<T, N>(f, a, b); U e[N]; for (int i = 0; i < N; ++i) { if (!fits<T, U>(a[i])) a[i] = T(i + 1); e[i] = static_cast<U>(a[i]); } barrier(a);
	V<T, N> v(a); chk<U, N>(r, "static_simd_cast", V<U, N>(pp::static_simd_cast<U>(v)), e);
	if constexpr (!std::is_same_v<T, U>) { V<U, N> c(v); chk<U, N>(r, "converting constructor", c, e); }
	if constexpr (sizeof(T) == sizeof(U)) { V<U, N> c = pp::simd_bit_cast<U>(v); U g[N]; c.copy_to(g); if (std::memcmp(g, a, sizeof g)) r.say("simd_bit_cast", "the same bits"); }
	if (!std::is_same_v<pp::rebind_simd_t<U, V<T, N>>, V<U, N>> || !std::is_same_v<pp::resize_simd_t<N, V<T, N == 1 ? 2 : 1>>, V<T, N>> || pp::simd_size_v<T, typename V<T, N>::abi_type> != N) r.say("rebind/resize/size", std::to_string(N));
	return r.ok;
}
template <class T, class U, int N> static void conv() { explore((new std::string(std::string("convert ") + tname<T>() + " " + nm<U, N>("")))->c_str(), 2, N * 3, elems<T>().size() * (N + 1), [](u64 i, u64 * w) { w[0] = i % elems<T>().size(); w[1] = static_cast<u64>(N) - i / elems<T>().size(); }, j_conv<T, U, N>); }
template <class T, int N> static void all()
{
	if constexpr (N <= maxlanes<T>)
	{
		explore(nm<T, N>("operators"), 3, 40, fill_n<T, N>(), fill_gen<T, N>, j_bin<T, N>);
		static auto & ms = masks(N); static auto & mm = masks(N, N > 8);
		static u64 nv = std::is_same_v<T, float> || std::is_same_v<T, double> || sizeof(T) == 1 ? 24 : elems<T>().size(), step_ = elems<T>().size() / nv ? elems<T>().size() / nv : 1; static u64 nm_ = mm.size() > 4096 ? 4096 : mm.size();
		explore(nm<T, N>("where"), 2, 8, nv * nm_, [](u64 i, u64 * w) { w[0] = i % nv * step_; w[1] = mm[i / nv]; }, j_where<T, N>);
		explore(nm<T, N>("memory"), 2, 6, 4 * static_cast<u64>(N + 8), [](u64 i, u64 * w) { w[0] = i % (N + 8); w[1] = i / (N + 8); }, j_mem<T, N>);
		explore(nm<T, N>("masked memory"), 2, 3, 2 * ms.size(), [](u64 i, u64 * w) { w[0] = ms[i / 2]; w[1] = i % 2; }, j_mmem<T, N>);
		static int D = thorough ? (N <= 8 ? 5 : 4) : (N <= 4 ? 4 : 3); static u64 P = 1; P = 1; for (int i = 0; i < D; ++i) P *= NOPS;
		explore(nm<T, N>("sequences"), 3, D, P * 4, [](u64 i, u64 * w) { w[0] = i % P; w[1] = static_cast<u64>(D); w[2] = i / P; }, j_seq<T, N>);
	}
}
template <class T, int N> static void maskall()
{
	if constexpr (N <= maxlanes<T>)
	{
		static auto & ms = masks(N); static auto & mp = masks(N, N > 8);
		explore(nm<T, N>("mask"), 1, 10, ms.size(), [](u64 i, u64 * w) { w[0] = ms[i]; }, j_mask1<T, N>);
		explore(nm<T, N>("mask pairs"), 2, 7, mp.size() * mp.size(), [](u64 i, u64 * w) { w[0] = mp[i % mp.size()]; w[1] = mp[i / mp.size()]; }, j_mask2<T, N>);
	}
}
template <class T> static void widths() { all<T, 1>(); all<T, 2>(); all<T, 4>(); all<T, 8>(); all<T, 16>(); all<T, 32>(); all<T, 64>(); }
template <class T> static void mwidths() { maskall<T, 1>(); maskall<T, 2>(); maskall<T, 4>(); maskall<T, 8>(); maskall<T, 16>(); maskall<T, 32>(); maskall<T, 64>(); }
template <class T, int N> static void convs()
{
	conv<T, int8_t, N>(); conv<T, uint8_t, N>(); conv<T, int16_t, N>(); conv<T, uint16_t, N>(); conv<T, int32_t, N>(); conv<T, uint32_t, N>(); conv<T, int64_t, N>(); conv<T, uint64_t, N>(); conv<T, float, N>(); conv<T, double, N>();
}
template <int N> static void convw() { convs<int8_t, N>(); convs<uint8_t, N>(); convs<int16_t, N>(); convs<uint16_t, N>(); convs<int32_t, N>(); convs<uint32_t, N>(); convs<int64_t, N>(); convs<uint64_t, N>(); convs<float, N>(); convs<double, N>(); }
void mc_main()
{
#if MC_PART == 1
	widths<float>(); widths<double>(); mwidths<int8_t>(); mwidths<int16_t>(); mwidths<int32_t>(); mwidths<int64_t>();
#elif MC_PART == 2
	widths<int32_t>(); widths<uint32_t>(); widths<int64_t>(); widths<uint64_t>();
#elif MC_PART == 3
	widths<int8_t>(); widths<uint8_t>(); widths<int16_t>(); widths<uint16_t>();
#elif MC_PART == 4
	widths<char>(); widths<wchar_t>(); widths<char16_t>(); widths<char32_t>(); widths<long long>(); widths<unsigned long long>();
#elif MC_PART == 5
	convw<1>(); convw<4>(); 
#elif MC_PART == 6
	convw<2>(); convw<8>();
#endif
}
