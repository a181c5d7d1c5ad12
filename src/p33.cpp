// C33 constants, bit utilities, checked arithmetic, masks and integer literals
#include "fp.hpp"
#ifdef MC_NOBUILTIN
	// what a compiler without the bit builtins sees
	#include "ccmath/internal/predef/has_builtin.hpp"
	#undef CCM_HAS_BUILTIN
	#define CCM_HAS_BUILTIN(b) 0
#endif
#include "lib.hpp"
#include "ccmath/internal/support/bits.hpp"
#include "ccmath/internal/support/ctz.hpp"
#include "ccmath/internal/support/integer_literals.hpp"
#include "ccmath/internal/support/math_support.hpp"
#include "ccmath/math/numbers.hpp"
#include <mpfr.h>
using namespace mc;
namespace cs = ccm::support;
using u128 = unsigned __int128;
// ---------------------------------------------------------------- constants
static const char * const cname[] = {"e", "log2e", "log10e", "pi", "inv_pi", "inv_sqrtpi", "ln2", "ln10", "sqrt2", "sqrt3", "inv_sqrt3", "egamma", "phi"};
static void cval(int k, mpfr_t v)
{
	mpfr_t t; mpfr_init2(t, 400);
	switch (k)
	{
	case 0: mpfr_set_ui(t, 1, MPFR_RNDN); mpfr_exp(v, t, MPFR_RNDN); break;
	case 1: mpfr_const_log2(t, MPFR_RNDN); mpfr_ui_div(v, 1, t, MPFR_RNDN); break;
	case 2: mpfr_set_ui(t, 10, MPFR_RNDN); mpfr_log(t, t, MPFR_RNDN); mpfr_ui_div(v, 1, t, MPFR_RNDN); break;
	case 3: mpfr_const_pi(v, MPFR_RNDN); break;
	case 4: mpfr_const_pi(t, MPFR_RNDN); mpfr_ui_div(v, 1, t, MPFR_RNDN); break;
	case 5: mpfr_const_pi(t, MPFR_RNDN); mpfr_rec_sqrt(v, t, MPFR_RNDN); break;
	case 6: mpfr_const_log2(v, MPFR_RNDN); break;
	case 7: mpfr_set_ui(t, 10, MPFR_RNDN); mpfr_log(v, t, MPFR_RNDN); break;
	case 8: mpfr_sqrt_ui(v, 2, MPFR_RNDN); break;
	case 9: mpfr_sqrt_ui(v, 3, MPFR_RNDN); break;
	case 10: mpfr_set_ui(t, 3, MPFR_RNDN); mpfr_rec_sqrt(v, t, MPFR_RNDN); break;
	case 11: mpfr_const_euler(v, MPFR_RNDN); break;
	default: mpfr_sqrt_ui(t, 5, MPFR_RNDN); mpfr_add_ui(t, t, 1, MPFR_RNDN); mpfr_div_ui(v, t, 2, MPFR_RNDN); break;
	}
	mpfr_clear(t);
}
namespace cn = ccm::numbers;
#define LST(T) {cn::e_v<T>, cn::log2e_v<T>, cn::log10e_v<T>, cn::pi_v<T>, cn::inv_pi_v<T>, cn::inv_sqrtpi_v<T>, cn::ln2_v<T>, cn::ln10_v<T>, cn::sqrt2_v<T>, cn::sqrt3_v<T>, cn::inv_sqrt3_v<T>, cn::egamma_v<T>, cn::phi_v<T>}
static const float cf[] = LST(float); static const double cd[] = LST(double); static const long double cl[] = LST(long double);
static const double cdef[] = {cn::e, cn::log2e, cn::log10e, cn::pi, cn::inv_pi, cn::inv_sqrtpi, cn::ln2, cn::ln10, cn::sqrt2, cn::sqrt3, cn::inv_sqrt3, cn::egamma, cn::phi};
static bool j_const(const u64 * w, Rep * r)
{
	int k = static_cast<int>(w[0]); mpfr_t v; mpfr_init2(v, 400); cval(k, v);
	mpfr_t q; mpfr_init2(q, w[1] == 0 ? 24 : w[1] == 2 ? 64 : 53); mpfr_set(q, v, MPFR_RNDN);
	long double e = mpfr_get_ld(q, MPFR_RNDN), g = w[1] == 0 ? static_cast<long double>(cf[k]) : w[1] == 1 ? static_cast<long double>(cd[k]) : w[1] == 2 ? cl[k] : static_cast<long double>(cdef[k]);
	mpfr_clear(v); mpfr_clear(q);
	char a[64], b[64]; std::snprintf(a, 64, "%s %La", cname[k], g); std::snprintf(b, 64, "%La", e);
	MC_RET(g == e, a, b);
}
// ---------------------------------------------------------------- unsigned values; two words hold up to 128 bits
template <class U> constexpr int W = static_cast<int>(sizeof(U) * 8);
template <class U> static U get(const u64 * w) { if constexpr (sizeof(U) > 8) return (static_cast<U>(w[1]) << 64) | w[0]; else return static_cast<U>(w[0]); }
template <class U> static void putw(U v, u64 * w) { w[0] = static_cast<u64>(v); if constexpr (sizeof(U) > 8) w[1] = static_cast<u64>(v >> 64); else w[1] = 0; }
template <class U> static std::string us(U v) { char b[64]; if constexpr (sizeof(U) > 8) std::snprintf(b, 64, "%llx:%016llx", static_cast<unsigned long long>(v >> 64), static_cast<unsigned long long>(v)); else std::snprintf(b, 64, "%llx", static_cast<unsigned long long>(v)); return b; }
// structured patterns: runs of ones (with wrap-around), and each of them with one more bit flipped
template <class U> static u64 npat() { return static_cast<u64>(W<U>) * W<U> * (W<U> + 1) + 2; }
template <class U> static U pat(u64 i)
{
	const int w = W<U>;
	if (i == 0) return 0; if (i == 1) return static_cast<U>(~U(0));
	i -= 2; int f = static_cast<int>(i % (w + 1)); i /= (w + 1); int len = static_cast<int>(i % w), pos = static_cast<int>(i / w);
	U v = 0; for (int k = 0; k <= len; ++k) v = static_cast<U>(v | (U(1) << ((pos + k) % w)));
	if (f < w) v = static_cast<U>(v ^ (U(1) << f));
	return v;
}
#define CHK(g, e, what) do { auto g_ = (g); auto e_ = (e); if (!(g_ == e_)) MC_RET(false, std::string(what) + " " + std::to_string(static_cast<long long>(g_)), std::to_string(static_cast<long long>(e_))); } while (0)
template <class U> static bool j_count(const u64 * w, Rep * r)
{
	const U v = get<U>(w); const int n = W<U>; int lz = 0, tz = 0, lo = 0, to = 0, pc = 0;
	for (int i = n - 1; i >= 0 && !(v >> i & 1); --i) ++lz;
	for (int i = 0; i < n && !(v >> i & 1); ++i) ++tz;
	for (int i = n - 1; i >= 0 && (v >> i & 1); --i) ++lo;
	for (int i = 0; i < n && (v >> i & 1); ++i) ++to;
	for (int i = 0; i < n; ++i) pc += static_cast<int>(v >> i & 1);
	CHK(cs::countl_zero(hide(v)), lz, "countl_zero"); CHK(cs::countr_zero(hide(v)), tz, "countr_zero");
	CHK(cs::countl_one(hide(v)), lo, "countl_one"); CHK(cs::countr_one(hide(v)), to, "countr_one");
	CHK(cs::bit_width(hide(v)), n - lz, "bit_width");
	CHK(cs::popcount(hide(v)), pc, "popcount");
	if constexpr (sizeof(U) <= 8)
	{
		CHK(cs::has_single_bit(hide(v)), pc == 1, "has_single_bit");
		if (v != 0) CHK(cs::ctz(hide(v)), tz, "ctz");
		if (v <= static_cast<U>(U(1) << (n - 1))) { U c = 1; while (c < v) c = static_cast<U>(c << 1); CHK(cs::bit_ceil(hide(v)), c, "bit_ceil"); }
	}
	MC_RET(true, "", "");
}
template <class U> static U rol(U v, int k) { const int n = W<U>; k = ((k % n) + n) % n; return k ? static_cast<U>((v << k) | (v >> (n - k))) : v; }
static const std::vector<int> & rots()
{
	static const std::vector<int> v = [] { std::vector<int> r; for (int i = -290; i <= 290; ++i) r.push_back(i); for (int d = 0; d <= 130; ++d) { r.push_back(INT_MAX - d); r.push_back(INT_MIN + d); } r.push_back(1 << 20); r.push_back(-(1 << 20) - 5); return r; }();
	return v;
}
template <class U> static bool j_rot(const u64 * w, Rep * r)
{
	const U v = get<U>(w); const int k = static_cast<int>(w[2]);
	U g = cs::rotl(hide(v), hide(k)), h = cs::rotr(hide(v), hide(k)), eg = rol(v, k % W<U>), eh = rol(v, -(k % W<U>));
	MC_RET(g == eg && h == eh, "rotl " + us(g) + " rotr " + us(h), us(eg) + " " + us(eh));
}
// ---------------------------------------------------------------- checked and carrying arithmetic
template <class I> static std::string is(I v) { return std::to_string(static_cast<long long>(v)); }
template <class I> static bool j_ovf(const u64 * w, Rep * r)
{
	I a = static_cast<I>(w[0]), b = static_cast<I>(w[1]); __int128 s = static_cast<__int128>(a) + b, d = static_cast<__int128>(a) - b;
	auto fits = [](__int128 x) { return x >= std::numeric_limits<I>::min() && x <= std::numeric_limits<I>::max(); };
	I rs = 0, rd = 0; bool os = cs::add_overflow(hide(a), hide(b), rs), od = cs::sub_overflow(hide(a), hide(b), rd);
	bool ok = os == !fits(s) && od == !fits(d) && (!fits(s) || rs == s) && (!fits(d) || rd == d);
	if constexpr (std::is_unsigned_v<I>) ok = ok && rs == static_cast<I>(s) && rd == static_cast<I>(d);
	MC_RET(ok, std::string(os ? "+ overflow " : "+ ") + is(rs) + (od ? " - overflow " : " - ") + is(rd), std::string(!fits(s) ? "+ overflow " : "+ ") + is(static_cast<I>(s)) + (!fits(d) ? " - overflow " : " - ") + is(static_cast<I>(d)));
}
template <class U> static bool j_carry(const u64 * w, Rep * r)
{
	U a = get<U>(w), b = get<U>(w + 2); U c = static_cast<U>(w[4]), co = 7, bo = 7;
	U s = cs::add_with_carry(hide(a), hide(b), hide(c), co), d = cs::sub_with_borrow(hide(a), hide(b), hide(c), bo);
	U es = static_cast<U>(a + b + c), ed = static_cast<U>(a - b - c); bool ec = es < a || (c && es == a), eb = a < b || (c && a == b);
	MC_RET(s == es && d == ed && co == static_cast<U>(ec) && bo == static_cast<U>(eb), us(s) + "," + us(co) + " " + us(d) + "," + us(bo), us(es) + "," + us<U>(ec) + " " + us(ed) + "," + us<U>(eb));
}
template <class U, std::size_t N> static bool mask(Rep * r)
{
	U t = 0; for (std::size_t i = 0; i < N; ++i) t = static_cast<U>(t | U(1) << i);
	U l = 0; for (std::size_t i = 0; i < N; ++i) l = static_cast<U>(l | U(1) << (W<U> - 1 - i));
	U a = cs::mask_trailing_ones<U, N>(), b = cs::mask_leading_ones<U, N>(), c = cs::mask_trailing_zeros<U, N>(), d = cs::mask_leading_zeros<U, N>();
	MC_RET(a == t && b == l && c == static_cast<U>(~t) && d == static_cast<U>(~l), us(a) + " " + us(b) + " " + us(c) + " " + us(d), us(t) + " " + us(l));
}
template <class U, std::size_t... N> static bool masks(u64 k, Rep * r, std::index_sequence<N...>) { using F = bool (*)(Rep *); static const F t[] = {mask<U, N>...}; return t[k](r); }
template <class U> static bool j_mask(const u64 * w, Rep * r) { return masks<U>(w[0], r, std::make_index_sequence<sizeof(U) * 8 + 1>{}); }
// ---------------------------------------------------------------- bit casts
static bool j_castf(const u64 * w, Rep * r)
{
	u32 u = static_cast<u32>(w[0]); float f; std::memcpy(&f, &u, 4);
	u32 a = cs::bit_cast<u32>(f), b = cs::float_to_uint32(f); float g = cs::bit_cast<float>(hide(u)), h = cs::uint32_to_float(hide(u)); std::int32_t si = cs::float_to_int32(f); float k = cs::int32_to_float(static_cast<std::int32_t>(hide(u)));
	u32 c = cs::top12_bits_of_float(f); u32 d = cs::top_bits<float, 16>(f);
	MC_RET(a == u && b == u && static_cast<u32>(si) == u && c == u >> 20 && d == u >> 16 && !std::memcmp(&g, &f, 4) && !std::memcmp(&h, &f, 4) && !std::memcmp(&k, &f, 4), us(a) + " " + us(b) + " " + us(c), us(u));
}
static bool j_castd(const u64 * w, Rep * r)
{
	u64 u = w[0]; double f; std::memcpy(&f, &u, 8);
	u64 a = cs::bit_cast<u64>(f), b = cs::double_to_uint64(f); std::int64_t si = cs::double_to_int64(f); double g = cs::bit_cast<double>(hide(u)), h = cs::uint64_to_double(hide(u)), k = cs::int64_to_double(static_cast<std::int64_t>(hide(u)));
	u32 c = cs::top12_bits_of_double(f), d = cs::top16_bits_of_double(f), e = cs::top_bits<double, 20>(f);
	MC_RET(a == u && b == u && static_cast<u64>(si) == u && c == u >> 52 && d == u >> 48 && e == u >> 44 && !std::memcmp(&g, &f, 8) && !std::memcmp(&h, &f, 8) && !std::memcmp(&k, &f, 8), us(a) + " " + us(b), us(u));
}
static bool j_castl(const u64 * w, Rep * r)
{
	unsigned char m[16] = {}; std::memcpy(m, &w[0], 8); std::memcpy(m + 8, &w[1], 2); long double f; std::memcpy(&f, m, 16);
	u128 e = (static_cast<u128>(w[1] & 0xffff) << 64) | w[0]; const u128 M = (static_cast<u128>(0xffff) << 64) | ~u64(0);
	u128 a = cs::bit_cast<u128>(f) & M; long double g = cs::bit_cast<long double>(hide(e)); u128 b = 0; std::memcpy(&b, &g, 10);
	MC_RET(a == e && b == e, us(a) + " " + us(b), us(e));
}
// ---------------------------------------------------------------- integer literals and their parser
using B128 = ccm::types::UInt<128>; using B96 = ccm::types::UInt<96>; using B256 = ccm::types::UInt<256>;
template <class B> static std::string bs(const B & v) { std::string s; for (std::size_t i = B::WORD_COUNT; i-- > 0;) { char b[24]; std::snprintf(b, 24, "%0*llx", static_cast<int>(B::WORD_SIZE / 4), static_cast<unsigned long long>(v.val[i])); s += b; } return s; }
// value: a structured 64- or 128-bit pattern; base and digit-separator period chosen by the other words
static bool j_parse(const u64 * w, Rep * r)
{
	u128 v = (static_cast<u128>(w[1]) << 64) | w[0]; const int base = w[2] == 0 ? 2 : w[2] == 1 ? 10 : 16; std::string s, d; u128 t = v; int sep = static_cast<int>(w[3]);
	do { int x = static_cast<int>(t % static_cast<unsigned>(base)); d.insert(d.begin(), static_cast<char>(x < 10 ? '0' + x : (w[3] & 1 ? 'A' : 'a') + x - 10)); t /= static_cast<unsigned>(base); } while (t);
	s = base == 2 ? "0b" : base == 16 ? "0x" : "";
	for (std::size_t i = 0; i < d.size(); ++i) { if (sep && i && i % static_cast<std::size_t>(sep) == 0) s += '\''; s += d[i]; }
	auto want = [&](auto z) { decltype(z) e(w[1]); e <<= 64; e += decltype(z)(w[0]); return e; };
	// decimal digit buffers hold bits/3 digits, which is enough for every value of the type
	auto g = cs::parse_bigint<B128>(s.c_str()); auto h = cs::parse_bigint<B256>(s.c_str());
	if (!(g == want(B128{}))) MC_RET(false, s + " -> " + bs(g), bs(want(B128{})));
	if (!(h == want(B256{}))) MC_RET(false, s + " (256) -> " + bs(h), bs(want(B256{})));
	if (w[1] >> 32 == 0) { auto k = cs::parse_bigint<B96>(s.c_str()); if (!(k == want(B96{}))) MC_RET(false, s + " (96) -> " + bs(k), bs(want(B96{}))); }
	auto m = cs::parse_bigint<B128>(("-" + s).c_str()); auto p = cs::parse_bigint<B256>(("+" + s).c_str());
	if (!(m == -want(B128{}))) MC_RET(false, "-" + s + " -> " + bs(m), bs(-want(B128{})));
	if (!(p == want(B256{}))) MC_RET(false, "+" + s + " (256) -> " + bs(p), bs(want(B256{})));
	MC_RET(true, s, bs(g));
}
static bool j_lit(const u64 * w, Rep * r)
{
	using namespace ccm::support;
	constexpr auto a = 0x123456789abcdef0fedcba98_u96; constexpr auto b = 0xfedcba9876543210'0123456789abcdef_u128; constexpr auto c = 0x1'00000000000000000000000000000000_u256; constexpr auto d = 340282366920938463463374607431768211455_u128; constexpr auto e = 0b1011'0000000000000000000000000000000000000000000000000000000000000001_u128;
	bool ok = true;
	switch (w[0])
	{
	case 0: ok = a == ((B96(0x12345678u) << 64) + B96(0x9abcdef0fedcba98ull)); break;
	case 1: ok = b == ((B128(0xfedcba9876543210ull) << 64) + B128(0x0123456789abcdefull)); break;
	case 2: ok = c == (B256(1u) << 128); break;
	case 3: ok = d == ~B128(0u); break;
	case 4: ok = e == ((B128(0xbu) << 64) + B128(1u)); break;
	default: ok = 300_u8 == 44 && 65537_u16 == 1 && 0x1'23456789_u32 == 0x23456789u && 0xffffffffffffffff_u64 == ~u64(0) && std::is_same_v<decltype(1_u8), std::uint8_t> && std::is_same_v<decltype(1_u16), std::uint16_t> && std::is_same_v<decltype(1_u32), std::uint32_t> && std::is_same_v<decltype(1_u64), std::uint64_t>; break;
	}
	MC_RET(ok, "literal " + std::to_string(w[0]) + " differs", "its value");
}
template <class U> static void unsigned_type(const char * nm)
{
	auto cat = [nm](const char * a) { return (new std::string(std::string(a) + " " + nm))->c_str(); };
	if constexpr (sizeof(U) <= 2) explore(cat("counting"), 2, 9, 1ull << W<U>, [](u64 i, u64 * w) { w[0] = i; w[1] = 0; }, j_count<U>);
	else explore(cat("counting"), 2, 9, npat<U>(), [](u64 i, u64 * w) { putw(pat<U>(i), w); }, j_count<U>);
	static u64 nr; nr = rots().size(); static u64 sp; sp = sizeof(U) <= 2 || thorough ? 1 : 61; static u64 nv; nv = sizeof(U) == 1 ? 256 : sizeof(U) == 2 ? (thorough ? 65536 : 65536 / 13) : npat<U>() / sp / (thorough && sizeof(U) > 8 ? 16 : 1);
	explore(cat("rotation"), 3, 2, nr * nv, [](u64 i, u64 * w) { u64 k = i / nr; putw(sizeof(U) <= 2 ? static_cast<U>(k * (sizeof(U) == 2 && !thorough ? 13 : 1)) : pat<U>(k * sp), w); w[2] = static_cast<u64>(static_cast<long long>(rots()[i % nr])); }, j_rot<U>);
	explore(cat("masks"), 1, 4, W<U> + 1, [](u64 i, u64 * w) { w[0] = i; }, j_mask<U>);
	static u64 st; st = sizeof(U) == 1 ? 1 : sizeof(U) == 2 ? (thorough ? 1 : 37) : 1;
	if constexpr (sizeof(U) <= 2) explore(cat("carry"), 5, 2, (2ull << 2 * W<U>) / st, [](u64 i, u64 * w) { i *= st; w[4] = i & 1; i >>= 1; w[0] = i & ((1ull << W<U>) - 1); w[1] = w[3] = 0; w[2] = i >> W<U>; }, j_carry<U>);
	else { static u64 m; m = thorough ? 4000 : 900; explore(cat("carry"), 5, 2, 2 * m * m, [](u64 i, u64 * w) { w[4] = i & 1; i >>= 1; const u64 s = npat<U>() / m; putw(pat<U>(i / m * s), w); putw(pat<U>(i % m * s), w + 2); }, j_carry<U>); }
}
template <class I> static void integer_type(const char * nm)
{
	auto cat = [nm](const char * a) { return (new std::string(std::string(a) + " " + nm))->c_str(); };
	static u64 st; st = sizeof(I) == 1 ? 1 : thorough ? 1 : 29;
	if constexpr (sizeof(I) <= 2) explore(cat("overflow"), 2, 2, (1ull << 16 * sizeof(I)) / st, [](u64 i, u64 * w) { i *= st; w[0] = i & ((1ull << 8 * sizeof(I)) - 1); w[1] = i >> 8 * sizeof(I); }, j_ovf<I>);
	else { static u64 m; m = thorough ? 5000 : 1000; using U = std::make_unsigned_t<I>; explore(cat("overflow"), 2, 2, m * m, [](u64 i, u64 * w) { const u64 s = npat<U>() / m; w[0] = static_cast<u64>(pat<U>(i / m * s)); w[1] = static_cast<u64>(pat<U>(i % m * s)); }, j_ovf<I>); }
}
void mc_main()
{
	explore("mathematical constants", 2, 1, 13 * 4, [](u64 i, u64 * w) { w[0] = i % 13; w[1] = i / 13; }, j_const);
	unsigned_type<unsigned char>("unsigned char"); unsigned_type<unsigned short>("unsigned short"); unsigned_type<unsigned>("unsigned"); unsigned_type<unsigned long>("unsigned long"); unsigned_type<unsigned long long>("unsigned long long"); 
#ifndef MC_NOBUILTIN
	unsigned_type<u128>("unsigned __int128");
#endif
	if (thorough) explore("counting unsigned, every value", 2, 9, 1ull << 32, [](u64 i, u64 * w) { w[0] = i; w[1] = 0; }, j_count<unsigned>);
	integer_type<signed char>("signed char"); integer_type<unsigned char>("unsigned char"); integer_type<short>("short"); integer_type<unsigned short>("unsigned short"); integer_type<int>("int"); integer_type<unsigned>("unsigned"); integer_type<long>("long"); integer_type<unsigned long>("unsigned long"); integer_type<long long>("long long"); integer_type<unsigned long long>("unsigned long long");
	static u64 fs; fs = thorough ? 1 : 263;
	explore("bit_cast float", 1, 8, (1ull << 32) / fs, [](u64 i, u64 * w) { w[0] = i * fs; }, j_castf);
	explore("bit_cast double", 1, 9, npat<u64>(), [](u64 i, u64 * w) { w[0] = pat<u64>(i); }, j_castd);
	explore("bit_cast long double", 2, 2, 65536ull * 64, [](u64 i, u64 * w) { w[1] = i / 64; w[0] = (1ull << 63) | (pat<u64>((i % 64) * 4243)); if (w[1] % 0x8000 == 0) w[0] &= ~(1ull << 63); }, j_castl);
	static u64 ps; ps = thorough ? 7 : 101;
	explore("integer parsing", 4, 5, npat<u128>() / ps * 3 * 5, [](u64 i, u64 * w) { w[3] = i % 5; i /= 5; w[2] = i % 3; i /= 3; putw(pat<u128>(i * ps), w); }, j_parse);
	explore("integer literals", 1, 1, 6, [](u64 i, u64 * w) { w[0] = i; }, j_lit);
}
