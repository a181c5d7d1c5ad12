// C27 wide integers against GMP and the builtin types
#include "lib.hpp"
#include "ccmath/internal/types/big_int.hpp"
#include <gmp.h>
#include <cstring>
using namespace mc;
namespace ty = ccm::types; namespace su = ccm::support;
struct Z { mpz_t z; Z() { mpz_init(z); } ~Z() { mpz_clear(z); } operator mpz_ptr() { return z; } };
template <class B> using word_of = typename B::word_type;
template <class B> constexpr int NW = static_cast<int>((B::BITS + 63) / 64);
template <class B> static void imp(mpz_ptr z, const B & b)
{
	mpz_import(z, B::WORD_COUNT, -1, sizeof(word_of<B>), 0, 0, b.val.data());
	if (B::SIGNED && mpz_tstbit(z, B::BITS - 1)) { static thread_local Z m; mpz_set_ui(m, 1); mpz_mul_2exp(m, m, B::BITS); mpz_sub(z, z, m); }
}
template <class B> static B expo(mpz_ptr z)
{
	static thread_local Z t; mpz_fdiv_r_2exp(t, z, B::BITS);
	B b; size_t n = 0; mpz_export(b.val.data(), &n, -1, sizeof(word_of<B>), 0, 0, t); return b; // the rest stays zero
}
template <class B> static B get(const u64 * w) { B b; unsigned char buf[NW<B> * 8]; std::memcpy(buf, w, sizeof buf); std::memcpy(b.val.data(), buf, B::BITS / 8); return b; }
template <class B> static void putb(const B & b, u64 * w) { for (int i = 0; i < NW<B>; ++i) w[i] = 0; std::memcpy(w, b.val.data(), B::BITS / 8); }
template <class B> static std::string sb(const B & b) { Z z; imp(z, b); char * s = mpz_get_str(nullptr, 16, z); std::string r = s; free(s); return r; }
template <class B> static bool eq(const B & a, const B & b) { return std::memcmp(a.val.data(), b.val.data(), sizeof a.val) == 0; }
template <class B> static B hid(B b) { asm volatile("" : "+m"(b)); return b; }
#define CK(opname, got, want) do { auto g_ = (got); auto e_ = (want); if (!eq(g_, e_)) MC_RET(false, std::string(opname) + " " + sb(g_), sb(e_)); } while (0)
#define CB(opname, got, want) do { auto g_ = (got); auto e_ = (want); if (g_ != e_) MC_RET(false, std::string(opname) + " " + std::to_string(static_cast<long long>(g_)), std::to_string(static_cast<long long>(e_))); } while (0)
template <class B> static bool j_pair(const u64 * w, Rep * r)
{
	static thread_local Z x, y, t, q, m;
	B a = hid(get<B>(w)), b = hid(get<B>(w + NW<B>)); imp(x, a); imp(y, b);
	mpz_add(t, x, y); CK("+", a + b, expo<B>(t)); { B c = a; c += b; CK("+=", c, expo<B>(t)); CK("+ rvalue", a + B(b), expo<B>(t)); }
	mpz_sub(t, x, y); CK("-", a - b, expo<B>(t)); { B c = a; c -= b; CK("-=", c, expo<B>(t)); CK("- rvalue", a - B(b), expo<B>(t)); }
	mpz_mul(t, x, y); CK("*", a * b, expo<B>(t)); { B c = a; c *= b; CK("*=", c, expo<B>(t)); }
	if constexpr (!B::SIGNED)
	{
		auto f = a.ful_mul(b); using F = decltype(f); CK("ful_mul", f, expo<F>(t));
		// the quick high half is below the exact one by at most the number of words less one
		mpz_fdiv_q_2exp(t, t, B::BITS); B h = a.quick_mul_hi(b); imp(q, h); mpz_sub(q, t, q);
		if (mpz_sgn(static_cast<mpz_ptr>(q)) < 0 || mpz_cmp_ui(static_cast<mpz_ptr>(q), B::WORD_COUNT - 1) > 0) MC_RET(false, "quick_mul_hi " + sb(h), sb(expo<B>(t)));
		{ B c = a; auto o = c.add_overflow(b); mpz_add(t, x, y); CB("add_overflow", static_cast<int>(o), mpz_sizeinbase(t, 2) > B::BITS ? 1 : 0); }
		{ B c = a; auto o = c.sub_overflow(b); CB("sub_overflow", static_cast<int>(o), mpz_cmp(x, y) < 0 ? 1 : 0); }
		{ B c = a; auto o = c.mul(b.val[0]); Z f2; mpz_import(f2, 1, -1, sizeof(word_of<B>), 0, 0, b.val.data()); mpz_mul(t, x, f2); CK("mul word", c, expo<B>(t)); mpz_fdiv_q_2exp(t, t, B::BITS); mpz_import(f2, 1, -1, sizeof(o), 0, 0, &o); if (mpz_cmp(t, f2) != 0) MC_RET(false, "mul word carry", "exact carry"); }
	}
	if (mpz_sgn(static_cast<mpz_ptr>(y)) == 0) { B c = a; auto o = c.div(b); CB("div by zero", o.has_value() ? 1 : 0, 0); }
	else
	{
		mpz_tdiv_qr(q, m, x, y); B eq_ = expo<B>(q), em = expo<B>(m);
		B c = a; auto o = c.div(b); CB("div", o.has_value() ? 1 : 0, 1); CK("div quotient", c, eq_); CK("div remainder", *o, em);
		CK("/", a / b, eq_); CK("%", a % b, em); { B d = a; d /= b; CK("/=", d, eq_); }
		B p = (a / b) * b + a % b; CK("(a/b)*b+a%b", p, a);
	}
	mpz_and(t, x, y); CK("&", a & b, expo<B>(t)); { B c = a; c &= b; CK("&=", c, expo<B>(t)); }
	mpz_ior(t, x, y); CK("|", a | b, expo<B>(t)); { B c = a; c |= b; CK("|=", c, expo<B>(t)); }
	mpz_xor(t, x, y); CK("^", a ^ b, expo<B>(t)); { B c = a; c ^= b; CK("^=", c, expo<B>(t)); }
	int cmp = mpz_cmp(x, y);
	CB("==", a == b, cmp == 0); CB("!=", a != b, cmp != 0); CB("<", a < b, cmp < 0); CB("<=", a <= b, cmp <= 0); CB(">", a > b, cmp > 0); CB(">=", a >= b, cmp >= 0);
	MC_RET(true, "ok", "");
}
template <class B, class T> static bool conv_int(const B & a, Rep * r, const char * nm)
{
	static thread_local Z x; imp(x, a); using U = std::make_unsigned_t<T>;
	Z t; mpz_fdiv_r_2exp(t, x, sizeof(T) * 8); U u = 0; { u64 h[2] = {0, 0}; size_t n; mpz_export(h, &n, -1, 8, 0, 0, t); if constexpr (sizeof(T) <= 8) u = static_cast<U>(h[0]); else u = static_cast<U>(h[0]) | static_cast<U>(h[1]) << 64; }
	T e = static_cast<T>(u), g = a.template to<T>(), g2 = static_cast<T>(a);
	if (g != e || g2 != e) MC_RET(false, std::string("to ") + nm, "exact");
	// and from the builtin value: sign extended for signed sources
	B f(e); if constexpr (sizeof(T) <= 8) { if (std::is_signed_v<T>) mpz_set_si(t, static_cast<long>(e)); else mpz_set_ui(t, static_cast<unsigned long>(e)); if (!eq(f, expo<B>(t))) MC_RET(false, std::string("from ") + nm + " " + sb(f), sb(expo<B>(t))); B f3; f3 = e; if (!eq(f3, f)) MC_RET(false, std::string("= ") + nm, sb(f)); }
	return true;
}
template <class B, class C> static bool conv_big(const B & a, Rep * r)
{
	static thread_local Z x; imp(x, a);
	C c(a); C e = expo<C>(x); if (!eq(c, e)) MC_RET(false, "to " + std::to_string(C::BITS) + (C::SIGNED ? "s" : "u") + " " + sb(c), sb(e));
	return true;
}
template <class B, std::size_t BT, class W> static bool conv_w(const B & a, Rep * r)
{
	if constexpr (BT % (sizeof(W) * 8) == 0 && !(BT == B::BITS && sizeof(W) != sizeof(word_of<B>))) return conv_big<B, ty::BigInt<BT, false, W>>(a, r) && conv_big<B, ty::BigInt<BT, true, W>>(a, r);
	else return true;
}
template <class B, std::size_t... C> static bool masks(Rep * r, std::index_sequence<C...>)
{
	bool ok = true; Z t, u;
	auto one = [&](auto c) {
		constexpr std::size_t K = decltype(c)::value; mpz_set_ui(t, 1); mpz_mul_2exp(t, t, K); mpz_sub_ui(t, t, 1);
		B lo = su::mask_trailing_ones<B, K>(), el = expo<B>(t); mpz_mul_2exp(u, t, B::BITS - K); B hi = su::mask_leading_ones<B, K>(), eh = expo<B>(u);
		if (!eq(lo, el) || !eq(hi, eh) || !eq(su::mask_leading_zeros<B, B::BITS - K>(), el) || !eq(su::mask_trailing_zeros<B, B::BITS - K>(), eh)) { ok = false; if (r) { r->got = "mask " + std::to_string(K) + " " + sb(lo) + " " + sb(hi); r->want = sb(el) + " " + sb(eh); } }
	};
	(one(std::integral_constant<std::size_t, C>{}), ...); return ok;
}
template <class B> static bool j_masks(const u64 *, Rep * r) { return masks<B>(r, std::make_index_sequence<B::BITS>{}); }
template <class B> static bool j_one(const u64 * w, Rep * r)
{
	static thread_local Z x, t; B a = hid(get<B>(w)); imp(x, a);
	mpz_com(t, x); CK("~", ~a, expo<B>(t)); mpz_neg(t, x); CK("unary -", -a, expo<B>(t));
	mpz_add_ui(t, x, 1); { B c = a, d = c++; CK("x++", c, expo<B>(t)); CK("x++ value", d, a); B e = a; B f = ++e; CK("++x", e, expo<B>(t)); CK("++x value", f, e); }
	mpz_sub_ui(t, x, 1); { B c = a, d = c--; CK("x--", c, expo<B>(t)); CK("x-- value", d, a); B e = a; B f = --e; CK("--x", e, expo<B>(t)); CK("--x value", f, e); }
	CB("is_zero", a.is_zero(), mpz_sgn(static_cast<mpz_ptr>(x)) == 0); CB("bool", static_cast<bool>(a), mpz_sgn(static_cast<mpz_ptr>(x)) != 0); CB("is_neg", a.is_neg(), mpz_sgn(static_cast<mpz_ptr>(x)) < 0);
	// shifts by every count
	for (std::size_t s = 0; s < B::BITS; ++s)
	{
		mpz_mul_2exp(t, x, s); CK("<< " + std::to_string(s), a << s, expo<B>(t)); { B c = a; c <<= s; CK("<<=", c, expo<B>(t)); CK("<< int", a << static_cast<int>(s), expo<B>(t)); }
		mpz_fdiv_q_2exp(t, x, s); CK(">> " + std::to_string(s), a >> s, expo<B>(t)); { B c = a; c >>= s; CK(">>=", c, expo<B>(t)); }
		CB("get_bit " + std::to_string(s), a.get_bit(s), mpz_tstbit(x, s) != 0); { B c = a; c.set_bit(s); Z y; mpz_set(y, x); mpz_setbit(y, s); CK("set_bit", c, expo<B>(y)); }
	}
	if constexpr (!B::SIGNED)
	{
		int bits = static_cast<int>(B::BITS), len = mpz_sgn(static_cast<mpz_ptr>(x)) == 0 ? 0 : static_cast<int>(mpz_sizeinbase(x, 2)), tz = len == 0 ? bits : static_cast<int>(mpz_scan1(x, 0)), to = static_cast<int>(mpz_scan0(x, 0)), pc = static_cast<int>(mpz_popcount(x));
		int lo = 0; while (lo < bits && mpz_tstbit(x, static_cast<mp_bitcnt_t>(bits - 1 - lo))) ++lo;
		CB("popcount", su::popcount(a), pc); CB("has_single_bit", su::has_single_bit(a), pc == 1); CB("countr_zero", su::countr_zero(a), tz); CB("countl_zero", su::countl_zero(a), bits - len); CB("countr_one", su::countr_one(a), to); CB("countl_one", su::countl_one(a), lo);
		CB("bit_width", su::bit_width(a), len); CB("count_zeros", su::count_zeros(a), bits - pc);
		CB("first_leading_zero", su::first_leading_zero(a), pc == bits ? 0 : lo + 1); CB("first_leading_one", su::first_leading_one(a), pc == 0 ? 0 : bits - len + 1);
		CB("first_trailing_zero", su::first_trailing_zero(a), pc == bits ? 0 : to + 1); CB("first_trailing_one", su::first_trailing_one(a), pc == 0 ? 0 : tz + 1);
		for (int s = -bits - 3; s <= bits + 3; ++s)
		{
			mp_bitcnt_t k = static_cast<mp_bitcnt_t>(((s % bits) + bits) % bits); Z hi, low; mpz_mul_2exp(hi, x, k); mpz_fdiv_q_2exp(low, x, static_cast<mp_bitcnt_t>(bits) - k); mpz_ior(hi, hi, low);
			CK("rotl " + std::to_string(s), su::rotl(a, s), expo<B>(hi)); CK("rotr " + std::to_string(-s), su::rotr(a, -s), expo<B>(hi));
		}
		// the fast division by x * 2^e
		if constexpr (sizeof(word_of<B>) > 1)
		for (unsigned d : {1u, 2u, 3u, 7u, 10u, 127u, 128u, 200u, 255u, static_cast<unsigned>(static_cast<ty::multiword::half_width_t<word_of<B>>>(-1)), static_cast<unsigned>(static_cast<ty::multiword::half_width_t<word_of<B>>>(-1)) / 2 + 1})
			for (std::size_t e = 0; e <= B::BITS + 1; e += B::BITS > 200 ? 5 : 1)
			{
				Z dv, q, m; mpz_set_ui(dv, d); mpz_mul_2exp(dv, dv, e); mpz_tdiv_qr(q, m, x, dv);
				B c = a; auto o = c.div_uint_half_times_pow_2(static_cast<ty::multiword::half_width_t<word_of<B>>>(d), e);
				CB("div_uint_half_times_pow_2", o.has_value(), true); CK("/ " + std::to_string(d) + "*2^" + std::to_string(e), c, expo<B>(q)); CK("% " + std::to_string(d) + "*2^" + std::to_string(e), *o, expo<B>(m));
			}
		for (unsigned e = 0; e < 20; ++e) { B c = a; c.pow_n(e); Z y; mpz_pow_ui(y, x, e); CK("pow_n " + std::to_string(e), c, expo<B>(y)); }
	}
	if (!(conv_int<B, signed char>(a, r, "int8") && conv_int<B, unsigned char>(a, r, "uint8") && conv_int<B, short>(a, r, "int16") && conv_int<B, unsigned short>(a, r, "uint16") && conv_int<B, int>(a, r, "int") && conv_int<B, unsigned>(a, r, "unsigned") && conv_int<B, long>(a, r, "long") && conv_int<B, unsigned long>(a, r, "ulong") && conv_int<B, long long>(a, r, "llong") && conv_int<B, unsigned long long>(a, r, "ullong"))) return false;
	if (!(conv_w<B, 16, std::uint16_t>(a, r) && conv_w<B, 32, std::uint16_t>(a, r) && conv_w<B, 32, std::uint32_t>(a, r) && conv_w<B, 64, std::uint32_t>(a, r) && conv_w<B, 64, std::uint64_t>(a, r) && conv_w<B, 96, std::uint32_t>(a, r) && conv_w<B, 128, std::uint64_t>(a, r) && conv_w<B, 160, std::uint32_t>(a, r) && conv_w<B, 192, std::uint64_t>(a, r) && conv_w<B, 256, std::uint64_t>(a, r) && conv_w<B, 48, std::uint16_t>(a, r) && conv_w<B, 128, std::uint32_t>(a, r) && conv_w<B, 512, std::uint64_t>(a, r))) return false;
	MC_RET(true, "ok", "");
}
// sequences: from every start value, every string of operations of the given length, checked after each step
template <class B> static bool j_seq(const u64 * w, Rep * r)
{
	static thread_local Z x, y, t; B a = get<B>(w); u64 code = w[NW<B>]; int depth = static_cast<int>(w[NW<B> + 1]);
	imp(x, a); std::string hist;
	static const u64 C[5] = {1, 3, 0xffffffffu, 0x8000000000000001ull, ~0ull};
	for (int i = 0; i < depth; ++i)
	{
		int o = static_cast<int>(code % 21); code /= 21; B c(C[o % 5]); if (o & 1) c = ~c; imp(y, c);
		switch (o / 3)
		{
		case 0: a += c; mpz_add(t, x, y); break;
		case 1: a -= c; mpz_sub(t, x, y); break;
		case 2: a *= c; mpz_mul(t, x, y); break;
		case 3: if (c.is_zero()) { mpz_set(t, x); break; } if (o % 3 == 0) { a /= c; mpz_tdiv_q(t, x, y); } else { a = a % c; mpz_tdiv_r(t, x, y); } break;
		case 4: { std::size_t s = o % 3 == 0 ? 1 : o % 3 == 1 ? B::BITS / 2 + 1 : B::WORD_SIZE; if (s >= B::BITS) s = B::BITS - 1; a <<= s; mpz_mul_2exp(t, x, s); break; }
		case 5: { std::size_t s = o % 3 == 0 ? 1 : o % 3 == 1 ? B::BITS / 2 - 1 : B::WORD_SIZE; if (s >= B::BITS) s = B::BITS - 1; a >>= s; mpz_fdiv_q_2exp(t, x, s); break; }
		default: if (o % 3 == 0) { a = -a; mpz_neg(t, x); } else if (o % 3 == 1) { ++a; mpz_add_ui(t, x, 1); } else { --a; mpz_sub_ui(t, x, 1); } break;
		}
		if (r) hist += " " + std::to_string(o);
		B e = expo<B>(t); if (!eq(a, e)) MC_RET(false, "after" + hist + ": " + sb(a), sb(e));
		imp(x, e);
	}
	MC_RET(true, sb(a), "");
}
template <class B> static std::vector<B> & alpha(size_t cap, unsigned level)
{
	auto & v = *new std::vector<B>; using W = word_of<B>; constexpr int n = static_cast<int>(B::WORD_COUNT), ws = static_cast<int>(B::WORD_SIZE), bits = static_cast<int>(B::BITS);
	auto add = [&](const B & b) { v.push_back(b); };
	// every assignment of these words (as far as that stays small)
	std::vector<W> ws4 = {0, 1, static_cast<W>(-1), static_cast<W>(W(1) << (ws - 1))}, ws8 = ws4; for (W x : {static_cast<W>(2), static_cast<W>(-2), static_cast<W>((W(1) << (ws / 2)) - 1), static_cast<W>(W(1) << (ws / 2)), static_cast<W>((W(1) << (ws - 1)) - 1), static_cast<W>(static_cast<W>(-1) / 3)}) ws8.push_back(x);
	const std::vector<W> & L = n <= 2 ? ws8 : n == 3 && level ? ws8 : ws4;
	u64 tot = 1; for (int i = 0; i < n && tot < 100000; ++i) tot *= L.size();
	u64 st = tot > cap ? tot / cap + 1 : 1;
	for (u64 i = 0; i < tot; i += st) { B b; u64 k = i; for (int j = 0; j < n; ++j) { b.val[static_cast<size_t>(j)] = L[k % L.size()]; k /= L.size(); } add(b); if (n > 8) { std::reverse(b.val.begin(), b.val.end()); add(b); } }
	// windows of ones
	int step = std::max(1, bits / (level ? 32 : 16));
	for (int hi = 0; hi <= bits; hi += step) for (int lo = 0; lo < hi; lo += step) for (int o = 0; o < 2; ++o)
	{
		B b; for (int i = lo + o; i < hi - o; ++i) b.val[static_cast<size_t>(i / ws)] = static_cast<W>(b.val[static_cast<size_t>(i / ws)] | W(W(1) << (i % ws)));
		add(b); B c = b; for (auto & x : c.val) x = static_cast<W>(~x); add(c);
	}
	for (int i = 0; i < bits; i += std::max(1, bits / 64)) { B b; b.val[static_cast<size_t>(i / ws)] = static_cast<W>(W(1) << (i % ws)); add(b); if (i % ws) { b.val[0] = static_cast<W>(b.val[0] | 1); add(b); } }
	auto lt = [](const B & a, const B & b) { return std::lexicographical_compare(a.val.begin(), a.val.end(), b.val.begin(), b.val.end()); };
	std::sort(v.begin(), v.end(), lt); v.erase(std::unique(v.begin(), v.end(), [](const B & a, const B & b) { return eq(a, b); }), v.end());
	if (v.size() > cap) { std::vector<B> o; for (size_t i = 0; i < cap; ++i) o.push_back(v[i * v.size() / cap]); v = o; }
	return v;
}
template <class B> static void run(size_t pairs, size_t ones, int depth)
{
	std::string nm = std::string(B::SIGNED ? "Int" : "UInt") + std::to_string(B::BITS) + "/" + std::to_string(B::WORD_SIZE);
	auto cat = [&](const char * a) { return (new std::string(std::string(a) + " " + nm))->c_str(); };
	static std::vector<B> * v; v = &alpha<B>(thorough ? pairs * 3 : pairs, thorough ? 1 : 0); static u64 n; n = v->size();
	explore(cat("pairs"), 2 * NW<B>, 35, n * n, [](u64 i, u64 * w) { putb((*v)[i / n], w); putb((*v)[i % n], w + NW<B>); }, j_pair<B>);
	static std::vector<B> * o; o = &alpha<B>(thorough ? ones * 3 : ones, 1);
	explore(cat("one"), NW<B>, static_cast<int>(6 * B::BITS), o->size(), [](u64 i, u64 * w) { putb((*o)[i], w); }, j_one<B>);
	static std::vector<B> * s; s = &alpha<B>(24, 0); static u64 ns, d; ns = s->size(); d = static_cast<u64>(depth + (thorough ? 1 : 0)); u64 N = ns; for (u64 i = 0; i < d; ++i) N *= 21;
	explore(cat("sequences"), NW<B> + 2, static_cast<int>(d), N, [](u64 i, u64 * w) { putb((*s)[i % ns], w); w[NW<B>] = i / ns; w[NW<B> + 1] = d; }, j_seq<B>);
	if constexpr (!B::SIGNED && B::BITS <= 256) explore(cat("masks"), 1, static_cast<int>(B::BITS), 1, [](u64, u64 * w) { w[0] = 0; }, j_masks<B>);
}
template <std::size_t BITS, class W> static void both(size_t pairs, size_t ones, int depth) { run<ty::BigInt<BITS, false, W>>(pairs, ones, depth); run<ty::BigInt<BITS, true, W>>(pairs, ones, depth); }
// all pairs of 16-bit numbers made of two... words: the 16-bit types are exhausted against the builtin ones
template <bool S> static bool j_16(const u64 * w, Rep * r)
{
	using B = ty::BigInt<16, S, std::uint16_t>; using I = std::conditional_t<S, std::int16_t, std::uint16_t>;
	B a, b; a.val[0] = static_cast<std::uint16_t>(w[0]); b.val[0] = static_cast<std::uint16_t>(w[1]); int x = static_cast<I>(w[0]), y = static_cast<I>(w[1]);
	auto is = [](const B & g, int e) { return g.val[0] == static_cast<std::uint16_t>(e); };
	if (!is(a + b, x + y)) MC_RET(false, "+ " + sb(a + b), std::to_string(x + y));
	if (!is(a - b, x - y)) MC_RET(false, "- " + sb(a - b), std::to_string(x - y));
	if (!is(a * b, static_cast<int>(static_cast<unsigned>(x) * static_cast<unsigned>(y)))) MC_RET(false, "* " + sb(a * b), "product");
	if (y) { if (!is(a / b, x / y)) MC_RET(false, "/ " + sb(a / b), std::to_string(x / y)); if (!is(a % b, x % y)) MC_RET(false, "% " + sb(a % b), std::to_string(x % y)); }
	if ((a < b) != (x < y) || (a == b) != (x == y) || (a >= b) != (x >= y)) MC_RET(false, "comparison", "exact");
	MC_RET(true, "ok", "");
}
#ifndef MC_PART
#define MC_PART 0
#endif
template <int MC_P> static void all()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	if constexpr (MC_P == 0 || MC_P == 1) { both<16, std::uint16_t>(260, 400, 3); both<32, std::uint32_t>(260, 300, 3); both<64, std::uint32_t>(300, 200, 3); both<128, std::uint64_t>(350, 250, 3); }
	if constexpr (MC_P == 0 || MC_P == 2) { both<64, std::uint64_t>(260, 250, 3); both<96, std::uint32_t>(300, 200, 3); both<192, std::uint64_t>(300, 150, 3); both<1024, std::uint64_t>(90, 30, 2); }
	if constexpr (MC_P == 0 || MC_P == 3) { both<32, std::uint16_t>(300, 300, 3); both<48, std::uint16_t>(300, 200, 3); both<256, std::uint64_t>(300, 120, 3); }
	if constexpr (MC_P == 0 || MC_P == 4) { both<128, std::uint32_t>(300, 150, 3); both<320, std::uint64_t>(160, 80, 3); both<512, std::uint64_t>(120, 60, 2); }
	if constexpr (MC_P > 1) return;
	static u64 st = thorough ? 1 : 61;
	explore("all pairs UInt16", 2, 7, (1ull << 32) / st, [](u64 i, u64 * w) { i *= st; w[0] = i & 0xffff; w[1] = i >> 16; }, j_16<false>);
	explore("all pairs Int16", 2, 7, (1ull << 32) / st, [](u64 i, u64 * w) { i *= st; w[0] = i & 0xffff; w[1] = i >> 16; }, j_16<true>);
}
void mc_main() { all<MC_PART>(); }
