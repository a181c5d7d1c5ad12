// C32.  MC_PART 1: packed pow kernels against the scalar kernels, lane by lane; 2: the packed register types against the
// scalar operations; 3: digests of every exactly specified public function, compared across builds with and without SIMD
#include "fns.hpp"
#if MC_PART == 1
	#include "ccmath/internal/math/generic/func/power/pow_impl/pow_impl.hpp"
	#include "ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp"
	#include "ccmath/internal/math/generic/func/power/pow_impl/powf_impl.hpp"
	#include "ccmath/internal/math/generic/func/power/pow_impl/powf_simd_impl.hpp"
#endif
using namespace mc;
// ============================================================================================== packed pow
#if MC_PART == 1
template <class T> static T scalar_pow(T x, T y) { if constexpr (sizeof(T) == 4) return ccm::gen::impl::powf_impl(x, y); else return ccm::gen::impl::pow_impl(x, y); }
template <class T> static std::vector<std::pair<T, T>> & fillers()
{ // what the other lanes hold: ordinary, exact, zero exponent, overflow, underflow, pole, domain error, NaN, infinite, subnormal base, negative base, half-integer exponent
	using L = std::numeric_limits<T>;
	static std::vector<std::pair<T, T>> f = {{T(1.5), T(0.3)}, {T(3.25), T(-7.7)}, {T(2), T(10)}, {T(5), T(0)}, {L::max(), T(1.7)}, {L::min(), T(1.9)}, {T(0), T(-3)}, {T(-2), T(0.3)}, {L::quiet_NaN(), T(2)}, {L::infinity(), T(-1.1)}, {L::denorm_min(), T(0.77)}, {T(-3), T(5)}, {T(7), T(2.5)}, {T(1), L::quiet_NaN()}, {T(0.999), T(-60000)}, {T(1.1), -L::infinity()}};
	return f;
}
// w[0] = lane | filler rotation << 8 | pattern << 16 (bit k of the pattern: lane k holds an ordinary filler instead)
template <class T, int W> static bool j_pack(const u64 * w, Rep * r)
{
	using V = std::conditional_t<W == 0, ccm::pp::native_simd<T>, ccm::pp::simd<T, W ? W : 2>>;
	constexpr int n = static_cast<int>(V::size());
	const int lane = static_cast<int>(w[0] & 255) % n, rot = static_cast<int>(w[0] >> 8 & 255), pat = static_cast<int>(w[0] >> 16);
	alignas(64) T xb[64], yb[64], ob[64];
	auto & F = fillers<T>();
	for (int k = 0; k < n; ++k) { size_t f = (pat >> (k & 7) & 1) ? static_cast<size_t>(k & 1) : static_cast<size_t>(k * 3 + rot) % F.size(); xb[k] = F[f].first; yb[k] = F[f].second; }
	xb[lane] = Fp<T>::get(w + 1); yb[lane] = Fp<T>::get(w + 2);
	for (int k = 0; k < n; ++k) { xb[k] = hide(xb[k]); yb[k] = hide(yb[k]); }
#ifdef MC_FLAGS
	std::feclearexcept(FE_ALL_EXCEPT);
#endif
	errno = 0;
	V v;
	if constexpr (sizeof(T) == 4) v = ccm::gen::impl::powf_simd(V(xb, ccm::pp::element_aligned), V(yb, ccm::pp::element_aligned)); else v = ccm::gen::impl::pow_simd(V(xb, ccm::pp::element_aligned), V(yb, ccm::pp::element_aligned));
	v.copy_to(ob, ccm::pp::element_aligned);
	const int e1 = errno;
	constexpr int FL = FE_OVERFLOW | FE_UNDERFLOW | FE_INVALID | FE_DIVBYZERO;
#ifdef MC_FLAGS
	const int f1 = std::fetestexcept(FL);
	std::feclearexcept(FE_ALL_EXCEPT);
#else
	const int f1 = 0;
#endif
	errno = 0;
	T want[64]; int bad = -1;
	for (int k = 0; k < n; ++k) { want[k] = keep(scalar_pow<T>(hide(xb[k]), hide(yb[k]))); if (!same(want[k], ob[k]) && bad < 0) bad = k; }
	const int e2 = errno;
#ifdef MC_FLAGS
	const int f2 = std::fetestexcept(FL);
#else
	const int f2 = 0;
#endif
	if (r)
	{
		if (bad >= 0) { r->got = "lane " + std::to_string(bad) + " of " + std::to_string(n) + ": pow(" + show(xb[bad]) + ", " + show(yb[bad]) + ") = " + show(ob[bad]); r->want = show(want[bad]); }
		else { r->got = "flags " + std::to_string(f1) + " errno " + std::to_string(e1); r->want = "flags " + std::to_string(f2) + " errno " + std::to_string(e2); }
	}
	// which of several lanes' errors errno shows last is not specified
	return bad < 0 && f1 == f2 && (e1 != 0) == (e2 != 0);
}
template <class T> static std::vector<T> pow_alpha(int e)
{
	std::vector<T> v = alphabet<T>(e);
	for (int k = -24; k <= 40; ++k) { v.push_back(T(k)); v.push_back(k + T(0.5)); v.push_back(k / T(7)); v.push_back(up(static_cast<T>(k + T(0.5)))); }
	for (T s : {T(1), T(-1)}) for (double c : {1.0001, 0.9999, 0.95, 1.05, 10.0, 100.0, 1023.0, 1024.0, 1025.0, 1074.0, 1075.0, 2048.0, 4000.1, 16777217.0, 9007199254740993.0, 6.7e18, 6.8e18, 1e10, 149.0, 150.5, 127.0, 0.1, 0.3, 0.7}) v.push_back(static_cast<T>(c) * s);
	uniq(v); return v;
}
template <class T, int W> static void run(const char * nm)
{
	using V = std::conditional_t<W == 0, ccm::pp::native_simd<T>, ccm::pp::simd<T, W ? W : 2>>;
	static std::vector<T> v = pow_alpha<T>((sizeof(T) == 4 ? 8 : 60) / (thorough ? 4 : 1));
	static std::vector<T> sp = pow_alpha<T>((sizeof(T) == 4 ? 60 : 500));
	constexpr u64 n = V::size();
	// every pair of operands; the lane and the fillers of the other lanes rotate with the pair
	explore(cat2(nm, "pairs"), 3, static_cast<int>(2 * n), v.size() * v.size(), [](u64 i, u64 * w) { put(v[i / v.size()], w + 1); put(v[i % v.size()], w + 2); w[0] = (i * 7 + i / v.size()) % n | (i % 16) << 8 | (i / 3 % 4 == 0 ? 0xffull << 16 : 0); }, j_pack<T, W>);
	// a thin alphabet in every lane with every pattern of ordinary and special neighbours
	static u64 pats = u64(1) << std::min<u64>(n, 8);
	static const u64 step = thorough ? 1 : n > 8 ? 31 : n > 4 ? 11 : 5, st = n > 4 && !thorough ? 8 : 1;
	explore(cat2(nm, "lanes"), 3, static_cast<int>(2 * n), (sp.size() * sp.size() / step) * n * (pats / st), [](u64 i, u64 * w) { u64 l = i % n; i /= n; u64 p = i % (pats / st); i /= pats / st; u64 j = i * step; p = p * st + j % st; put(sp[j / sp.size() % sp.size()], w + 1); put(sp[j % sp.size()], w + 2); w[0] = l | (j % 16) << 8 | p << 16; }, j_pack<T, W>);
	// dense significands next to one and in one binade, against exponents over the range
	static std::vector<T> ys = {T(0.3), T(-0.7), T(1.1), T(-3.3), T(13.7), T(-33.7), T(333.3), T(-4000.1)};
	static const u64 M = thorough ? 1 << 16 : 1 << 12;
	explore(cat2(nm, "dense"), 3, static_cast<int>(2 * n), M * 3 * ys.size(), [](u64 i, u64 * w) { T y = ys[i % ys.size()]; i /= ys.size(); u64 k = i % 3; i /= 3; T x = k == 0 ? T(1) + static_cast<T>(i) / static_cast<T>(M) : k == 1 ? T(1) + (static_cast<T>(i) - M / 2) * std::numeric_limits<T>::epsilon() * 4 : T(0.93) + static_cast<T>(i) / static_cast<T>(M) * T(0.14); put(x, w + 1); put(y, w + 2); w[0] = i % n | (i % 2) << 8 | 0xffull << 16; }, j_pack<T, W>);
}
template <int W> static void runw(const char * a, const char * b)
{
	if constexpr (W == 0 || ccm::pp::VecAbi<W ? W : 2>::template IsValid<double>::value) run<double, W>(a);
	if constexpr (W == 0 || ccm::pp::VecAbi<W ? W : 2>::template IsValid<float>::value) run<float, W>(b);
}
void mc_main()
{
	runw<0>("pow f64 native", "pow f32 native");
	runw<2>("pow f64x2", "pow f32x2"); runw<4>("pow f64x4", "pow f32x4"); runw<8>("pow f64x8", "pow f32x8"); runw<16>("pow f64x16", "pow f32x16");
}
// ============================================================================================== packed register types
#elif MC_PART == 2
	#include "ccmath/internal/math/runtime/simd/func/catalog.hpp"
namespace in = ccm::intrin;
enum Op { ADD, SUB, MUL, DIV, NEG, ADDA, SUBA, MULA, DIVA, SADD, ADDS, SSUB, SUBS, SMUL, MULS, SDIV, DIVS, SQRT, CONV, BCAST, STRIDE, STORE, LT, EQ, CHOOSE, MAND, MOR, MNOT, ALL, ANY, NOP };
static const char * const opn[] = {"+", "-", "*", "/", "neg", "+=", "-=", "*=", "/=", "s+v", "v+s", "s-v", "v-s", "s*v", "v*s", "s/v", "v/s", "sqrt", "convert", "broadcast", "strided", "storage", "<", "==", "choose", "&&", "||", "!", "all_of", "any_of"};
template <class A> struct is_scalar : std::is_same<A, in::abi::scalar> {};
template <class A> struct is_pack : std::false_type {}; template <int N> struct is_pack<in::abi::pack<N>> : std::true_type {};
template <class T, class A> struct Lanes
{
	using V = in::simd<T, A>; using M = in::simd_mask<T, A>;
	static constexpr int n = V::size();
	static std::vector<T> & al() { static std::vector<T> v = [] { auto s = specials<T>(); for (T x : {T(3), T(-0.7), T(1e10), T(-1e-10), T(7.5)}) s.push_back(x); uniq(s); return s; }(); return v; }
	// lanes of a mask as choose() sees them
	static void mlanes(M const & m, bool * o) { T a[n], b[n], c[n]; for (int i = 0; i < n; ++i) { a[i] = T(i + 1); b[i] = T(-i - 1); } V r = in::choose(m, V(a, in::element_aligned_tag()), V(b, in::element_aligned_tag())); r.copy_to(c, in::element_aligned_tag()); for (int i = 0; i < n; ++i) o[i] = c[i] > 0; }
	static bool judge(const u64 * w, Rep * r)
	{ // w: op, operand indices a, b of lane 0, rotation step
		const int op = static_cast<int>(w[0]); auto & v = al(); const size_t N = v.size();
		T a[64], b[64], g[64], e[64]; bool gm[64] = {}, em[64] = {}; bool bools = false;
		for (int i = 0; i < n; ++i) { a[i] = hide(v[(w[1] + static_cast<u64>(i) * w[3]) % N]); b[i] = hide(v[(w[2] + static_cast<u64>(i) * (w[3] * 3 + 1)) % N]); }
		const V x(a, in::element_aligned_tag()), y(b, in::element_aligned_tag());
		V z = x; bool ok = true;
		for (int i = 0; i < n; ++i) e[i] = a[i];
		auto E = [&](auto f) { for (int i = 0; i < n; ++i) e[i] = keep(static_cast<T>(f(hide(a[i]), hide(b[i])))); };
		auto B = [&](auto f) { bools = true; for (int i = 0; i < n; ++i) em[i] = f(a[i], b[i]); };
		const T s = a[0];
		switch (op)
		{
		case ADD: z = x + y; E([](T p, T q) { return p + q; }); break;
		case SUB: z = x - y; E([](T p, T q) { return p - q; }); break;
		case MUL: z = x * y; E([](T p, T q) { return p * q; }); break;
		case DIV: z = x / y; E([](T p, T q) { return p / q; }); break;
		case NEG: z = -x; E([](T p, T) { return -p; }); break;
		case ADDA: z += y; E([](T p, T q) { return p + q; }); break;
		case SUBA: z -= y; E([](T p, T q) { return p - q; }); break;
		case MULA: z *= y; E([](T p, T q) { return p * q; }); break;
		case DIVA: z /= y; E([](T p, T q) { return p / q; }); break;
		case SADD: z = s + y; E([s](T, T q) { return s + q; }); break;
		case ADDS: z = y + s; E([s](T, T q) { return q + s; }); break;
		case SSUB: z = s - y; E([s](T, T q) { return s - q; }); break;
		case SUBS: z = y - s; E([s](T, T q) { return q - s; }); break;
		case SMUL: z = s * y; E([s](T, T q) { return s * q; }); break;
		case MULS: z = y * s; E([s](T, T q) { return q * s; }); break;
		case SDIV: z = s / y; E([s](T, T q) { return s / q; }); break;
		case DIVS: z = y / s; E([s](T, T q) { return q / s; }); break;
		case SQRT: if constexpr (!is_pack<A>::value) { z = in::sqrt(x); E([](T p, T) { return std::sqrt(p); }); } break;
		case CONV: if constexpr (!is_pack<A>::value) { T c = x.convert(); ok = same(c, a[0]); } break;
		case BCAST: z = V(s); E([s](T, T) { return s; }); break;
		case STRIDE: if constexpr (!is_pack<A>::value) { T big[64 * 3]; for (int i = 0; i < n * 3; ++i) big[i] = T(-99); for (int i = 0; i < n; ++i) big[i * 3] = b[i]; z = V(big, 3); E([](T, T q) { return q; }); } break;
		case STORE: { in::simd_storage<T, A> st(y); in::simd_storage<T, A> s2; s2 = y; for (int i = 0; i < n; ++i) { ok = ok && same(st[i], b[i]) && same(s2.data()[i], b[i]); st[i] = a[i]; } V q(st); q.copy_to(g, in::element_aligned_tag()); for (int i = 0; i < n; ++i) ok = ok && same(g[i], a[i]); V q2; q2 = s2; z = q2; E([](T, T q) { return q; }); } break;
		case LT: B([](T p, T q) { return p < q; }); mlanes(x < y, gm); break;
		case EQ: B([](T p, T q) { return p == q; }); mlanes(x == y, gm); break;
		case CHOOSE: z = in::choose(x < y, x, y); E([](T p, T q) { return p < q ? p : q; }); break;
		case MAND: B([](T p, T q) { return p < q && p == p; }); mlanes((x < y) && (x == x), gm); break;
		case MOR: B([](T p, T q) { return p < q || p == q; }); mlanes((x < y) || (x == y), gm); break;
		case MNOT: B([](T p, T q) { return !(p < q); }); mlanes(!(x < y), gm); break;
		case ALL: { bool x1 = true; for (int i = 0; i < n; ++i) x1 = x1 && a[i] < b[i]; ok = in::all_of(x < y) == x1 && in::all_of(M(true)) && !in::all_of(M(false)); } break;
		case ANY: { bool x1 = false; for (int i = 0; i < n; ++i) x1 = x1 || a[i] < b[i]; ok = in::any_of(x < y) == x1 && in::any_of(M(true)) && !in::any_of(M(false)); } break;
		}
		z.copy_to(g, in::element_aligned_tag());
		int bad = -1;
		if (bools) { for (int i = 0; i < n; ++i) if (gm[i] != em[i]) { ok = false; if (bad < 0) bad = i; } }
		else for (int i = 0; i < n; ++i) if (!same(g[i], e[i])) { ok = false; if (bad < 0) bad = i; }
		if (r) { r->got = std::string(opn[op]) + (bad >= 0 ? " lane " + std::to_string(bad) + " of " + show(a[bad]) + ", " + show(b[bad]) + ": " + (bools ? std::to_string(gm[bad]) : show(g[bad])) : ok ? " as expected" : " differs"); r->want = bad >= 0 ? (bools ? std::to_string(em[bad]) : show(e[bad])) : "the scalar operation in every lane"; }
		return ok;
	}
	static void run(const char * nm)
	{
		const u64 N = al().size();
		explore(nm, 4, n, N * N * (thorough ? 12 : 3) * NOP, [](u64 i, u64 * w) { const u64 N = al().size(); w[0] = i % NOP; i /= NOP; w[1] = i % N; i /= N; w[2] = i % N; w[3] = i / N; }, judge);
	}
};
// the kernels used with every lane equal: packed pow gives the scalar kernel's result in every lane
template <class T, class A> static bool j_bpow(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w), y = Fp<T>::get(w + 1); T e = keep(ccm::gen::pow_gen<T>(hide(x), hide(y))); using V = in::simd<T, A>; T g[64];
	V(in::pow(V(hide(x)), V(hide(y)))).copy_to(g, in::element_aligned_tag()); int bad = 0; for (int i = 0; i < V::size(); ++i) if (!same(g[i], e)) bad = i;
	MC_RET_SAME(g[bad], e);
}
template <class T, class A> static void bpow(const char * nm) { static std::vector<T> v = alphabet<T>(sizeof(T) == 4 ? 12 : 100); explore(nm, 2, 1, v.size() * v.size(), [](u64 i, u64 * w) { put(v[i / v.size()], w); put(v[i % v.size()], w + 1); }, j_bpow<T, A>); }
void mc_main()
{
	Lanes<float, in::abi::scalar>::run("scalar f32"); Lanes<double, in::abi::scalar>::run("scalar f64");
	Lanes<float, in::abi::pack<1>>::run("pack1 f32"); Lanes<double, in::abi::pack<3>>::run("pack3 f64"); Lanes<float, in::abi::pack<8>>::run("pack8 f32"); Lanes<double, in::abi::pack<4>>::run("pack4 f64");
	bpow<float, in::abi::scalar>("pow scalar f32"); bpow<double, in::abi::scalar>("pow scalar f64");
	#ifdef CCMATH_HAS_SIMD_SSE2
	Lanes<float, in::abi::sse2>::run("sse2 f32"); Lanes<double, in::abi::sse2>::run("sse2 f64"); bpow<float, in::abi::sse2>("pow sse2 f32"); bpow<double, in::abi::sse2>("pow sse2 f64");
	#endif
	#ifdef CCMATH_HAS_SIMD_SSE4
	Lanes<float, in::abi::sse4>::run("sse4 f32"); Lanes<double, in::abi::sse4>::run("sse4 f64"); bpow<float, in::abi::sse4>("pow sse4 f32"); bpow<double, in::abi::sse4>("pow sse4 f64");
	#endif
	#ifdef CCMATH_HAS_SIMD_AVX2
	Lanes<float, in::abi::avx2>::run("avx2 f32"); Lanes<double, in::abi::avx2>::run("avx2 f64"); bpow<float, in::abi::avx2>("pow avx2 f32"); bpow<double, in::abi::avx2>("pow avx2 f64");
	#endif
}
// ============================================================================================== the public functions
#else
static const Ent * ge; static Grid<float> * gf; static Grid<double> * gd;
static void gridd(u64 i, u64 * w) { if (ge->ty == 'f') (*gf)(i, w); else (*gd)(i, w); }
// the sign of the smaller or larger of two zeros is unspecified
static u64 obs_zero(const u64 * w)
{
	const bool mm = std::strstr(ge->nm, "min") || std::strstr(ge->nm, "max");
	if (mm && (ge->ty == 'f' ? Fp<float>::get(w) == 0 && Fp<float>::get(w + 1) == 0 : ge->ty == 'd' ? Fp<double>::get(w) == 0 && Fp<double>::get(w + 1) == 0 : Fp<long double>::get(w) == 0 && Fp<long double>::get(w + 2) == 0)) return 0;
	return ge->fn(w);
}
void mc_main()
{
	init_alpha(1);
	static Grid<float> f(thorough ? 16 : 9); static Grid<double> d(thorough ? 9 : 4); gf = &f; gd = &d;
	for (const Ent & e : table())
	{
		const bool pw = !std::strcmp(e.nm, "pow") && e.ty != 'l'; // correctly rounded in the in-tree kernels
		if (!(e.cls & EXACT) && !pw) continue;
		if (!std::strcmp(e.nm, "lerp")) continue;
		ge = &e;
		relate(ename(e), e.ar * e.nw, 1, points(e), [](u64 i, u64 * w) { operands(*ge, i, w); }, obs_zero);
		if (e.ar == 1 && e.ty != 'l') relate(cat2(ename(e), "grid"), 1, 1, e.ty == 'f' ? f.n() : d.n(), gridd, e.fn);
	}
}
#endif
