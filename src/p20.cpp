// C20 deterministic mode: the digest of every result, compared across compilers, optimisation levels and instruction
// sets; and, in one build, stand-ins for the platform's math functions that record any call to them.
#include "fns.hpp"
using namespace mc;
#ifdef MC_INTERPOSE
static std::atomic<unsigned> calls[64];
static const char * cname[64] = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "cbrt", "hypot", "tgamma", "lgamma", "sincos"};
	#define ST1(K, N) extern "C" float mc_f_##N(float) noexcept __asm__(#N "f"); float mc_f_##N(float x) noexcept { ++calls[K]; return x; } extern "C" double mc_d_##N(double) noexcept __asm__(#N); double mc_d_##N(double x) noexcept { ++calls[K]; return x; } extern "C" long double mc_l_##N(long double) noexcept __asm__(#N "l"); long double mc_l_##N(long double x) noexcept { ++calls[K]; return x; }
	#define ST2(K, N) extern "C" float mc_f_##N(float, float) noexcept __asm__(#N "f"); float mc_f_##N(float x, float) noexcept { ++calls[K]; return x; } extern "C" double mc_d_##N(double, double) noexcept __asm__(#N); double mc_d_##N(double x, double) noexcept { ++calls[K]; return x; } extern "C" long double mc_l_##N(long double, long double) noexcept __asm__(#N "l"); long double mc_l_##N(long double x, long double) noexcept { ++calls[K]; return x; }
ST1(0, sin) ST1(1, cos) ST1(2, tan) ST1(3, asin) ST1(4, acos) ST1(5, atan) ST2(6, atan2) ST1(7, exp) ST1(8, exp2) ST1(9, expm1) ST1(10, log) ST1(11, log2) ST1(12, log10) ST1(13, log1p) ST2(14, pow) ST1(15, cbrt) ST2(16, hypot) ST1(17, tgamma) ST1(18, lgamma)
static const Ent * cur;
static bool j_lib(const u64 * w, Rep * r)
{
	const Ent & e = table()[w[0]]; unsigned before = 0, after = 0;
	static std::mutex m; std::lock_guard<std::mutex> g(m);
	for (auto & c : calls) { before += c; c = 0; } before = 0;
	u64 o = e.fn(w + 1);
	for (auto & c : calls) after += c;
	std::string who; if (before != after) for (int i = 0; i < 64; ++i) if (calls[i] && cname[i]) who += std::string(cname[i]) + " ";
	MC_RET(before == after, before == after ? show(o) : "called the platform's " + who, "no call to the platform's math library");
}
#endif
static const Ent * ge; static Grid<float> * gf; static Grid<double> * gd;
static void gridd(u64 i, u64 * w) { if (ge->ty == 'f') (*gf)(i, w); else (*gd)(i, w); }
void mc_main()
{
	init_alpha(1);
	std::vector<const Ent *> es; for (const Ent & e : table()) if ((e.cls & APPROX) || !std::strcmp(e.nm, "sqrt") || !std::strcmp(e.nm, "lerp") || !std::strcmp(e.nm, "fma")) es.push_back(&e);
#ifdef MC_INTERPOSE
	for (const Ent * e : es)
	{
		if (!(e->cls & APPROX)) continue;
		static const Ent * p; p = e;
		explore(ename(*e), 1 + e->ar * e->nw, 1, points(*e), [](u64 i, u64 * w) { w[0] = static_cast<u64>(p - table().data()); operands(*p, i, w + 1); }, j_lib);
	}
#else
	static Grid<float> f(thorough ? 16 : 9); static Grid<double> d(thorough ? 9 : 4); gf = &f; gd = &d;
	for (const Ent * e : es)
	{
		ge = e;
		relate(ename(*e), e->ar * e->nw, 1, points(*e), [](u64 i, u64 * w) { operands(*ge, i, w); }, e->fn);
		if (e->ar == 1 && e->ty != 'l') relate(cat2(ename(*e), "grid"), 1, 1, e->ty == 'f' ? f.n() : d.n(), gridd, e->fn);
	}
#endif
}
