// C23 results with and without errno handling, and errno left alone when it is off
#include "fns.hpp"
using namespace mc;
static const Ent * ge; static Grid<float> * gf; static Grid<double> * gd;
static void gridd(u64 i, u64 * w) { if (ge->ty == 'f') (*gf)(i, w); else (*gd)(i, w); }
#ifdef MC_NOERRNO
static bool j_errno(const u64 * w, Rep * r)
{
	const Ent & e = table()[w[0]];
	errno = 4242; u64 o = e.fn(w + 1); int er = errno; errno = 0;
	MC_RET(er == 4242, er == 4242 ? show(o) : "errno set to " + std::to_string(er), "errno not written");
}
#endif
void mc_main()
{
	if (thorough) init_alpha(1); else init_alpha(2);
	static Grid<float> f(thorough ? 14 : 8); static Grid<double> d(thorough ? 7 : 3); gf = &f; gd = &d;
	for (const Ent & e : table())
	{
		ge = &e;
		relate(ename(e), e.ar * e.nw, 1, points(e), [](u64 i, u64 * w) { operands(*ge, i, w); }, e.fn);
		if (e.ar == 1 && e.ty != 'l') relate(cat2(ename(e), "grid"), 1, 1, e.ty == 'f' ? f.n() : d.n(), gridd, e.fn);
#ifdef MC_NOERRNO
		// functions evaluated by the library's own code in this build
		static const char * plat[] = {"ilogb", "nextup", "nextdown", "sqrt", "fdim", "fmod", "remainder", "nextafter", "nexttoward", "ldexp", "scalbn", "scalbln"}; // (lowered to the platform's own code, which writes errno itself)
		bool pl = false; for (const char * n : plat) pl = pl || !std::strcmp(n, e.nm);
		if (pl) continue;
		static const Ent * p; p = &e;
		explore(cat2(ename(e), "errno"), 1 + e.ar * e.nw, 1, points(e), [](u64 i, u64 * w) { w[0] = static_cast<u64>(p - table().data()); operands(*p, i, w + 1); }, j_errno);
#endif
	}
}
