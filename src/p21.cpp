// C21 the floating-point environment: every public function x operands x rounding mode x sticky-flag state x trap state
#include "fns.hpp"
#include <immintrin.h>
using namespace mc;
static const int FL[7] = {0, FE_ALL_EXCEPT, FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT};
struct Ctl { unsigned mx; unsigned short cw; int rm, tr; };
static Ctl ctl() { Ctl c{_mm_getcsr() & 0xffc0u, 0, std::fegetround(), ::fegetexcept()}; asm volatile("fnstcw %0" : "=m"(c.cw)); return c; }
static bool operator==(const Ctl & a, const Ctl & b) { return a.mx == b.mx && a.cw == b.cw && a.rm == b.rm && a.tr == b.tr; }
static std::string fl(int f) { std::string s; if (f & FE_INVALID) s += "invalid "; if (f & FE_DIVBYZERO) s += "divbyzero "; if (f & FE_OVERFLOW) s += "overflow "; if (f & FE_UNDERFLOW) s += "underflow "; if (f & FE_INEXACT) s += "inexact "; return s.empty() ? "none" : s; }
static std::string sh(const Ctl & c) { char b[80]; std::snprintf(b, 80, "mxcsr %x x87 %x round %x traps %x", c.mx, c.cw, c.rm, c.tr); return b; }
template <class T> static bool snan_any(const Ent & e, const u64 * w) { for (int i = 0; i < e.ar; ++i) if (is_snan(Fp<T>::get(w + i * e.nw))) return true; return false; }
static bool has_snan(const Ent & e, const u64 * w) { return e.ty == 'f' ? snan_any<float>(e, w) : e.ty == 'd' ? snan_any<double>(e, w) : snan_any<long double>(e, w); }
template <class T> static bool fin_nz(const u64 * w) { T x = Fp<T>::get(w); return is_fin(x) && x != 0; }
static bool finnz(const Ent & e, const u64 * w) { return e.ty == 'f' ? fin_nz<float>(w) : e.ty == 'd' ? fin_nz<double>(w) : fin_nz<long double>(w); }
// w: entry, mode, flags, operands
static bool j_env(const u64 * w, Rep * r)
{
	const Ent & e = table()[w[0]]; int before = FL[w[2]]; Ctl a, b; int after; u64 o;
	std::fenv_t save; std::fegetenv(&save);
	std::fesetround(RM[w[1]]); std::feclearexcept(FE_ALL_EXCEPT); if (before) std::feraiseexcept(before);
	before = std::fetestexcept(FE_ALL_EXCEPT);
	a = ctl(); o = e.fn(w + 3); b = ctl(); after = std::fetestexcept(FE_ALL_EXCEPT);
	std::fesetenv(&save);
	if (!(a == b)) MC_RET(false, sh(b), sh(a));
	if ((after & before) != before) MC_RET(false, "flags after: " + fl(after), "still raised: " + fl(before));
	int added = after & ~before; bool sn = has_snan(e, w + 3);
	bool silent = ((e.cls & SILENT) && !sn) || ((!std::strcmp(e.nm, "logb") || !std::strcmp(e.nm, "ilogb")) && finnz(e, w + 3));
	if (silent && added) MC_RET(false, "raised " + fl(added), "no flag");
	if (!std::strcmp(e.nm, "nearbyint") && !sn && added) MC_RET(false, "raised " + fl(added), "no flag");
	MC_RET(true, show(o), "");
}
// exceptions the call does not raise may be trapped: the call returns, leaves the trap state alone and gives the same result
static bool j_trap(const u64 * w, Rep * r)
{
	const Ent & e = table()[w[0]]; Ctl a, b; u64 o, o2; int after;
	std::fenv_t save; std::fegetenv(&save);
	std::fesetround(RM[w[1]]); std::feclearexcept(FE_ALL_EXCEPT); o = e.fn(w + 3); after = std::fetestexcept(FE_ALL_EXCEPT);
	std::feclearexcept(FE_ALL_EXCEPT);
	int en = (FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID) & ~after; if (w[2]) en &= FE_DIVBYZERO; ::feenableexcept(en);
	a = ctl(); o2 = e.fn(w + 3); b = ctl();
	std::feclearexcept(FE_ALL_EXCEPT); std::fesetenv(&save);
	if (!(a == b)) MC_RET(false, sh(b), sh(a));
	MC_RET(o == o2, show(o2), show(o));
}
// history independence: the result and the flags of a call do not depend on the call made before it
static std::vector<double> sm = {0.0, -0.0, 1.0, -1.5, 0x1p-1074, 1e300, -INFINITY, NAN, 3.0, 0.7};
static void opnd(const Ent & e, u64 k, u64 * w) { for (int i = 0; i < e.ar; ++i) { double d = sm[(k + static_cast<u64>(i) * 3) % sm.size()]; if (e.ty == 'f') put(static_cast<float>(d), w + i); else if (e.ty == 'd') put(d, w + i); else put(static_cast<long double>(d), w + 2 * i); } }
static bool j_seq(const u64 * w, Rep * r)
{
	const Ent & f = table()[w[0]]; const Ent & g = table()[w[1]]; u64 p[6] = {}, q[6] = {}; opnd(f, w[2], p); opnd(g, w[3], q);
	Round m(RM[w[4]]);
	std::feclearexcept(FE_ALL_EXCEPT); u64 o1 = g.fn(q); int f1 = std::fetestexcept(FE_ALL_EXCEPT);
	std::feclearexcept(FE_ALL_EXCEPT); u64 of = f.fn(p); std::feclearexcept(FE_ALL_EXCEPT); (void)of;
	u64 o2 = g.fn(q); int f2 = std::fetestexcept(FE_ALL_EXCEPT); std::feclearexcept(FE_ALL_EXCEPT);
	if (o1 != o2) MC_RET(false, std::string(g.nm) + " after " + f.nm + ": " + show(o2), show(o1));
	MC_RET(f1 == f2, std::string(g.nm) + " after " + f.nm + ": " + fl(f2), fl(f1));
}
void mc_main()
{
	if (thorough) init_alpha(4); else thin(110, 26);
	static const Ent * p;
	for (const Ent & e : table())
	{
		p = &e; u64 n = points(e); int nw = 3 + e.ar * e.nw;
		explore(ename(e), nw, 1, n * 28, [](u64 i, u64 * w) { u64 N = points(*p); w[0] = static_cast<u64>(p - table().data()); w[1] = i / N % 4; w[2] = i / N / 4; operands(*p, i % N, w + 3); }, j_env);
		explore(cat2(ename(e), "trapped"), nw, 2, n * 8, [](u64 i, u64 * w) { u64 N = points(*p); w[0] = static_cast<u64>(p - table().data()); w[1] = i / N % 4; w[2] = i / N / 4; operands(*p, i % N, w + 3); }, j_trap);
	}
	static u64 NE = table().size(), NS = sm.size();
	explore("call pairs", 5, 3, NE * NE * NS * NS * 4, [](u64 i, u64 * w) { w[3] = i % NS; i /= NS; w[2] = i % NS; i /= NS; w[4] = i % 4; i /= 4; w[0] = i % NE; w[1] = i / NE; }, j_seq);
}
