// C22 errno and exception flags of domain and pole errors (run time, default configuration)
#include "fns.hpp"
using namespace mc;
using LD = long double;
template <class T> static bool isint(T x) { return is_fin(x) && std::nearbyint(x) == x; }
struct Want { bool dom = false, pole = false, may = false; };
// the C standard's classification by mathematical definition (Annex F for zeros, infinities and NaNs); may: left open there
template <class T> static Want classify(const char * nm, const T * x)
{
	Want k; auto is = [&](const char * s) { return !std::strcmp(nm, s); }; T a = x[0], b = x[1], c = x[2];
	if (is("sin") || is("cos") || is("tan")) k.dom = is_inf(a);
	else if (is("asin") || is("acos")) k.dom = a > 1 || a < -1;
	else if (is("log") || is("log2") || is("log10")) { k.dom = a < 0; k.pole = a == 0; }
	else if (is("log1p")) { k.dom = a < -1; k.pole = a == -1; }
	else if (is("sqrt")) k.dom = a < 0;
	else if (is("tgamma") || is("gamma")) { k.dom = (a < 0 && isint(a)) || (is_inf(a) && a < 0); k.pole = a == 0; }
	else if (is("lgamma")) k.pole = a <= 0 && isint(a);
	else if (is("logb")) k.pole = k.may = a == 0;
	else if (is("ilogb")) k.dom = k.may = a == 0 || !is_fin(a);
	else if (is("fmod") || is("remainder") || is("remquo")) { k.dom = !is_nan(a) && !is_nan(b) && (is_inf(a) || b == 0); k.may = false; }
	else if (is("pow")) { k.dom = is_fin(a) && a < 0 && is_fin(b) && !isint(b); k.pole = a == 0 && b < 0 && !is_inf(b); k.may = a == 0 && is_inf(b) && b < 0; }
	else if (is("fma")) { bool iz = (is_inf(a) && b == 0) || (a == 0 && is_inf(b)); k.dom = (iz && !is_nan(c)) || ((is_inf(a) || is_inf(b)) && !iz && !is_nan(a) && !is_nan(b) && is_inf(c) && (sgn(a) != sgn(b)) != sgn(c)); k.may = iz && is_nan(c); }
	return k;
}
static std::string fl(int f, int e) { std::string s; if (f & FE_INVALID) s += "invalid "; if (f & FE_DIVBYZERO) s += "divbyzero "; if (f & FE_OVERFLOW) s += "overflow "; if (f & FE_UNDERFLOW) s += "underflow "; s += e == EDOM ? "EDOM" : e == ERANGE ? "ERANGE" : e == 0 ? "no errno" : "errno " + std::to_string(e); return s; }
template <class T> static bool judge_(const Ent & e, const u64 * w, Rep * r)
{
	T x[3] = {}; for (int i = 0; i < e.ar; ++i) { x[i] = Fp<T>::get(w + i * e.nw); if (is_snan(x[i])) return true; }
	errno = 0; std::feclearexcept(FE_ALL_EXCEPT);
	u64 o = e.fn(w);
	int er = errno, f = std::fetestexcept(FE_ALL_EXCEPT); std::feclearexcept(FE_ALL_EXCEPT); errno = 0;
	Want k = classify<T>(e.nm, x); auto is = [&](const char * s) { return !std::strcmp(e.nm, s); };
	std::string g = show(o) + " " + fl(f, er);
	bool noerrno = is("fma") || is("ilogb") || is("logb") || is("remquo") || // (the platform does not set errno there)
		 (e.ar == 2 && (is("lerp")));
	if (k.may) MC_RET(true, g, "");
	if (is("lerp")) MC_RET(er == 0, g, "no errno"); // arithmetic on its arguments
	if (e.ty == 'l' && is("pow") && is_fin(x[1]) && (x[1] >= T(0x1p62L) || x[1] <= T(-0x1p62L))) MC_RET(true, g, ""); // the platform's powl converts such exponents to an integer (spurious invalid)
	if (k.dom) MC_RET((f & FE_INVALID) && !(f & FE_DIVBYZERO) && (noerrno ? true : er == EDOM), g, "EDOM, invalid");
	if (k.pole) MC_RET((f & FE_DIVBYZERO) && !(f & FE_INVALID) && (noerrno ? true : er == ERANGE), g, "ERANGE, divbyzero");
	if (f & (FE_INVALID | FE_DIVBYZERO)) MC_RET(false, g, "neither invalid nor divbyzero");
	if (er != 0 && !(er == ERANGE && (f & (FE_OVERFLOW | FE_UNDERFLOW)))) MC_RET(false, g, "errno untouched");
	MC_RET(true, g, "");
}
static bool j_err(const u64 * w, Rep * r) { const Ent & e = table()[w[0]]; return e.ty == 'f' ? judge_<float>(e, w + 1, r) : e.ty == 'd' ? judge_<double>(e, w + 1, r) : judge_<long double>(e, w + 1, r); }
void mc_main()
{
	init_alpha(thorough ? 1 : 2);
	static const Ent * p;
	for (const Ent & e : table())
	{
		if (e.ty == 'l' && !std::strcmp(e.nm, "remquo")) continue; // documented to be evaluated in double
		p = &e;
		explore(ename(e), 1 + e.ar * e.nw, 1, points(e), [](u64 i, u64 * w) { w[0] = static_cast<u64>(p - table().data()); operands(*p, i, w + 1); }, j_err);
	}
}
