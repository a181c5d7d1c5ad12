// C34: no library call executes undefined behaviour, reads or writes outside its objects, or fails to terminate.
// Built with trapping sanitizers; the judge accepts every value, the explorer reports traps and hangs.
#include "fns.hpp"
using namespace mc;
namespace
{
	template <class T> constexpr const char * tn() { return std::is_same_v<T, float> ? "f32" : std::is_same_v<T, double> ? "f64" : "f80"; }
	template <class T> std::vector<T> & S() { static std::vector<T> v; return v; }
	std::vector<long long> & I() { static std::vector<long long> v; return v; }
	template <class T, class F> void scale(const char * nm, F)
	{
		explore(cat2(nm, tn<T>()), Fp<T>::nw + 1, 1, S<T>().size() * I().size(), [](u64 i, u64 * w) { put(S<T>()[i % S<T>().size()], w); w[Fp<T>::nw] = static_cast<u64>(I()[i / S<T>().size()]); },
				[](const u64 * w, Rep *) { keep(F::c(hide(Fp<T>::get(w)), hide(static_cast<long long>(w[Fp<T>::nw])))); return true; });
	}
	struct s_ldexp { template <class T> static T c(T x, long long n) { return ccm::ldexp(x, static_cast<int>(n)); } };
	struct s_scalbn { template <class T> static T c(T x, long long n) { return ccm::scalbn(x, static_cast<int>(n)); } };
	struct s_scalbln { template <class T> static T c(T x, long long n) { return ccm::scalbln(x, static_cast<long>(n)); } };
	template <class T> void dense(const Ent & e)
	{ // one operand: every binade of the format at many significands (2^16 equally spaced encodings and their neighbours)
		const u64 N = mc::thorough ? 1u << 19 : 1u << 15;
		static const Ent * cur; cur = &e;
		auto gen = [N](u64 i, u64 * w) {
			if constexpr (std::is_same_v<T, float>) w[0] = (static_cast<u32>(i * (0x100000000ull / N)) + static_cast<u32>(i * 0x9e3779b1u >> 20));
			else if constexpr (std::is_same_v<T, double>) w[0] = i * (~0ull / N) + (i * 0x9e3779b97f4a7c15ull >> 20);
			else { u64 se = i * 65536 / N; u64 m = (i * 0x9e3779b97f4a7c15ull); w[1] = se; w[0] = (se & 0x7fff) ? m | 1ull << 63 : m >> 1; if ((se & 0x7fff) == 0x7fff) w[0] = (i & 1) ? 1ull << 63 : 3ull << 62; }
		};
		explore(cat2("dense ", ename(e)), e.nw, 1, N, gen, [](const u64 * w, Rep *) { cur->fn(w); return true; });
	}
}
void mc_main()
{
	init_alpha(mc::thorough ? 1 : 2);
	for (const Ent & e0 : table())
	{
		static const Ent * cur; const Ent & e = e0; cur = &e;
		explore(ename(e), e.nw * e.ar, 1, points(e), [&e](u64 i, u64 * w) { operands(e, i, w); }, [](const u64 * w, Rep *) { cur->fn(w); return true; });
		if (e.ar == 1) { if (e.ty == 'f') dense<float>(e); else if (e.ty == 'd') dense<double>(e); else dense<long double>(e); }
	}
	for (int b = 0; b < 63; ++b) for (int d = -1; d <= 1; ++d) { long long v = (1LL << b) + d; I().push_back(v); I().push_back(-v); }
	for (int k = -40; k <= 40; ++k) for (long long c : {0LL, 126LL, 149LL, 1023LL, 1074LL, 16382LL, 16445LL, 2098LL, 32830LL}) { I().push_back(c + k); I().push_back(-c + k); }
	I().push_back(LLONG_MIN); I().push_back(LLONG_MAX);
	std::sort(I().begin(), I().end()); I().erase(std::unique(I().begin(), I().end()), I().end());
	S<float>() = alphabet<float>(2); S<double>() = alphabet<double>(16); S<long double>() = alphabet<long double>(260);
	scale<float>("ldexp int ", s_ldexp{}); scale<double>("ldexp int ", s_ldexp{}); scale<long double>("ldexp int ", s_ldexp{});
	scale<float>("scalbn int ", s_scalbn{}); scale<double>("scalbn int ", s_scalbn{}); scale<long double>("scalbn int ", s_scalbn{});
	scale<float>("scalbln int ", s_scalbln{}); scale<double>("scalbln int ", s_scalbln{}); scale<long double>("scalbln int ", s_scalbln{});
}
