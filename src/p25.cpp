// C25 interpolation and range helpers
#include "ext.hpp"
using namespace mc;
namespace ex = ccm::ext;
template <class T> constexpr T MX = std::numeric_limits<T>::max();
template <class T> constexpr Q EPS = std::numeric_limits<T>::epsilon();
#define RQ(cond, g, want) do { if (!(cond)) MC_RET(false, g, want); } while (0)
// the helpers are plain arithmetic: where an intermediate leaves the normal range nothing is promised
template <class T> static bool ok(Q v) { v = aq(v); return v == 0 || (v < MX<T> / 4 && v > std::numeric_limits<T>::min() * 16 / EPS<T>); }
template <class T> static bool j_clamp(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T x = Fp<T>::get(w), a = Fp<T>::get(w + n), b = Fp<T>::get(w + 2 * n);
	if (b < a) std::swap(a, b);
	T g = keep(ex::clamp(hide(x), hide(a), hide(b))), e = x < a ? a : x > b ? b : x;
	RQ(g == e, show(g), show(e));
	if constexpr (!std::is_same_v<T, long double>)
	{
		// the mixed-type overload
		auto m = ex::clamp(hide(x), hide(static_cast<long double>(a)), hide(b));
		static_assert(std::is_same_v<decltype(m), long double>);
		RQ(m == e, "mixed " + show(m), show(e));
	}
	if (a == 0 && b == 1) { T d = keep(ex::clamp(hide(x))); RQ(d == e, "default bounds " + show(d), show(e)); }
	T s = keep(ex::saturate(hide(x))), es = x < 0 ? T(0) : x > 1 ? T(1) : x;
	MC_RET(s == es, "saturate " + show(s), show(es));
}
template <class I> static bool j_clampi(const u64 * w, Rep * r)
{
	I x = static_cast<I>(w[0]), a = static_cast<I>(w[1]), b = static_cast<I>(w[2]); if (b < a) std::swap(a, b);
	I g = ex::clamp(hide(x), hide(a), hide(b)), e = x < a ? a : x > b ? b : x;
	RQ(g == e, std::to_string(g), std::to_string(e));
	I s = ex::sign(hide(x)), es = static_cast<I>(x > 0 ? 1 : x < 0 ? -1 : 0), st = ex::step(hide(a), hide(x)), est = static_cast<I>(x < a ? 0 : 1);
	MC_RET(s == es && st == est, "sign " + std::to_string(s) + " step " + std::to_string(st), std::to_string(es) + " " + std::to_string(est));
}
template <class T> static bool j_one(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w);
	T q = keep(ex::rcp(hide(x))), eq = T(1) / hide(x); RQ(same(q, eq), "rcp " + show(q), show(eq));
	if (is_nan(x)) MC_RET(true, "", "");
	T s = keep(ex::sign(hide(x))), es = static_cast<T>(x > 0 ? 1 : x < 0 ? -1 : 0); RQ(s == es, "sign " + show(s), show(es));
	if (is_fin(x))
	{
		// the difference of x and the integer below, rounded once
		T f = keep(ex::fract(hide(x))), fl = std::floor(x), e = hide(x) - hide(fl);
		MC_RET(same(f, e) && f >= 0 && f <= 1, "fract " + show(f), show(e));
	}
	MC_RET(true, show(q), "");
}
template <class T> static bool j_two(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T x = Fp<T>::get(w), y = Fp<T>::get(w + n);
	T c = keep(ex::chgsign(hide(x), hide(y))), e = std::copysign(x, y);
	RQ(is_nan(x) ? is_nan(c) : same(c, e), "chgsign " + show(c), show(e));
	if (is_nan(x) || is_nan(y)) MC_RET(true, show(c), "");
	T st = keep(ex::step(hide(x), hide(y))), es = y < x ? T(0) : T(1); MC_RET(st == es, "step " + show(st), show(es));
}
template <class T> static bool j_approx(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n), e = Fp<T>::get(w + 2 * n);
	bool g = ex::approximately(hide(a), hide(b), hide(e)), h = ex::approximately(hide(b), hide(a), hide(e));
	RQ(g == h, "not symmetric", "symmetric");
	Q d = aq(static_cast<Q>(a) - b); if (d > MX<T> / 2) MC_RET(true, "", "");
	if (static_cast<Q>(e) > d * (1 + EPS<T>) || (e >= 0 && d == 0)) MC_RET(g, "far", "close");
	if (static_cast<Q>(e) < d * (1 - EPS<T>) || e < 0) MC_RET(!g, "close", "far");
	MC_RET(true, "", "");
}
template <class T> static bool j_mix(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T x = Fp<T>::get(w), y = Fp<T>::get(w + n), a = Fp<T>::get(w + 2 * n);
	T g = keep(ex::mix(hide(x), hide(y), hide(a)));
	Q p = static_cast<Q>(x) * (1 - static_cast<Q>(a)), q = static_cast<Q>(y) * a;
	if (a == 0) MC_RET(g == x, show(g), show(x));
	if (a == 1) MC_RET(g == y, show(g), show(y));
	if (!ok<T>(p) || !ok<T>(q)) MC_RET(true, show(g), "");
	RQ(aq(static_cast<Q>(g) - (p + q)) <= 2 * EPS<T> * (aq(p) + aq(q)), show(g), sq<T>(p + q));
	if constexpr (std::is_same_v<T, double>) { auto m = ex::mix(hide(x), hide(static_cast<long double>(y)), hide(a)); RQ(aq(static_cast<Q>(m) - (p + q)) <= 2 * EPS<T> * (aq(p) + aq(q)), "mixed " + show(m), sq<T>(p + q)); }
	MC_RET(true, show(g), "");
}
template <class T> static bool j_unlerp(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n), x = Fp<T>::get(w + 2 * n);
	T s = keep(ex::safe::unlerp(hide(a), hide(b), hide(x))), s2 = keep(ex::safe::inverse_lerp(hide(a), hide(b), hide(x)));
	RQ(same(s, s2), "safe::inverse_lerp " + show(s2), show(s));
	if (a == b) MC_RET(s == 0, "safe " + show(s), "0 for an empty range");
	T g = keep(ex::unlerp(hide(a), hide(b), hide(x))), g2 = keep(ex::inverse_lerp(hide(a), hide(b), hide(x)));
	RQ(same(g, g2), "inverse_lerp " + show(g2), show(g)); RQ(same(g, s), "safe " + show(s), show(g));
	Q p = static_cast<Q>(x) - a, q = static_cast<Q>(b) - a;
	if (aq(p) > MX<T> / 4 || aq(q) > MX<T> / 4) MC_RET(true, show(g), "");
	if (x == a) MC_RET(g == 0, show(g), "0");
	if (x == b) MC_RET(g == 1, show(g), "1");
	Q e = p / q; if (!ok<T>(e)) MC_RET(true, show(g), "");
	MC_RET(aq(static_cast<Q>(g) - e) <= 2 * EPS<T> * aq(e), show(g), sq<T>(e));
}
template <class T> static bool j_remap(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n), c = Fp<T>::get(w + 2 * n), d = Fp<T>::get(w + 3 * n), x = Fp<T>::get(w + 4 * n);
	T s = keep(ex::safe::remap(hide(a), hide(b), hide(c), hide(d), hide(x)));
	if (a == b) MC_RET(s == c, "safe " + show(s), show(c));
	T g = keep(ex::remap(hide(a), hide(b), hide(c), hide(d), hide(x)));
	RQ(same(g, s), "safe " + show(s), show(g));
	Q p = static_cast<Q>(x) - a, q = static_cast<Q>(b) - a, o = static_cast<Q>(d) - c, t = p * o / q;
	if (!ok<T>(p) || !ok<T>(q) || !ok<T>(o) || !ok<T>(t) || !ok<T>(p * o)) MC_RET(true, show(g), "");
	if (x == a) MC_RET(g == c, show(g), show(c));
	MC_RET(aq(static_cast<Q>(g) - (c + t)) <= EPS<T> * (3 * aq(t) + aq(c + t)), show(g), sq<T>(c + t)); // x == b included: c + t is d
}
template <class T> static bool j_smooth(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n), x = Fp<T>::get(w + 2 * n);
	if (b < a) std::swap(a, b);
	if (a == b) MC_RET(true, "", "");
	T g = keep(ex::smoothstep(hide(a), hide(b), hide(x)));
	Q p = static_cast<Q>(x) - a, q = static_cast<Q>(b) - a;
	if (aq(p) > MX<T> / 4 || q > MX<T> / 4) MC_RET(true, show(g), "");
	if (x <= a) MC_RET(g == 0, show(g), "0");
	if (x >= b) MC_RET(g == 1, show(g), "1");
	Q u = p / q, e = u * u * (3 - 2 * u);
	RQ(g >= 0 && g <= 1 + static_cast<T>(EPS<T>), show(g), "within [0, 1]");
	if (!ok<T>(e)) MC_RET(true, show(g), "");
	MC_RET(aq(static_cast<Q>(g) - e) <= 8 * EPS<T> * e, show(g), sq<T>(e));
}
template <class T> static bool j_cubic(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T y[4], t = Fp<T>::get(w + 4 * n); for (int i = 0; i < 4; ++i) y[i] = Fp<T>::get(w + i * n);
	T g = keep(ex::cubic(hide(y[0]), hide(y[1]), hide(y[2]), hide(y[3]), hide(t)));
	Q sum = 0; for (T v : y) { if (!ok<T>(v)) MC_RET(true, show(g), ""); sum += aq(v); }
	if (!ok<T>(sum * t * t * t)) MC_RET(true, show(g), "");
	if (t == 0) MC_RET(g == y[1], show(g), show(y[1]));
	Q a0 = static_cast<Q>(y[3]) - y[2] - y[0] + y[1], a1 = static_cast<Q>(y[0]) - y[1] - a0, a2 = static_cast<Q>(y[2]) - y[0], e = ((a0 * t + a1) * t + a2) * t + y[1], at = aq(t), sc = at > 1 ? at * at * at : 1;
	MC_RET(aq(static_cast<Q>(g) - e) <= 12 * EPS<T> * sum * sc, show(g), sq<T>(e)); // t == 1 included: e is y[2]
}
#if (defined(__clang__) && defined(MC_FORCE_CE)) || defined(MC_DET)
static constexpr double LSL = 8192; // the in-tree long double exp2 has double accuracy
#else
static constexpr double LSL = 0;
#endif
template <class T> static bool j_lsmooth(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n), t = Fp<T>::get(w + 2 * n), h = Fp<T>::get(w + 3 * n);
	constexpr double LS = std::is_same_v<T, long double> ? LSL : 0;
	if (t < 0) t = -t; if (h < 0) h = -h;
	if (h == 0 || !ok<T>(a) || !ok<T>(b) || !ok<T>(t / static_cast<Q>(h)) || !ok<T>(static_cast<Q>(a) - b)) MC_RET(true, "", "");
	if (LS > 0 && t / h > 1000) MC_RET(true, "", ""); // ... and its range
	T g = keep(ex::lerp_smooth(hide(a), hide(b), hide(t), hide(h)));
	Q d = static_cast<Q>(a) - b; T k = -t / h;
	long double f = std::exp2(static_cast<long double>(k));
	if (f < std::numeric_limits<T>::min() || !ok<T>(d * f)) { MC_RET(aq(static_cast<Q>(g) - b) <= EPS<T> * aq(b) + aq(d) * (2 * static_cast<Q>(f) + 2 * static_cast<Q>(std::numeric_limits<T>::min())) + std::numeric_limits<T>::min(), show(g), show(b)); }
	Q e = b + d * f;
	// the argument of exp2 is rounded once (relative error eps / 2, so k ln2 eps / 2 in the factor), exp2 is good to a few ulps
	Q tol = EPS<T> * (aq(d) * f * (6 + (1 + LS) * (1 + aq(k))) + aq(e));
	RQ(aq(static_cast<Q>(g) - e) <= tol, show(g), sq<T>(e));
	Q lo = a < b ? a : b, hi = a < b ? b : a;
	MC_RET(g >= lo - tol && g <= hi + tol, show(g), "between the end points");
}
template <class T> static void run(const char *)
{
	constexpr int n = Fp<T>::nw;
	static std::vector<T> v = moderate<T>(), sm, al = alphabet<T>(std::is_same_v<T, float> ? 1 : std::is_same_v<T, double> ? 2 : 20), big, tt, y4, nn;
	for (T x : specials<T>(false)) if (is_fin(x)) v.push_back(x); uniq(v);
	big = v; big.push_back(INFINITY); big.push_back(-INFINITY);
	auto thin = [](const std::vector<T> & s, size_t k) { std::vector<T> o; for (size_t i = 0; i < s.size(); i += std::max<size_t>(1, s.size() / k)) o.push_back(s[i]); return o; };
	static std::vector<T> m = moderate<T>(); sm = thin(m, thorough ? 48 : 26); for (T x : {T(0), T(1), T(-1), T(3), T(0.1L), T(10)}) sm.push_back(x); uniq(sm);
	y4 = thin(m, thorough ? 26 : 13); for (T x : {T(0), T(1), T(-2)}) y4.push_back(x); uniq(y4);
	tt = {0, 1, T(0.5), T(0.25), T(0.1L), T(0.9L), -1, 2, T(-0.5), dn(T(1)), up(T(1)), T(1e-10L), T(1.0L / 3), T(7.5L), T(100)};
	static std::vector<T> full = alphabet<T>(std::is_same_v<T, float> ? 40 : std::is_same_v<T, double> ? 200 : 3000); for (T x : specials<T>()) full.push_back(x); nn = al; for (T x : specials<T>()) nn.push_back(x);
	static std::vector<T> th = thin(big, 60); th.push_back(0); th.push_back(1);
	explore(cat2("clamp", Fp<T>::name), 3 * n, 4, big.size() * th.size() * th.size(), gen3(big, th, th), j_clamp<T>);
	explore(cat2("unary", Fp<T>::name), n, 3, nn.size(), gen1(nn), j_one<T>);
	explore(cat2("sign transfer and step", Fp<T>::name), 2 * n, 2, full.size() * full.size(), gen2(full, full), j_two<T>);
	explore(cat2("approximately", Fp<T>::name), 3 * n, 2, v.size() * v.size() * sm.size(), gen3(v, v, sm), j_approx<T>);
	static std::vector<T> near; for (T x : sm) { T a = x, b = x; for (int i = 0; i < 4; ++i) { near.push_back(a); near.push_back(b); a = up(a); b = dn(b); } near.push_back(x + T(0.1L)); } uniq(near);
	static std::vector<T> dl; for (T x : sm) for (T y : {up(x), up(up(x)), x + T(0.1L), dn(x)}) { T d = y - x; dl.push_back(d < 0 ? -d : d); } uniq(dl);
	explore(cat2("approximately near", Fp<T>::name), 3 * n, 2, near.size() * near.size() * dl.size(), gen3(near, near, dl), j_approx<T>);
	explore(cat2("mix", Fp<T>::name), 3 * n, 1, v.size() * v.size() * tt.size(), gen3(v, v, tt), j_mix<T>);
	static std::vector<T> t01; for (int i = 0; i <= 256; ++i) { T x = T(i) / 256; t01.push_back(x); t01.push_back(up(x)); t01.push_back(dn(x)); t01.push_back(x + T(1e-3L)); }
	explore(cat2("mix line", Fp<T>::name), 3 * n, 1, sm.size() * sm.size() * t01.size(), gen3(sm, sm, t01), j_mix<T>);
	explore(cat2("unlerp", Fp<T>::name), 3 * n, 4, v.size() * v.size() * th.size(), gen3(th, v, v), j_unlerp<T>);
	explore(cat2("smoothstep", Fp<T>::name), 3 * n, 1, v.size() * v.size() * th.size(), gen3(th, v, v), j_smooth<T>);
	// inside the interval: x = a + t (b - a)
	static auto in = [](u64 i, u64 * w) { T t = t01[i % t01.size()]; i /= t01.size(); T a = sm[i % sm.size()], b = sm[i / sm.size()]; put(a, w); put(b, w + Fp<T>::nw); put(static_cast<T>(a + t * (b - a)), w + 2 * Fp<T>::nw); };
	explore(cat2("unlerp inside", Fp<T>::name), 3 * n, 4, t01.size() * sm.size() * sm.size(), in, j_unlerp<T>);
	explore(cat2("smoothstep inside", Fp<T>::name), 3 * n, 1, t01.size() * sm.size() * sm.size(), in, j_smooth<T>);
	static u64 S = sm.size();
	static auto five = [](u64 i, u64 * w) { for (int k = 0; k < 5; ++k) { put(sm[i % S], w + k * Fp<T>::nw); i /= S; } };
	explore(cat2("remap", Fp<T>::name), 5 * n, 2, S * S * S * S * S / (thorough ? 1 : 4), five, j_remap<T>);
	static u64 Y = y4.size();
	static auto cub = [](u64 i, u64 * w) { put(tt[i % tt.size()], w + 4 * Fp<T>::nw); i /= tt.size(); for (int k = 0; k < 4; ++k) { put(y4[i % Y], w + k * Fp<T>::nw); i /= Y; } };
	explore(cat2("cubic", Fp<T>::name), 5 * n, 1, Y * Y * Y * Y * tt.size(), cub, j_cubic<T>);
	static auto four = [](u64 i, u64 * w) { for (int k = 0; k < 4; ++k) { put(sm[i % S], w + k * Fp<T>::nw); i /= S; } };
	explore(cat2("lerp_smooth", Fp<T>::name), 4 * n, 1, S * S * S * S, four, j_lsmooth<T>);
}
template <class I> static void ints(const char * nm) { static std::vector<I> v = ints_alphabet<I>(); explore(nm, 3, 3, v.size() * v.size() * v.size(), [](u64 i, u64 * w) { for (int k = 0; k < 3; ++k) { w[k] = static_cast<u64>(v[i % v.size()]); i /= v.size(); } }, j_clampi<I>); }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	run<float>("f32"); run<double>("f64"); run<long double>("f80");
	ints<signed char>("int8"); ints<unsigned char>("uint8"); ints<short>("int16"); ints<int>("int32"); ints<unsigned>("uint32"); ints<long>("int64"); ints<unsigned long>("uint64");
}
