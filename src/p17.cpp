// C17 lerp
#include "lib.hpp"
using namespace mc;
using Q = __float128;
template <class T> static Q ulpq(Q v) { if (v < 0) v = -v; if (v > std::numeric_limits<T>::max()) v = std::numeric_limits<T>::max(); return static_cast<Q>(ulp_of(T{}, static_cast<long double>(v))); }
static Q aq(Q x) { return x < 0 ? -x : x; }
template <class T> static int cls(T x) { return is_nan(x) ? 0 : is_inf(x) ? (sgn(x) ? 1 : 2) : 3; }
template <class T> static T L(T a, T b, T t) { return keep(ccm::lerp(hide(a), hide(b), hide(t))); }
template <class T> static bool j_val(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw;
	T a = Fp<T>::get(w), b = Fp<T>::get(w + n), t = Fp<T>::get(w + 2 * n), g = L(a, b, t);
	if (!is_fin(a) || !is_fin(b) || !is_fin(t))
	{ // as std::lerp: a NaN argument gives a NaN, infinities follow its arithmetic
		if (is_nan(a) || is_nan(b) || is_nan(t)) MC_RET(is_nan(g), show(g), "nan");
		T s = std::lerp(a, b, t);
		bool ok = cls(s) == cls(g) && (cls(s) != 3 || same(s, g) || (is_fin(s) && aq(static_cast<Q>(s) - static_cast<Q>(g)) <= 2 * ulpq<T>(s)));
		MC_RET(ok, show(g), show(s));
	}
	if (t == 0) MC_RET(g == a, show(g), "a = " + show(a));
	if (t == 1) MC_RET(g == b, show(g), "b = " + show(b));
	if (a == b) MC_RET(g == a, show(g), "a = b = " + show(a));
	T lo = a < b ? a : b, hi = a < b ? b : a;
	if (t > 0 && t < 1 && !(g >= lo && g <= hi)) MC_RET(false, show(g), "within [" + show(lo) + ", " + show(hi) + "]");
	if (is_nan(g)) MC_RET(false, show(g), "a number");
	if ((t > 1 && (b > a ? g < b : g > b)) || (t < 0 && (b > a ? g > a : g < a))) MC_RET(false, show(g), "beyond the end point t points at");
	Q A = a, B = b, T1 = t, e = A + T1 * (B - A), m1 = aq(T1 * B), m2 = aq((1 - T1) * A), m3 = aq(T1 * (B - A)), mx = static_cast<Q>(std::numeric_limits<T>::max()) / 4;
	if (m1 > mx || m2 > mx || m3 > mx) { r ? (void)(r->got = show(g)) : (void)0; return true; }
	// each product and the sum round once
	Q tol = ulpq<T>(m1) + ulpq<T>(m2) + ulpq<T>(e) + ulpq<T>(m3) + ulpq<T>(A > B ? A : B) * (aq(T1) > 1 ? aq(T1) : 1) / 2 + ulpq<T>(A) * (aq(T1) > 1 ? aq(T1) : 1);
	MC_RET(aq(static_cast<Q>(g) - e) <= tol, show(g), show(static_cast<T>(e)));
}
// monotonic in t: w = a, b, t1, t2 with t1 < t2
template <class T> static bool j_mono(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw;
	T a = Fp<T>::get(w), b = Fp<T>::get(w + n), t1 = Fp<T>::get(w + 2 * n), t2 = Fp<T>::get(w + 3 * n), g1 = L(a, b, t1), g2 = L(a, b, t2);
	bool ok = is_nan(g1) || is_nan(g2) ? false : b > a ? g2 >= g1 : b < a ? g2 <= g1 : g1 == g2;
	MC_RET(ok, show(g1) + " -> " + show(g2), b > a ? "not decreasing" : "not increasing");
}
template <class T> static void run(int estep, int tn)
{
	static std::vector<T> v = alphabet<T>(estep), t = specials<T>(), vf, tf;
	for (T c : {T(0), T(1), T(0.5), T(0.25), T(2), T(1.0L / 3)}) { T x = c, y = c; for (int i = 0; i < tn; ++i) { t.push_back(x); t.push_back(-x); t.push_back(y); x = up(x); y = dn(y); } }
	for (int i = 1; i < 16; ++i) t.push_back(T(i) / T(16)), t.push_back(T(0.1L) * T(i));
	uniq(t);
	explore(cat2("lerp values", Fp<T>::name), 3 * Fp<T>::nw, 1, v.size() * v.size() * t.size(), gen3(v, v, t), j_val<T>);
	for (T x : v) if (is_fin(x)) vf.push_back(x);
	for (T x : t) if (is_fin(x)) tf.push_back(x);
	std::sort(tf.begin(), tf.end()); tf.erase(std::unique(tf.begin(), tf.end()), tf.end());
	// neighbours in the sorted list; infinite only when the exact value is, so every pair is comparable
	explore(cat2("lerp monotonic", Fp<T>::name), 4 * Fp<T>::nw, 2, vf.size() * vf.size() * (tf.size() - 1), [](u64 i, u64 * w) { u64 k = i % (tf.size() - 1); i /= tf.size() - 1; constexpr int n = Fp<T>::nw; put(vf[i % vf.size()], w); put(vf[i / vf.size()], w + n); put(tf[k], w + 2 * n); put(tf[k + 1], w + 3 * n); }, j_mono<T>);
	// dense sweeps of t for close and for spread ends
	static const u64 M = 20000; static std::vector<std::pair<T, T>> ab = {{1, 2}, {-1, 1}, {T(0.1L), T(0.3L)}, {1, up(T(1))}, {T(1), T(1e10L)}, {-3, 7}, {T(-1e20L), T(1e-20L)}, {std::numeric_limits<T>::max(), -std::numeric_limits<T>::max()}, {std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min()}, {5, 4}, {T(-7), T(-1.0L / 3)}, {T(1.1L), up(up(up(T(1.1L))))}};
	explore(cat2("lerp sweep", Fp<T>::name), 4 * Fp<T>::nw, 2, ab.size() * M, [](u64 i, u64 * w) { constexpr int n = Fp<T>::nw; T t = T(-0.5) + T(2) * T(i % M) / T(M); put(ab[i / M].first, w); put(ab[i / M].second, w + n); put(t, w + 2 * n); put(up(t), w + 3 * n); }, j_mono<T>);
}
template <class A, class B, class C> static bool j_type(const u64 * w, Rep * r)
{
	using T = std::common_type_t<A, B, C>;
	auto cv = [](u64 k, auto tag) { using X = decltype(tag); static const double V[] = {0, 1, 2, 3, 7, 100, 0.5, 0.25, 1.5, 0.1, 1e6}; return static_cast<X>(V[k]); };
	A a = cv(w[0], A{}); B b = cv(w[1], B{}); C c = cv(w[2], C{});
	auto g = keep(ccm::lerp(hide(a), hide(b), hide(c))); static_assert(std::is_same_v<decltype(g), T>);
	T e = L<T>(static_cast<T>(a), static_cast<T>(b), static_cast<T>(c));
	MC_RET(g == e, show(g), show(e));
}
template <class A, class B, class C> static void types(const char * nm) { explore(nm, 3, 1, 11 * 11 * 11, [](u64 i, u64 * w) { w[0] = i % 11; w[1] = i / 11 % 11; w[2] = i / 121; }, j_type<A, B, C>); }
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	run<float>(thorough ? 3 : 16, 4); run<double>(thorough ? 30 : 160, 4); run<long double>(thorough ? 500 : 2400, 4);
	types<float, float, double>("types f f d"); types<int, int, double>("types i i d"); types<int, double, float>("types i d f"); types<float, int, int>("types f i i"); types<long double, float, int>("types l f i"); types<double, double, long double>("types d d l"); types<float, double, float>("types f d f"); types<unsigned, double, long>("types u d long"); types<int, int, float>("types i i f");
}
