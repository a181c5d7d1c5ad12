// C24 angle and wrapping helpers
#include "ext.hpp"
using namespace mc;
namespace ex = ccm::ext;
template <class T> constexpr T MX = std::numeric_limits<T>::max();
template <class T> constexpr Q EPS = std::numeric_limits<T>::epsilon();
#define RQ(cond, g, want) do { if (!(cond)) MC_RET(false, g, want); } while (0)
template <class T> static bool j_repeat(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T x = Fp<T>::get(w), l = Fp<T>::get(w + n);
	T g = keep(ex::repeat(hide(x), hide(l))), s = keep(ex::safe::repeat(hide(x), hide(l)));
	if (l == 0) MC_RET(s == 0, show(s), "0 for a zero length");
	RQ(same(s, g), "safe " + show(s), show(g));
	if (l < 0 || aq(x) > MX<T> / 4) { MC_RET(true, show(g), ""); }
	Q e = modq(x, l);
	RQ(g >= 0 && g < l, show(g), "within [0, " + show(l) + ")");
	MC_RET(circ(static_cast<Q>(g) - e, l) <= ulpq<T>(l), show(g), sq<T>(e));
}
template <class T> static bool j_ping(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n);
	T g = keep(ex::ping_pong(hide(a), hide(b)));
	if (b == 0) MC_RET(g == 0, show(g), "0");
	if (b < 0 || aq(a) > MX<T> / 8 || b > MX<T> / 8 || aq(static_cast<Q>(a) / b) > 1 / EPS<T> || b < std::numeric_limits<T>::min() / EPS<T>) MC_RET(true, show(g), "");
	Q m = modq(a, static_cast<T>(2 * b)), e = b - aq(m - b);
	RQ(g >= 0 && g <= b, show(g), "within [0, " + show(b) + "]");
	MC_RET(aq(static_cast<Q>(g) - e) <= 3 * EPS<T> * (aq(a) + b), show(g), sq<T>(e));
}
template <class T> static bool j_delta(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T c = Fp<T>::get(w), t = Fp<T>::get(w + n);
	T g = keep(ex::delta_angle(hide(c), hide(t))), s = keep(ex::safe::delta_angle(hide(c), hide(t)));
	RQ(same(s, g), "safe " + show(s), show(g));
	Q d = static_cast<Q>(t) - static_cast<Q>(c);
	if (aq(d) > MX<T> / 4) MC_RET(true, show(g), "");
	RQ(g >= -180 && g <= 180, show(g), "within [-180, 180]");
	T dt = t - c; Q e = modq(dt, T(360)), tol = ulpq<T>(d) + ulpq<T>(Q(360)); // the difference rounds once, then the wrap is exact to an ulp of a turn
	MC_RET(circ(circ(static_cast<Q>(g) < 0 ? static_cast<Q>(g) + 360 - e : static_cast<Q>(g) - e, 360), 360) <= tol, show(g), sq<T>(e > 180 ? e - 360 : e));
}
template <class T> static bool j_lerpa(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T a = Fp<T>::get(w), b = Fp<T>::get(w + n), t = Fp<T>::get(w + 2 * n);
	T g = keep(ex::lerp_angle(hide(a), hide(b), hide(t))), s = keep(ex::safe::lerp_angle(hide(a), hide(b), hide(t)));
	RQ(same(s, g), "safe " + show(s), show(g));
	if (aq(static_cast<Q>(b) - a) > MX<T> / 4 || aq(t) > 1000 || aq(a) > MX<T> / 8) MC_RET(true, show(g), "");
	if (t == 0) MC_RET(g == a, show(g), show(a));
	T d = ex::delta_angle(a, b); Q e = static_cast<Q>(a) + static_cast<Q>(d) * t, tol = ulpq<T>(e) + ulpq<T>(static_cast<Q>(d) * t);
	RQ(aq(static_cast<Q>(g) - e) <= tol, show(g), sq<T>(e));
	if (t == 1) { Q dd = modq(static_cast<T>(g), T(360)) - modq(b, T(360)); MC_RET(circ(dd, 360) <= 2 * ulpq<T>(a) + 2 * ulpq<T>(b) + 4 * ulpq<T>(Q(360)), show(g), "the second angle modulo a turn"); }
	if (t > 0 && t < 1) MC_RET(d >= 0 ? g >= a && g <= static_cast<T>(a + d) : g <= a && g >= static_cast<T>(a + d), show(g), "between the angles");
	MC_RET(true, show(g), "");
}
template <class T> static bool j_move(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T c = Fp<T>::get(w), t = Fp<T>::get(w + n), m = Fp<T>::get(w + 2 * n);
	if (m < 0) m = -m;
	T g = keep(ex::move_towards(hide(c), hide(t), hide(m)));
	T lo = c < t ? c : t, hi = c < t ? t : c;
	RQ(g >= lo && g <= hi, show(g), "between the value and its target");
	Q moved = aq(static_cast<Q>(g) - c), dist = aq(static_cast<Q>(t) - c);
	RQ(moved <= static_cast<Q>(m) + ulpq<T>(g) + ulpq<T>(m), "moved " + sq<T>(moved), "at most " + show(m));
	MC_RET(dist <= m ? g == t : moved >= static_cast<Q>(m) - ulpq<T>(g) - ulpq<T>(m), show(g), dist <= m ? show(t) : "a whole step");
}
template <class T> static bool j_movea(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T c = Fp<T>::get(w), t = Fp<T>::get(w + n), m = Fp<T>::get(w + 2 * n);
	if (m < 0) m = -m;
	T g = keep(ex::move_towards_angle(hide(c), hide(t), hide(m))), s = keep(ex::safe::move_towards_angle(hide(c), hide(t), hide(m)));
	RQ(same(s, g), "safe " + show(s), show(g));
	if (aq(static_cast<Q>(t) - c) > MX<T> / 4) MC_RET(true, show(g), "");
	T d = ex::delta_angle(c, t), e = static_cast<T>(c + d), lo = c < e ? c : e, hi = c < e ? e : c;
	RQ(g >= lo && g <= hi, show(g), "between the angle and the nearest image of its target");
	Q moved = aq(static_cast<Q>(g) - c);
	RQ(moved <= static_cast<Q>(m) + ulpq<T>(g) + ulpq<T>(m), "moved " + sq<T>(moved), "at most " + show(m));
	MC_RET(aq(d) > m ? moved >= static_cast<Q>(m) - ulpq<T>(g) - ulpq<T>(m) - ulpq<T>(c) : g == e, show(g), show(e));
}
template <class T> static bool j_norm(const u64 * w, Rep * r)
{
	constexpr int n = Fp<T>::nw; T x = Fp<T>::get(w), a = Fp<T>::get(w + n), b = Fp<T>::get(w + 2 * n);
	T g = keep(ex::normalize(hide(x), hide(a), hide(b))), s = keep(ex::safe::normalize(hide(x), hide(a), hide(b)));
	if (a == b) MC_RET(s == 0, show(s), "0 for an empty range");
	RQ(same(s, g), "safe " + show(s), show(g));
	RQ(g >= 0 && g <= 1, show(g), "within [0, 1]");
	Q p = static_cast<Q>(x) - a, q = static_cast<Q>(b) - a;
	if (aq(p) > MX<T> / 2 || aq(q) > MX<T> / 2) MC_RET(true, show(g), "");
	Q e = p / q; if (e < 0) e = 0; if (e > 1) e = 1;
	RQ(!(e == 0 && p * q <= 0) || g == 0, show(g), "0");
	MC_RET(aq(static_cast<Q>(g) - e) <= 4 * ulpq<T>(e), show(g), sq<T>(e));
}
static Q PI = static_cast<Q>(0x1.921fb54442d18p1) + static_cast<Q>(0x1.1a62633145c07p-53) + static_cast<Q>(-0x1.f1976b7ed8fbcp-109);
template <class T> static bool j_deg(const u64 * w, Rep * r)
{
	T x = Fp<T>::get(w); T d = keep(ex::degrees(hide(x))), a = keep(ex::radians(hide(x)));
	if (!is_fin(x)) MC_RET(is_nan(x) ? is_nan(d) && is_nan(a) : same(d, x) && same(a, x), show(d) + " " + show(a), show(x));
	if (aq(x) > MX<T> / 256 || (x != 0 && aq(x) < 256 * std::numeric_limits<T>::min())) MC_RET(true, show(d) + " " + show(a), "");
	Q ed = 180 * static_cast<Q>(x) / PI, ea = PI * static_cast<Q>(x) / 180;
	RQ(sgn(d) == sgn(x) && sgn(a) == sgn(x), show(d) + " " + show(a), "sign of the argument");
	RQ(aq(static_cast<Q>(d) - ed) <= 2 * ulpq<T>(ed), "degrees " + show(d), sq<T>(ed));
	RQ(aq(static_cast<Q>(a) - ea) <= 2 * ulpq<T>(ea), "radians " + show(a), sq<T>(ea));
	T back = ex::degrees(a);
	MC_RET(aq(static_cast<Q>(back) - x) <= 4 * ulpq<T>(x), "there and back " + show(back), show(x));
}
template <class T> static void run(u64 fk)
{
	constexpr int n = Fp<T>::nw;
	static std::vector<T> v = moderate<T>(), len, tt, near;
	for (T x : v) if (x >= 0) len.push_back(x);
	for (T x : {T(7.3L), T(0.7L), T(1e-5L), T(3), T(std::numeric_limits<T>::epsilon())}) len.push_back(x);
	for (T x : specials<T>(false)) if (is_fin(x)) { v.push_back(x); } uniq(v); uniq(len);
	explore(cat2("repeat", Fp<T>::name), 2 * n, 2, v.size() * len.size(), gen2(v, len), j_repeat<T>);
	explore(cat2("ping_pong", Fp<T>::name), 2 * n, 1, v.size() * len.size(), gen2(v, len), j_ping<T>);
	// multiples of the length and their neighbours
	static const int K = 400, U = 9;
	static auto mul = [](u64 i, u64 * w) { T l = len[i / (U * (2 * K + 1))]; T x = static_cast<T>(static_cast<int>(i / U % (2 * K + 1)) - K) * l; int u = static_cast<int>(i % U) - U / 2; for (; u > 0; --u) x = up(x); for (; u < 0; ++u) x = dn(x); put(x, w); put(l, w + Fp<T>::nw); };
	explore(cat2("repeat near multiples", Fp<T>::name), 2 * n, 2, len.size() * (2 * K + 1) * U, mul, j_repeat<T>);
	explore(cat2("ping_pong near multiples", Fp<T>::name), 2 * n, 1, len.size() * (2 * K + 1) * U, mul, j_ping<T>);
	explore(cat2("delta_angle", Fp<T>::name), 2 * n, 2, v.size() * v.size(), gen2(v, v), j_delta<T>);
	// a lattice of angles: every pair of multiples of 2.5 degrees, shifted by tiny amounts
	static auto lat = [](u64 i, u64 * w) { int a = static_cast<int>(i % 433) - 216, b = static_cast<int>(i / 433 % 433) - 216; u64 k = i / 433 / 433; T x = T(a) * T(2.5), y = T(b) * T(2.5); if (k & 1) x = up(x); if (k & 2) y = dn(y); if (k & 4) y = y + T(0.1L); put(x, w); put(y, w + Fp<T>::nw); };
	explore(cat2("delta_angle lattice", Fp<T>::name), 2 * n, 2, 433 * 433 * 8, lat, j_delta<T>);
	static std::vector<T> m2; for (size_t i = 0; i < v.size(); i += 2) m2.push_back(v[i]);
	tt = {0, 1, T(0.5), T(0.25), T(0.1L), T(0.9L), -1, 2, T(-0.5), dn(T(1)), up(T(1)), T(1e-10L), T(1.0L / 3)};
	explore(cat2("lerp_angle", Fp<T>::name), 3 * n, 2, v.size() * v.size() * tt.size(), gen3(v, v, tt), j_lerpa<T>);
	explore(cat2("move_towards", Fp<T>::name), 3 * n, 1, v.size() * v.size() * len.size(), gen3(v, v, len), j_move<T>);
	explore(cat2("move_towards_angle", Fp<T>::name), 3 * n, 2, m2.size() * v.size() * len.size(), gen3(m2, v, len), j_movea<T>);
	explore(cat2("normalize", Fp<T>::name), 3 * n, 2, v.size() * v.size() * m2.size(), gen3(v, v, m2), j_norm<T>);
	static std::vector<T> al = alphabet<T>(std::is_same_v<T, float> ? 1 : std::is_same_v<T, double> ? 4 : 40);
	explore(cat2("degrees and radians", Fp<T>::name), n, 3, al.size(), gen1(al), j_deg<T>);
	if constexpr (!std::is_same_v<T, long double>)
	{
		static Grid<T> g(static_cast<int>(fk)); explore(cat2("degrees and radians grid", Fp<T>::name), 1, 3, g.n(), g, j_deg<T>);
		static const T L[6] = {T(360), T(1), T(0.1L), T(6.28318530717958647692L), T(7), T(1e-3L)};
		explore(cat2("repeat grid", Fp<T>::name), 2, 2, g.n() * 6, [](u64 i, u64 * w) { g(i / 6, w); if (!is_fin(Fp<T>::get(w))) put(T(1), w); put(L[i % 6], w + 1); }, j_repeat<T>);
	}
}
void mc_main()
{
	if (!ce_active()) { note("forced constant evaluation not effective in this build"); return; }
	run<float>(thorough ? 16 : 9); run<double>(thorough ? 9 : 4); run<long double>(0);
}
