// The extension headers and what their checks share.
#pragma once
#include "lib.hpp"
#include "ccmath/ext/abs_diff.hpp"
#include "ccmath/ext/align.hpp"
#include "ccmath/ext/approximately.hpp"
#include "ccmath/ext/ceil_div.hpp"
#include "ccmath/ext/chgsign.hpp"
#include "ccmath/ext/clamp.hpp"
#include "ccmath/ext/cubic.hpp"
#include "ccmath/ext/degrees.hpp"
#include "ccmath/ext/delta_angle.hpp"
#include "ccmath/ext/fract.hpp"
#include "ccmath/ext/inverse_lerp.hpp"
#include "ccmath/ext/is_power_of_two.hpp"
#include "ccmath/ext/lerp_angle.hpp"
#include "ccmath/ext/lerp_smooth.hpp"
#include "ccmath/ext/mix.hpp"
#include "ccmath/ext/move_towards.hpp"
#include "ccmath/ext/move_towards_angle.hpp"
#include "ccmath/ext/normalize.hpp"
#include "ccmath/ext/ping_pong.hpp"
#include "ccmath/ext/radians.hpp"
#include "ccmath/ext/rcp.hpp"
#include "ccmath/ext/remap.hpp"
#include "ccmath/ext/repeat.hpp"
#include "ccmath/ext/saturate.hpp"
#include "ccmath/ext/sign.hpp"
#include "ccmath/ext/smoothstep.hpp"
#include "ccmath/ext/step.hpp"
#include "ccmath/ext/unlerp.hpp"
namespace mc
{
	using Q = __float128;
	inline Q aq(Q x) { return x < 0 ? -x : x; }
	template <class T> inline Q ulpq(Q v) { v = aq(v); if (v > std::numeric_limits<T>::max()) v = std::numeric_limits<T>::max(); return static_cast<Q>(ulp_of(T{}, static_cast<long double>(v))); }
	template <class T> inline std::string sq(Q v) { return show(static_cast<T>(v)); }
	// x modulo l in [0, l), exact (the remainder of two T is a T)
	template <class T> inline Q modq(T x, T l) { T r = std::fmod(x, l); Q q = r; if (q < 0) q += static_cast<Q>(l); return q; }
	inline Q circ(Q d, Q l) { d = aq(d); return d > l / 2 ? aq(l - d) : d; } // distance on a circle, 0 <= |d| <= l
	template <class T> inline std::vector<T> moderate()
	{
		std::vector<T> v;
		for (double d : {0.0, 1.0, 2.0, 3.0, 0.5, 0.25, 0.75, 0.1, 1.0 / 3, 7.0, 10.0, 45.0, 90.0, 135.0, 179.0, 180.0, 181.0, 270.0, 359.0, 360.0, 361.0, 540.0, 719.5, 720.0, 1080.0, 3600.0, 12345.678, 1e-3, 1e-6, 1e-10, 1e-20, 1e-30, 1e5, 1e6, 8388607.5, 1e10, 1e15, 1e20, 1e30, 2.718281828, 3.14159265, 6.2831853, 57.29577, 0.0174532925})
			for (int s = 0; s < 2; ++s) { T x = static_cast<T>(s ? -d : d); v.push_back(x); }
		for (double d : {1.0, 180.0, 360.0, 0.5, 90.0, 720.0}) for (int s = 0; s < 2; ++s) { T x = static_cast<T>(s ? -d : d); v.push_back(up(x)); v.push_back(dn(x)); }
		v.push_back(std::numeric_limits<T>::min()); v.push_back(-std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::denorm_min()); v.push_back(-std::numeric_limits<T>::denorm_min());
		uniq(v); return v;
	}
}
