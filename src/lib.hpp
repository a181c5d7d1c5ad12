// Standard headers first, then the library - with the constant-evaluation query forced to "yes" when the configuration
// asks for it (MC_FORCE_CE), so that the exact code a constant expression runs can be enumerated at run-time speed.
#pragma once
#include "fp.hpp"
#include <array>
#include <bitset>
#include <cassert>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <cmath>
#include <complex>
#include <concepts>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ostream>
#include <string_view>
#include <tuple>
#include <utility>
#if __cplusplus >= 202002L
	#include <bit>
	#include <compare>
	#include <span>
	#include <type_traits>
#endif
#ifdef MC_FORCE_CE
	#define __builtin_is_constant_evaluated() (1)
#endif
#include "ccmath/ccmath.hpp"
#ifdef MC_FORCE_CE
	#undef __builtin_is_constant_evaluated
#endif
namespace mc
{
#ifdef MC_FORCE_CE
	constexpr bool forced_ce = true;
#else
	constexpr bool forced_ce = false;
#endif
	// in a forced build, is the forced path really taken? (a rewrite of the query could defeat the macro)
	inline bool ce_active() { return !forced_ce || ccm::support::is_constant_evaluated(); }
} // namespace mc
