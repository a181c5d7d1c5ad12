// Shared pieces of the SIMD checks (C29, C30): element alphabets, lane patterns, models of a vector as an array.
#pragma once
#include "fp.hpp"
#include <array>
#include <bitset>
#include <functional>
#include <mutex>
#include <sys/mman.h>
#include "ccmath/internal/math/runtime/pp/pp.hpp"
namespace mc
{
	namespace pp = ccm::pp;
	template <class T, int N> using V = pp::simd<T, N>;
	template <class T, int N> using K = pp::simd_mask<T, N>;
	template <class T> constexpr bool isf = std::is_floating_point_v<T>;
	template <class T> constexpr int maxlanes = 64 / static_cast<int>(sizeof(T));
	template <class T> inline const char * tname()
	{
		if constexpr (std::is_same_v<T, float>) return "f32"; else if constexpr (std::is_same_v<T, double>) return "f64";
		else if constexpr (std::is_same_v<T, char>) return "char"; else if constexpr (std::is_same_v<T, wchar_t>) return "wchar"; else if constexpr (std::is_same_v<T, char16_t>) return "char16";
		else if constexpr (std::is_same_v<T, char32_t>) return "char32"; else if constexpr (std::is_same_v<T, long long>) return "llong"; else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
		else { static std::string s = std::string(std::is_signed_v<T> ? "i" : "u") + std::to_string(sizeof(T) * 8); return s.c_str(); }
	}
	template <class T, int N> inline const char * nm(const char * what) { return (new std::string(std::string(tname<T>()) + "x" + std::to_string(N) + " " + what))->c_str(); }
	// the element alphabet: boundary values; every value for 8-bit types
	template <class T> inline const std::vector<T> & elems()
	{
		static const std::vector<T> v = [] {
			std::vector<T> r;
			if constexpr (isf<T>)
			{
				T m = std::numeric_limits<T>::min(), d = std::numeric_limits<T>::denorm_min(), M = std::numeric_limits<T>::max(), e = std::numeric_limits<T>::epsilon();
				for (T x : {T(0), T(1), T(1) + e, T(1) - e / 2, T(0.5), T(0.5) - e / 4, T(1.5), T(2), T(2.5), T(3), T(7), T(0.1), T(1e10), T(1) / e, T(1) / e - T(0.5), T(2) / e + T(2), m, m - d, d, 3 * d, M, M / 2, std::numeric_limits<T>::infinity()}) { r.push_back(x); r.push_back(-x); }
				r.push_back(std::numeric_limits<T>::quiet_NaN());
			}
			else if constexpr (sizeof(T) == 1) { for (int i = 0; i < 256; ++i) r.push_back(static_cast<T>(i)); }
			else
			{
				using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<T, wchar_t>, int, T>>; constexpr int B = sizeof(T) * 8; U top = static_cast<U>(U(1) << (B - 1));
				for (U x : {U(0), U(1), U(2), U(3), U(5), U(7), U(10), U(B - 1), U(B / 2), U(100), U(255), U(256), U(top - 1), U(top), U(top + 1), U(top - 2), U(~U(0) / 3), U(~U(0) / 5 * 2), U(U(1) << (B / 2)), U((U(1) << (B / 2)) - 1), U(0x1234567890abcdefull)}) { r.push_back(static_cast<T>(x)); r.push_back(static_cast<T>(U(0) - x)); }
			}
			return r;
		}();
		return v;
	}
	// an ordinary value for lane i, different in every lane (and between operands s)
	template <class T> inline T ordinary(int i, int s) { if constexpr (isf<T>) return static_cast<T>(i + 1) * T(1.25) + static_cast<T>(s) * T(0.125); else return static_cast<T>(s ? (i % 6) + 1 : (i + 1) % 120 + 1); }
	template <class T> inline void barrier(T & a) { asm volatile("" : : "r"(&a) : "memory"); }
	template <class T> inline bool lsame(T a, T b) { if constexpr (isf<T>) return same(a, b); else return a == b; }
	template <class T> inline std::string lshow(T a) { if constexpr (isf<T>) return show(a); else { char b[32]; std::snprintf(b, 32, "%lld", static_cast<long long>(a)); return b; } }
	struct Bad { bool ok = true; Rep * r; explicit Bad(Rep * p) : r(p) {} void say(const std::string & g, const std::string & w) { if (ok && r) { r->got = g; r->want = w; } ok = false; } };
	template <class T> inline void lanes(Bad & b, const char * what, const T * got, const T * want, int n)
	{ for (int i = 0; i < n; ++i) if (!lsame(got[i], want[i])) { b.say(std::string(what) + " lane " + std::to_string(i) + " = " + lshow(got[i]), lshow(want[i])); return; } }
	template <class T, int N> inline void chk(Bad & b, const char * what, const V<T, N> & v, const T * want) { T g[N]; v.copy_to(g); barrier(g); lanes(b, what, g, want, N); }
	template <class KM> inline void chkm(Bad & b, const char * what, const KM & m, u64 want) { u64 g = m.to_ullong(); if (g != want) { char x[40], y[40]; std::snprintf(x, 40, "%llx", static_cast<unsigned long long>(g)); std::snprintf(y, 40, "%llx", static_cast<unsigned long long>(want)); b.say(std::string(what) + " mask " + x, y); } }
	constexpr u64 full(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
	// mask patterns: all 2^N up to N = 16, structured ones (one, two lanes, ranges, stripes, and complements) beyond
	inline const std::vector<u64> & masks(int n, bool small = false)
	{
		static std::vector<u64> cache[2][65]; auto & v = cache[small][n]; static std::mutex mu; std::lock_guard<std::mutex> l(mu);
		if (!v.empty()) return v;
		if (n <= (small ? 4 : 16)) { for (u64 i = 0; i <= full(n); ++i) v.push_back(i); return v; }
		std::vector<u64> t{0, 0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x9249249249249249ull, 0xdeadbeefcafebabeull};
		for (int i = 0; i < n; ++i) { t.push_back(1ull << i); for (int j = i + 1; j < n; ++j) if (!small || j == i + 1 || j == n - 1) { t.push_back(1ull << i | 1ull << j); t.push_back(full(j - i) << i); } }
		for (u64 x : t) { v.push_back(x & full(n)); v.push_back(~x & full(n)); }
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
		return v;
	}
	// operand lanes from a point: ix, iy index the alphabet; k < N puts that pair into lane k among ordinary values, k = N walks both alphabets over all lanes
	template <class T, int N> inline void fill(const u64 * w, T * a, T * b)
	{
		auto & A = elems<T>(); size_t n = A.size(); size_t x = w[0] % n, y = w[1] % n; int k = static_cast<int>(w[2]);
		for (int i = 0; i < N; ++i)
		{
			if (k >= N) { a[i] = A[(x + static_cast<size_t>(i)) % n]; b[i] = A[(y + static_cast<size_t>(i) * 7) % n]; }
			else { a[i] = ordinary<T>(i, 0); b[i] = ordinary<T>(i, 1); if (i == k) { a[i] = A[x]; b[i] = A[y]; } }
		}
		barrier(*a); barrier(*b);
	}
	template <class T, int N> inline u64 fill_n() { u64 n = elems<T>().size(); return n * n * (n >= 256 && !thorough ? 1 : static_cast<u64>(N + 1)); }
	template <class T, int N> inline void fill_gen(u64 i, u64 * w) { u64 n = elems<T>().size(); w[0] = i % n; w[1] = i / n % n; w[2] = static_cast<u64>(N) - i / n / n; }
}
