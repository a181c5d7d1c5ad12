// C18 nan, nanf, nanl
#include "lib.hpp"
using namespace mc;
constexpr int NWS = 9; // 72 characters
static void pack(const std::string & s, u64 * w) { for (int i = 0; i < NWS; ++i) w[i] = 0; for (size_t i = 0; i < s.size() && i < 71; ++i) w[i / 8] |= static_cast<u64>(static_cast<unsigned char>(s[i])) << (8 * (i % 8)); }
struct Str { char b[NWS * 8 + 1]; explicit Str(const u64 * w) { std::memcpy(b, w, NWS * 8); b[NWS * 8] = 0; } };
// payload the string asks for; digits = -1: no number (payload zero); -2: leading zero (octal or decimal reading both accepted)
static int parse(const std::string & s, unsigned __int128 & v)
{
	v = 0; bool hex = s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
	std::string d = hex ? s.substr(2) : s;
	for (char c : d)
	{
		int k = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
		if (k >= (hex ? 16 : 10)) { v = 0; return -1; }
		if (d.size() <= 24) v = v * (hex ? 16 : 10) + static_cast<unsigned>(k);
	}
	if (!hex && d.size() > 1 && d[0] == '0') return -2;
	return static_cast<int>(d.size());
}
template <class T> static bool payload(T x, u64 & p)
{ // quiet, positive?
	u64 w[2] = {}; put(x, w);
	if (!is_nan(x) || is_snan(x)) return false;
	if constexpr (std::is_same_v<T, float>) p = w[0] & 0x3fffff; else if constexpr (std::is_same_v<T, double>) p = w[0] & 0x7ffffffffffffull; else p = w[0] & 0x3fffffffffffffffull;
	return !sgn(x);
}
template <class T> static bool j_nan(const u64 * w, Rep * r)
{
	Str s(w); T x;
	if constexpr (std::is_same_v<T, float>) x = keep(ccm::nanf(s.b)); else if constexpr (std::is_same_v<T, double>) x = keep(ccm::nan(s.b)); else x = keep(ccm::nanl(s.b));
	constexpr int maxd = std::is_same_v<T, float> ? 7 : 15; constexpr u64 mask = std::is_same_v<T, float> ? 0x3fffff : std::is_same_v<T, double> ? 0x7ffffffffffffull : 0x3fffffffffffffffull;
	u64 p = 0; bool q = payload(x, p); unsigned __int128 v; int k = parse(s.b, v);
	u64 want = static_cast<u64>(v) & mask; bool ok = q;
	if (k == -1 || (k >= 0 && k <= maxd)) ok = ok && p == want;
	MC_RET(ok, show(x) + " for \"" + std::string(s.b) + "\"", k >= 0 && k <= maxd ? "quiet NaN, payload " + show(want) : k == -1 ? "quiet NaN, payload 0" : "quiet NaN");
}
static const char AL[] = "0123789aAfFgGxX .-+nz(";
static u64 nal = sizeof(AL) - 1;
static void gshort(u64 i, u64 * w) { std::string s; u64 len = 0, c = 1; while (i >= c) { i -= c; c *= nal; ++len; } for (u64 k = 0; k < len; ++k) { s += AL[i % nal]; i /= nal; } pack(s, w); }
static void ghex(u64 i, u64 * w) { std::string s = i & 1 ? "0X" : "0x"; i >>= 1; u64 len = 0, c = 1; while (i >= c) { i -= c; c *= nal; ++len; } for (u64 k = 0; k < len; ++k) { s += AL[i % nal]; i /= nal; } pack(s, w); }
// lengths 1..69 x leading digit x body digit x last character x prefix
static void glong(u64 i, u64 * w)
{
	static const char D[] = "0123456789abcdefABCDEFgx";
	bool hex = i & 1; i >>= 1; char f = D[i % 24]; i /= 24; char b = D[i % 24]; i /= 24; char l = D[i % 24]; i /= 24; int len = 1 + static_cast<int>(i);
	std::string s(static_cast<size_t>(len), b); s[0] = f; s[static_cast<size_t>(len) - 1] = l; pack((hex ? "0x" : "") + s, w);
}
template <class T> static void run()
{
	u64 n = 0, c = 1; for (int k = 0; k <= (thorough ? 5 : 4); ++k) { n += c; c *= nal; }
	explore(cat2("nan short strings", Fp<T>::name), NWS, 1, n, gshort, j_nan<T>);
	explore(cat2("nan hex strings", Fp<T>::name), NWS, 1, 2 * n, ghex, j_nan<T>);
	explore(cat2("nan long strings", Fp<T>::name), NWS, 1, 2 * 24 * 24 * 24 * 66, glong, j_nan<T>);
	// every decimal number of up to 6 digits, and every hexadecimal one of up to 5
	explore(cat2("nan decimal", Fp<T>::name), NWS, 1, 1000000, [](u64 i, u64 * w) { pack(std::to_string(i), w); }, j_nan<T>);
	explore(cat2("nan hexadecimal", Fp<T>::name), NWS, 1, 1u << 20, [](u64 i, u64 * w) { char b[32]; std::snprintf(b, 32, "0x%" PRIx64, i); pack(b, w); }, j_nan<T>);
	// every single bit and pair of bits of the payload
	explore(cat2("nan payload bits", Fp<T>::name), NWS, 1, 60 * 60 * 2, [](u64 i, u64 * w) { char b[40]; u64 v = (1ull << (i % 60)) | (1ull << (i / 60 % 60)); std::snprintf(b, 40, i >= 3600 ? "0x%" PRIX64 : "%" PRIu64, v); pack(b, w); }, j_nan<T>);
}
void mc_main() { run<float>(); run<double>(); run<long double>(); }
