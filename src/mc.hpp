// Bounded-exhaustive explorer used by every check of /verif.
//
// A *space* is a finite, completely enumerated set of operand points (arrays of 64-bit words, produced by an index ->
// words generator) together with a *judge* that performs the library calls at one point and compares them with a
// reference.  The explorer visits every index of every space (no sampling), with all cores, records the first
// violations in enumeration order, and can re-execute one recorded point in a fresh process (--replay / --trace).
//
// A *relation space* has an observer instead of a judge; the driver compares the observations of several builds.
#pragma once
#include <algorithm>
#include <atomic>
#include <cfenv>
#include <chrono>
#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <utility>
#include <vector>

namespace mc
{
	using u64 = std::uint64_t;
	using u32 = std::uint32_t;
	constexpr int MAXW = 40;
	struct Rep { std::string got, want; };

	// ---------------------------------------------------------------- options and results
	inline bool thorough = false;
	inline unsigned nthreads = 8;
	inline std::string only, trace_out, hash_dir;
	inline int argc_g = 0;
	inline FILE * outf = nullptr;
	enum class Mode { explore, replay, dump };
	inline Mode mode = Mode::explore;
	inline std::string rp_op;
	inline std::vector<std::pair<std::string, std::vector<u64>>> rp_points;
	inline u64 rp_found = 0, rp_bad = 0;
	inline u64 dump_lo = 0, dump_hi = 0;
	struct Slot { std::atomic<const char *> op{nullptr}; std::atomic<u64> idx{0}; u64 w[MAXW]{}; int nw{0}; char pad[64]; };
	inline Slot slots[64];
	inline thread_local Slot * my = &slots[63];

	inline std::string esc(const std::string & s)
	{
		std::string r;
		for (char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += c;
		}
		return r;
	}
	inline std::string words_json(const u64 * w, int n)
	{
		std::string r = "[";
		for (int i = 0; i < n; ++i) { char b[32]; std::snprintf(b, 32, "%s\"%" PRIx64 "\"", i ? "," : "", w[i]); r += b; }
		return r + "]";
	}
	inline void fatal_line(const char * kind, Slot & s)
	{
		char b[4096];
		int n = std::snprintf(b, sizeof b, "\n{\"fatal\":\"%s\",\"op\":\"%s\",\"w\":[", kind, s.op.load() ? s.op.load() : "?");
		for (int i = 0; i < s.nw && i < MAXW; ++i) n += std::snprintf(b + n, sizeof b - static_cast<size_t>(n), "%s\"%" PRIx64 "\"", i ? "," : "", s.w[i]);
		n += std::snprintf(b + n, sizeof b - static_cast<size_t>(n), "]}\n");
		if (outf) { (void)!::write(fileno(outf), b, static_cast<size_t>(n)); }
		else { (void)!::write(1, b, static_cast<size_t>(n)); }
	}
	inline void on_signal(int sig)
	{
		const char * k = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL(undefined behaviour trap)" : sig == SIGABRT ? "SIGABRT" : "signal";
		// Several workers can fault at once: the first one reports, the others wait for the process to end.
		static std::atomic_flag taken = ATOMIC_FLAG_INIT; static thread_local bool inside = false;
		if (inside) ::_exit(3);
		inside = true;
		if (taken.test_and_set()) for (;;) ::pause();
		::alarm(20);
		if (outf) std::fflush(outf);
		fatal_line(k, *my);
		::_exit(3);
	}

	inline u64 fnv(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

	struct Example { u64 idx; std::vector<u64> w; };
	inline constexpr int KEEP = 6;

	// type-erased generator and judge (one instantiation of the engine, short build times)
	struct GenRef { const void * obj; void (*fn)(const void *, u64, u64 *); void operator()(u64 i, u64 * w) const { fn(obj, i, w); } };
	template <class G> inline GenRef gref(const G & g) { return {&g, [](const void * o, u64 i, u64 * w) { (*static_cast<const G *>(o))(i, w); }}; }
	using JudgeFn = bool (*)(const u64 *, Rep *);
	// Builds of the undefined-behaviour check run the same points for their traps and hangs only.
#ifdef MC_UBONLY
	inline constexpr bool ub_only = true;
#else
	inline constexpr bool ub_only = false;
#endif
	using ObsFn = u64 (*)(const u64 *);
	template <class Body>
	inline void sweep(const char * op, int nw, u64 N, u64 block, GenRef gen, Body body)
	{
		std::atomic<u64> next{0};
		unsigned T = nthreads;
		if (N / block + 1 < T) T = static_cast<unsigned>(N / block + 1);
		std::vector<std::thread> th;
		std::atomic<unsigned> live{T};
		for (unsigned t = 0; t < T; ++t)
			th.emplace_back([&, t] {
				my = &slots[t];
				my->op = op; my->nw = nw;
				for (;;)
				{
					u64 b = next.fetch_add(1);
					u64 lo = b * block;
					if (lo >= N) break;
					u64 hi = std::min(N, lo + block);
					if (!body(t, b, lo, hi, gen)) break;
				}
				my->op = nullptr;
				--live;
			});
		// watchdog: one library call that makes no progress for 40 s is reported as non-termination
		std::vector<u64> last(T, ~0ull); std::vector<int> stuck(T, 0);
		int tick = 0;
		while (live.load())
		{
			std::this_thread::sleep_for(std::chrono::milliseconds(tick < 100 ? 2 : 50));
			if (++tick % 20 == 0 && tick > 200)
				for (unsigned t = 0; t < T; ++t)
				{
					if (!slots[t].op.load()) continue;
					u64 c = slots[t].idx.load(std::memory_order_relaxed);
					if (c == last[t]) { if (++stuck[t] >= 40) { if (outf) std::fflush(outf); fatal_line("no termination", slots[t]); ::_exit(3); } }
					else { last[t] = c; stuck[t] = 0; }
				}
		}
		for (auto & x : th) x.join();
	}

	// Explore one space.  `calls` = library calls judged per point.  judge(const u64*, Rep*) -> bool.
	inline void explore_(const char * op, int nw, int calls, u64 N, GenRef gen, JudgeFn judge)
	{
		if (mode == Mode::replay)
		{
			for (auto & p : rp_points)
				if (p.first == op)
				{
					++rp_found;
					Rep r;
					u64 w[MAXW]{};
					for (size_t i = 0; i < p.second.size() && i < MAXW; ++i) w[i] = p.second[i];
					my->op = op; my->nw = nw; std::memcpy(my->w, w, sizeof w);
					bool ok = judge(static_cast<const u64 *>(w), &r) || ub_only;
					if (!ok) ++rp_bad;
					std::fprintf(outf, "{\"replay\":\"%s\",\"w\":%s,\"ok\":%s,\"got\":\"%s\",\"want\":\"%s\"}\n", op, words_json(w, nw).c_str(), ok ? "true" : "false", esc(r.got).c_str(), esc(r.want).c_str());
				}
			return;
		}
		if (mode != Mode::explore) return;
		if (!only.empty() && std::string(op).find(only) == std::string::npos) return;
		auto t0 = std::chrono::steady_clock::now();
		std::vector<std::vector<Example>> bad(64);
		std::vector<u64> nbad(64, 0), visited(64, 0);
		u64 block = std::max<u64>(16, std::min<u64>(16384, N / 256 + 1));
		sweep(op, nw, N, block, gen, [&](unsigned t, u64, u64 lo, u64 hi, auto & g) {
			Slot & s = *my;
			for (u64 i = lo; i < hi; ++i)
			{
				g(i, s.w);
				s.idx.store(i, std::memory_order_relaxed);
				if (__builtin_expect(!judge(static_cast<const u64 *>(s.w), static_cast<Rep *>(nullptr)) && !ub_only, 0))
				{
					++nbad[t];
					if (bad[t].size() < KEEP) bad[t].push_back({i, std::vector<u64>(s.w, s.w + nw)});
					if (nbad[t] > 5000) { visited[t] += i - lo + 1; return false; }
				}
			}
			visited[t] += hi - lo;
			return true;
		});
		std::vector<Example> all; u64 tot = 0, vis = 0;
		for (int t = 0; t < 64; ++t) { tot += nbad[static_cast<size_t>(t)]; vis += visited[static_cast<size_t>(t)]; for (auto & e : bad[static_cast<size_t>(t)]) all.push_back(e); }
		std::sort(all.begin(), all.end(), [](const Example & a, const Example & b) { return a.idx < b.idx; });
		if (all.size() > KEEP) all.resize(KEEP);
		double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		std::fprintf(outf, "{\"op\":\"%s\",\"points\":%" PRIu64 ",\"calls\":%" PRIu64 ",\"space\":%" PRIu64 ",\"nviol\":%" PRIu64 ",\"secs\":%.3f,\"viol\":[", op, vis, vis * static_cast<u64>(calls), N, tot, secs);
		bool first = true;
		for (auto & e : all)
		{
			Rep r; u64 w[MAXW]{}; for (size_t i = 0; i < e.w.size(); ++i) w[i] = e.w[i];
			bool again = judge(static_cast<const u64 *>(w), &r);
			std::fprintf(outf, "%s{\"idx\":%" PRIu64 ",\"w\":%s,\"again\":%s,\"got\":\"%s\",\"want\":\"%s\"}", first ? "" : ",", e.idx, words_json(w, nw).c_str(), again ? "false" : "true", esc(r.got).c_str(), esc(r.want).c_str());
			first = false;
		}
		// evenly spaced trace points, re-executed in a fresh process by the driver
		std::fprintf(outf, "],\"trace\":[");
		u64 K = std::min<u64>(N, 24);
		first = true;
		for (u64 k = 0; k < K; ++k)
		{
			u64 i = K == 1 ? 0 : static_cast<u64>(static_cast<long double>(N - 1) * static_cast<long double>(k) / static_cast<long double>(K - 1));
			u64 w[MAXW]{}; gen(i, w);
			Rep r; judge(static_cast<const u64 *>(w), &r);
			std::fprintf(outf, "%s{\"w\":%s,\"got\":\"%s\"}", first ? "" : ",", words_json(w, nw).c_str(), esc(r.got).c_str());
			first = false;
		}
		std::fprintf(outf, "]}\n");
		std::fflush(outf);
	}

	template <class Gen, class Judge>
	inline void explore(const char * op, int nw, int calls, u64 N, const Gen & gen, Judge judge)
	{
		if constexpr (std::is_function_v<Gen>) explore_(op, nw, calls, N, {reinterpret_cast<const void *>(&gen), [](const void * o, u64 i, u64 * w) { reinterpret_cast<Gen *>(const_cast<void *>(o))(i, w); }}, static_cast<JudgeFn>(judge));
		else explore_(op, nw, calls, N, gref(gen), static_cast<JudgeFn>(judge));
	}

	// Relation space: obs(const u64*) -> u64 observation, compared across builds by the driver block by block.
	inline void relate_(const char * op, int nw, int calls, u64 N, GenRef gen, ObsFn obs)
	{
		if (mode == Mode::replay)
		{
			for (auto & p : rp_points)
				if (p.first == op)
				{
					++rp_found;
					u64 w[MAXW]{};
					for (size_t i = 0; i < p.second.size() && i < MAXW; ++i) w[i] = p.second[i];
					my->op = op; my->nw = nw; std::memcpy(my->w, w, sizeof w);
					std::fprintf(outf, "{\"replay\":\"%s\",\"w\":%s,\"ok\":true,\"got\":\"%" PRIx64 "\",\"want\":\"\"}\n", op, words_json(w, nw).c_str(), static_cast<u64>(obs(static_cast<const u64 *>(w))));
				}
			return;
		}
		if (mode == Mode::dump)
		{
			if (rp_op != op) return;
			for (u64 i = dump_lo; i < dump_hi && i < N; ++i)
			{
				u64 w[MAXW]{}; gen(i, w);
				std::fprintf(outf, "{\"w\":%s,\"v\":\"%" PRIx64 "\"}\n", words_json(w, nw).c_str(), static_cast<u64>(obs(static_cast<const u64 *>(w))));
			}
			return;
		}
		if (!only.empty() && std::string(op).find(only) == std::string::npos) return;
		auto t0 = std::chrono::steady_clock::now();
		u64 block = 1024, nb = (N + block - 1) / block;
		std::vector<u64> hs(nb, 0);
		sweep(op, nw, N, block, gen, [&](unsigned, u64 b, u64 lo, u64 hi, auto & g) {
			Slot & s = *my;
			u64 h = 1;
			for (u64 i = lo; i < hi; ++i) { g(i, s.w); s.idx.store(i, std::memory_order_relaxed); h = fnv(h, static_cast<u64>(obs(static_cast<const u64 *>(s.w)))); }
			hs[b] = h;
			return true;
		});
		std::string path = hash_dir + "/" + op + ".hash";
		for (auto & c : path) if (c == ' ' || c == ',' || c == '<' || c == '>') c = '_';
		FILE * f = std::fopen(path.c_str(), "wb");
		if (f) { std::fwrite(hs.data(), 8, hs.size(), f); std::fclose(f); }
		double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		std::fprintf(outf, "{\"rel\":\"%s\",\"points\":%" PRIu64 ",\"calls\":%" PRIu64 ",\"block\":%" PRIu64 ",\"hash\":\"%s\",\"secs\":%.3f,\"trace\":[", op, N, N * static_cast<u64>(calls), block, path.c_str(), secs);
		u64 K = std::min<u64>(N, 16); bool first = true;
		for (u64 k = 0; k < K; ++k)
		{
			u64 i = K == 1 ? 0 : static_cast<u64>(static_cast<long double>(N - 1) * static_cast<long double>(k) / static_cast<long double>(K - 1));
			u64 w[MAXW]{}; gen(i, w);
			std::fprintf(outf, "%s{\"w\":%s,\"got\":\"%" PRIx64 "\"}", first ? "" : ",", words_json(w, nw).c_str(), static_cast<u64>(obs(static_cast<const u64 *>(w))));
			first = false;
		}
		std::fprintf(outf, "]}\n");
		std::fflush(outf);
	}
	template <class Gen, class Obs>
	inline void relate(const char * op, int nw, int calls, u64 N, const Gen & gen, Obs obs)
	{
		if constexpr (std::is_function_v<Gen>) relate_(op, nw, calls, N, {reinterpret_cast<const void *>(&gen), [](const void * o, u64 i, u64 * w) { reinterpret_cast<Gen *>(const_cast<void *>(o))(i, w); }}, static_cast<ObsFn>(obs));
		else relate_(op, nw, calls, N, gref(gen), static_cast<ObsFn>(obs));
	}
	// A job that does not apply in this build says so.
	inline void note(const std::string & s) { if (mode == Mode::explore) { std::fprintf(outf, "{\"note\":\"%s\"}\n", esc(s).c_str()); } }
} // namespace mc

void mc_main();

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#elif __has_feature(memory_sanitizer)
#define MC_MSAN 1
#endif
#endif
#ifdef MC_ASAN
extern "C" const char * __asan_default_options() { return "detect_leaks=0"; }
extern "C" void __asan_on_error() { using namespace mc; if (outf) std::fflush(outf); fatal_line("memory error (address sanitizer)", *my); ::_exit(3); }
#endif
#ifdef MC_MSAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace mc { inline void msan_died() { if (outf) std::fflush(outf); fatal_line("use of an uninitialised value (memory sanitizer)", *my); ::_exit(3); } }
#endif

#ifndef MC_NO_MAIN
int main(int argc, char ** argv)
{
	using namespace mc;
	outf = stdout;
	unsigned hc = std::thread::hardware_concurrency();
	nthreads = hc ? std::min(hc, 32u) : 8;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--only" && i + 1 < argc) only = argv[++i];
		else if (a == "--threads" && i + 1 < argc) nthreads = static_cast<unsigned>(std::atoi(argv[++i]));
		else if (a == "--hashdir" && i + 1 < argc) hash_dir = argv[++i];
		else if (a == "--out" && i + 1 < argc) { outf = std::fopen(argv[++i], "w"); if (!outf) return 2; }
		else if (a == "--dump" && i + 3 < argc) { mode = Mode::dump; rp_op = argv[++i]; dump_lo = std::strtoull(argv[++i], nullptr, 10); dump_hi = std::strtoull(argv[++i], nullptr, 10); }
		else if (a == "--replay" && i + 1 < argc)
		{ // file with lines:  op<TAB>hex<TAB>hex...
			mode = Mode::replay;
			FILE * f = std::fopen(argv[++i], "r");
			if (!f) return 2;
			char buf[4096];
			while (std::fgets(buf, sizeof buf, f))
			{
				std::vector<u64> w; std::string op; char * sv = nullptr;
				for (char * t = strtok_r(buf, "\t\n", &sv); t; t = strtok_r(nullptr, "\t\n", &sv)) { if (op.empty()) op = t; else w.push_back(std::strtoull(t, nullptr, 16)); }
				if (!op.empty()) rp_points.push_back({op, w});
			}
			std::fclose(f);
		}
	}
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER;
	for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGABRT, SIGBUS, SIGTRAP}) sigaction(s, &sa, nullptr);
#ifdef MC_MSAN
	__sanitizer_set_death_callback(msan_died);
#endif
	mc_main();
	if (mode == Mode::explore) std::fprintf(outf, "{\"done\":true}\n");
	std::fflush(outf);
	return 0;
}
#endif
