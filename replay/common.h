// Replay/search harness support: runs the real code on inputs and compares with an independent oracle.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace replay {
struct Rng {
	std::mt19937_64 g;
	explicit Rng(uint64_t s = 1) : g(s) {}
	uint64_t below(uint64_t n) { return n ? g() % n : 0; }
	bool coin(int pct = 50) { return static_cast<int>(below(100)) < pct; }
	template <class V> const auto& pick(const V& v) { return v[below(v.size())]; }
};
inline std::string hex(std::string_view s)
{
	static const char* d = "0123456789abcdef";
	std::string r;
	for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}
inline std::string show(std::string_view s)
{
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
	return r + "\"";
}
[[noreturn]] inline void fail(const std::string& what)
{
	std::string one;
	for (char c : what) one += (c == '\n' || c == '\r') ? ' ' : c;
	if (one.size() > 3000) one = one.substr(0, 1800) + " ... " + one.substr(one.size() - 1200);
	std::cout << "FAIL " << one << std::endl;
	std::_Exit(1);
}
inline void check(bool ok, const std::string& what) { if (!ok) fail(what); }

struct Mode { const char* name; std::function<void()> fixed; std::function<void(Rng&)> random; };

// --search SEED SECS [mode...]
inline int run(int argc, char** argv, const std::vector<Mode>& modes)
{
	uint64_t seed = 1; double secs = 5; std::vector<std::string> only;
	int i = 1;
	if (i < argc && !strcmp(argv[i], "--search")) ++i;
	if (i < argc) seed = strtoull(argv[i++], nullptr, 10);
	if (i < argc) secs = atof(argv[i++]);
	for (; i < argc; ++i) only.push_back(argv[i]);
	std::vector<const Mode*> sel;
	for (auto& m : modes) { bool in = only.empty(); for (auto& o : only) in = in || o == m.name; if (in) sel.push_back(&m); }
	uint64_t n = 0;
	auto guard = [](const char* nm, auto&& f) {
		try { f(); }
		catch (const std::exception& e) { fail(std::string(nm) + " unexpected exception: " + e.what()); }
		catch (...) { fail(std::string(nm) + " unexpected exception"); }
	};
	for (auto m : sel) if (m->fixed) guard(m->name, [&] { m->fixed(); });
	auto t0 = std::chrono::steady_clock::now();
	Rng r(seed);
	auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
	bool any = false;
	for (auto m : sel) any = any || bool(m->random);
	while (any && left())
		for (auto m : sel) if (m->random) for (int k = 0; k < 16 && left(); ++k) { guard(m->name, [&] { m->random(r); }); ++n; }
	std::cout << "OK " << n << " random cases, seed " << seed << std::endl;
	return 0;
}
} // namespace replay
