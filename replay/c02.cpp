// C02: sorted_map / sorted_set / shorter_or_less against std::map / std::set.
#include "common.h"
#include "graphqlservice/internal/SortedMap.h"
#include <map>
#include <set>
#include <algorithm>
using namespace replay;
using namespace graphql::internal;

struct K
{
	int k;
	K(int v = 0) : k(v) {}
	bool operator<(const K& o) const { return k < o.k; }
	bool operator==(const K& o) const { return k == o.k; }
};
static std::string ts(const std::string& s) { return s; }
static std::string ts(std::string_view s) { return std::string(s); }
static std::string ts(int v) { return std::to_string(v); }

template <class Mp, class Ref> void sameMap(const Mp& m, const Ref& r, const std::string& h)
{
	check(m.size() == r.size() && m.empty() == r.empty(), "map size differs after " + h);
	auto j = r.begin();
	for (auto i = m.begin(); i != m.end(); ++i, ++j) check(i->first == j->first && i->second == j->second, "map iteration differs after " + h);
	auto jr = r.rbegin();
	for (auto i = m.rbegin(); i != m.rend(); ++i, ++jr) check(i->first == jr->first, "map reverse iteration differs after " + h);
}
template <class St, class Ref> void sameSet(const St& m, const Ref& r, const std::string& h)
{
	check(m.size() == r.size() && m.empty() == r.empty(), "set size differs after " + h);
	auto j = r.begin();
	for (auto i = m.begin(); i != m.end(); ++i, ++j) check(*i == *j, "set iteration differs after " + h);
	auto jr = r.rbegin();
	for (auto i = m.rbegin(); i != m.rend(); ++i, ++jr) check(*i == *jr, "set reverse iteration differs after " + h);
}

template <class Key, class Cmp> void mapRun(Rng& r, const std::vector<Key>& keys, int ops)
{
	sorted_map<Key, int, Cmp> m;
	std::map<Key, int, Cmp> o;
	std::string h;
	if (r.coin(30))
	{
		std::vector<Key> ks = keys;
		std::shuffle(ks.begin(), ks.end(), r.g);
		if (ks.size() >= 4)
		{
			m = sorted_map<Key, int, Cmp> { { ks[0], 1 }, { ks[1], 2 }, { ks[2], 3 }, { ks[3], 4 } };
			o = { { ks[0], 1 }, { ks[1], 2 }, { ks[2], 3 }, { ks[3], 4 } };
			h = "init{" + ts(ks[0]) + "," + ts(ks[1]) + "," + ts(ks[2]) + "," + ts(ks[3]) + "} ";
			sameMap(m, o, h);
		}
	}
	for (int i = 0; i < ops; ++i)
	{
		const Key k = r.pick(keys);
		const int v = static_cast<int>(r.below(1000));
		switch (r.below(8))
		{
			case 0: case 1: case 2:
			{
				h += "emplace(" + ts(k) + "," + ts(v) + ") ";
				auto a = m.emplace(k, v);
				auto b = o.emplace(k, v);
				check(a.second == b.second, "map emplace result differs: " + h);
				check(a.first != m.end() && a.first->first == b.first->first && a.first->second == b.first->second, "map emplace iterator differs: " + h);
				break;
			}
			case 3:
			{
				h += "erase(" + ts(k) + ") ";
				auto ub = o.upper_bound(k);
				bool had = o.erase(k);
				auto it = m.erase(k);
				check(had ? (ub == o.end() ? it == m.end() : it != m.end() && it->first == ub->first) : it == m.end(), "map erase result differs: " + h);
				break;
			}
			case 4:
			{
				h += "[" + ts(k) + "]=" + ts(v) + " ";
				check(m[k] == o[k], "map operator[] value differs: " + h);
				m[k] = v; o[k] = v;
				break;
			}
			case 5:
			{
				h += "at(" + ts(k) + ") ";
				bool threw = false; int got = 0;
				try { got = m.at(k); } catch (const std::out_of_range&) { threw = true; }
				check(threw == !o.count(k) && (threw || got == o.at(k)), "map at differs: " + h);
				if (!threw && r.coin()) { m.at(k) = v; o.at(k) = v; h += "=" + ts(v) + " "; }
				break;
			}
			case 6:
			{
				if (m.empty()) break;
				size_t p = r.below(m.size());
				h += "erase(begin+" + ts(static_cast<int>(p)) + ") ";
				auto it = m.erase(m.begin() + p);
				o.erase(std::next(o.begin(), p));
				check(static_cast<size_t>(it - m.begin()) == p, "map erase(iterator) result differs: " + h);
				break;
			}
			case 7:
				if (r.coin(5)) { m.clear(); o.clear(); h += "clear "; }
				else if (r.coin(20)) { m.reserve(r.below(20)); h += "reserve "; }
				else
				{
					auto c = m;
					check(c == m, "map copy not equal after " + h);
					if (!c.empty()) { c.erase(c.begin()); check(!(c == m), "maps of different content compare equal after " + h); }
				}
				break;
		}
		sameMap(m, o, h);
		for (const auto& q : keys)
		{
			auto a = m.find(q);
			auto b = o.find(q);
			check((a == m.end()) == (b == o.end()) && (b == o.end() || (a->first == b->first && a->second == b->second)), "map find(" + ts(q) + ") differs after " + h);
		}
	}
}
template <class Key, class Cmp> void setRun(Rng& r, const std::vector<Key>& keys, int ops)
{
	sorted_set<Key, Cmp> m;
	std::set<Key, Cmp> o;
	std::string h;
	if (r.coin(30) && keys.size() >= 4)
	{
		std::vector<Key> ks = keys;
		std::shuffle(ks.begin(), ks.end(), r.g);
		m = sorted_set<Key, Cmp> { ks[0], ks[1], ks[2], ks[3] };
		o = { ks[0], ks[1], ks[2], ks[3] };
		h = "init{" + ts(ks[0]) + "," + ts(ks[1]) + "," + ts(ks[2]) + "," + ts(ks[3]) + "} ";
		sameSet(m, o, h);
	}
	for (int i = 0; i < ops; ++i)
	{
		const Key k = r.pick(keys);
		switch (r.below(6))
		{
			case 0: case 1:
			{
				h += "emplace(" + ts(k) + ") ";
				auto a = m.emplace(k);
				auto b = o.emplace(k);
				check(a.second == b.second && a.first != m.end() && *a.first == *b.first, "set emplace differs: " + h);
				break;
			}
			case 2:
			{
				h += "emplace(move " + ts(k) + ") ";
				Key kk = k;
				auto a = m.emplace(std::move(kk));
				auto b = o.emplace(k);
				check(a.second == b.second && a.first != m.end() && *a.first == *b.first, "set emplace(move) differs: " + h);
				break;
			}
			case 3:
			{
				h += "erase(" + ts(k) + ") ";
				auto ub = o.upper_bound(k);
				bool had = o.erase(k);
				auto it = m.erase(k);
				check(had ? (ub == o.end() ? it == m.end() : it != m.end() && *it == *ub) : it == m.end(), "set erase result differs: " + h);
				break;
			}
			case 4:
			{
				if (m.empty()) break;
				size_t p = r.below(m.size());
				h += "erase(begin+" + ts(static_cast<int>(p)) + ") ";
				m.erase(m.begin() + p);
				o.erase(std::next(o.begin(), p));
				break;
			}
			case 5:
				if (r.coin(5)) { m.clear(); o.clear(); h += "clear "; }
				else { auto c = m; check(c == m, "set copy not equal after " + h); }
				break;
		}
		sameSet(m, o, h);
		for (const auto& q : keys)
		{
			auto a = m.find(q);
			check((a == m.end()) == !o.count(q) && (a == m.end() || *a == q), "set find(" + ts(q) + ") differs after " + h);
		}
	}
}

static bool ref(std::string_view a, std::string_view b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return static_cast<unsigned char>(x) < static_cast<unsigned char>(y); });
}
static std::string word(Rng& r)
{
	static const std::string al("abz\0\x80\xff""A_", 8);
	std::string s;
	for (size_t n = r.below(5); n; --n) s += al[r.below(al.size())];
	return s;
}

int main(int argc, char** argv)
{
	static std::vector<std::string> store;
	static const std::vector<std::string> words { "", "a", "b", "ab", "ba", "aa", "abc", "abd", "z", "name", "Name", "names" };
	return run(argc, argv, {
		{ "order", nullptr, [](Rng& r) {
			 auto a = word(r), b = r.coin(20) ? a : word(r);
			 if (r.coin(20) && !a.empty()) { b = a; b[r.below(b.size())] = static_cast<char>(r.below(256)); }
			 if (r.coin(20)) { static const std::vector<size_t> more { 8, 16, 32, 64, 128, 255, 256, 257, 512, 1024, 65536 }; b.append(r.pick(more), r.coin() ? 'a' : '~'); if (r.coin()) std::swap(a, b); }
			 check(shorter_or_less {}(a, b) == ref(a, b), "shorter_or_less(" + show(a) + "," + show(b) + ") differs from shorter-then-alphabetical");
		 } },
		{ "map-int", nullptr, [](Rng& r) { std::vector<int> ks; for (int i = 0, n = 1 + int(r.below(12)); i < n; ++i) ks.push_back(i); mapRun<int, std::less<int>>(r, ks, 1 + int(r.below(25))); } },
		{ "map-name", nullptr, [](Rng& r) {
			 std::vector<std::string_view> ks(words.begin(), words.begin() + 1 + r.below(words.size()));
			 mapRun<std::string_view, shorter_or_less>(r, ks, 1 + int(r.below(25)));
		 } },
		{ "map-string", nullptr, [](Rng& r) { mapRun<std::string, std::less<std::string>>(r, words, 1 + int(r.below(25))); } },
		{ "map-int-rev", nullptr, [](Rng& r) { std::vector<int> ks; for (int i = 0; i < 8; ++i) ks.push_back(i * 3 - 7); mapRun<int, std::greater<int>>(r, ks, 1 + int(r.below(25))); } },
		{ "set-int", nullptr, [](Rng& r) { std::vector<int> ks; for (int i = 0, n = 1 + int(r.below(12)); i < n; ++i) ks.push_back(i); setRun<int, std::less<int>>(r, ks, 1 + int(r.below(25))); } },
		{ "set-name", nullptr, [](Rng& r) { std::vector<std::string_view> ks(words.begin(), words.begin() + 1 + r.below(words.size())); setRun<std::string_view, shorter_or_less>(r, ks, 1 + int(r.below(25))); } },
		{ "set-string", nullptr, [](Rng& r) { setRun<std::string, std::less<std::string>>(r, words, 1 + int(r.below(25))); } },
		{ "large", nullptr, [](Rng& r) { std::vector<int> ks; for (int i = 0; i < 200; ++i) ks.push_back(i); if (r.coin(5)) { mapRun<int, std::less<int>>(r, ks, 300); setRun<int, std::less<int>>(r, ks, 300); } } },
	});
}
