// C03: response::Value against an independent value model.
#include "common.h"
#include "graphqlservice/GraphQLResponse.h"
#include "graphqlservice/internal/Base64.h"
#include <algorithm>
using namespace replay;
using namespace graphql;
using response::Value;
using response::Type;

struct M
{
	Type t = Type::Null;
	std::vector<std::pair<std::string, M>> map;
	std::vector<M> list;          // list elements, or 0/1 scalar content
	std::string s;
	bool fj = false, b = false;
	int i = 0;
	double d = 0;
	bool operator==(const M& o) const
	{
		return t == o.t && map == o.map && list == o.list && s == o.s && fj == o.fj && b == o.b && i == o.i && d == o.d;
	}
};
static const std::vector<std::string> names { "", "a", "b", "aa", "ab", "ba", "z", "__typename", "abc", "A", std::string("a\0b", 3), "\xc3\xa9", "id", "node", "edges", "cursor" };

static std::string str(const M& m)
{
	std::string r;
	switch (m.t)
	{
		case Type::Map: r = "{"; for (auto& e : m.map) r += show(e.first) + ":" + str(e.second) + ","; return r + "}";
		case Type::List: r = "["; for (auto& e : m.list) r += str(e) + ","; return r + "]";
		case Type::String: return show(m.s) + (m.fj ? "j" : "");
		case Type::Null: return "null";
		case Type::Boolean: return m.b ? "true" : "false";
		case Type::Int: return std::to_string(m.i);
		case Type::Float: return std::to_string(m.d) + "f";
		case Type::EnumValue: return "enum " + show(m.s);
		case Type::Scalar: return m.list.empty() ? "scalar()" : "scalar(" + str(m.list[0]) + ")";
	}
	return "?";
}
template <class F> bool throwsLogic(F f)
{
	try { f(); } catch (const std::logic_error&) { return true; } catch (const std::runtime_error&) { return true; }
	return false;
}
static void same(const Value& v, const M& m, const std::string& h)
{
	auto ck = [&](bool ok, const char* w) { check(ok, std::string(w) + ": expected " + str(m) + " after " + h); };
	ck(v.type() == m.t, "type");
	const bool mp = m.t == Type::Map, ls = m.t == Type::List, st = m.t == Type::String, en = m.t == Type::EnumValue;
	ck(throwsLogic([&] { v.get<response::MapType>(); }) == !mp, "get<MapType>");
	ck(throwsLogic([&] { v.get<response::ListType>(); }) == !ls, "get<ListType>");
	ck(throwsLogic([&] { v.get<response::StringType>(); }) == !(st || en), "get<StringType>");
	ck(throwsLogic([&] { v.get<response::BooleanType>(); }) == (m.t != Type::Boolean), "get<BooleanType>");
	ck(throwsLogic([&] { v.get<response::IntType>(); }) == (m.t != Type::Int), "get<IntType>");
	ck(throwsLogic([&] { v.get<response::FloatType>(); }) == (m.t != Type::Float && m.t != Type::Int), "get<FloatType>");
	ck(throwsLogic([&] { v.get<response::ScalarType>(); }) == (m.t != Type::Scalar || m.list.empty()), "get<ScalarType>");
	ck(throwsLogic([&] { v.size(); }) == !(mp || ls), "size()");
	ck(throwsLogic([&] { v.begin(); }) == !mp, "begin()");
	ck(throwsLogic([&] { v.end(); }) == !mp, "end()");
	ck(throwsLogic([&] { v.find("a"); }) == !mp, "find()");
	ck(v.maybe_enum() == (en || (st && m.fj)), "maybe_enum()");
	if (!st) ck(throwsLogic([&] { v.get<response::IdType>(); }), "get<IdType>");
	switch (m.t)
	{
		case Type::Map:
		{
			ck(v.size() == m.map.size(), "object size");
			auto it = v.begin();
			for (auto& e : m.map)
			{
				ck(it != v.end() && it->first == e.first, "member order");
				same(it->second, e.second, h);
				ck(v.find(e.first) == it, "find of a member");
				ck(&v[e.first] == &it->second, "operator[] of a member");
				++it;
			}
			ck(it == v.end(), "end");
			for (auto& n : names)
			{
				const bool has = std::any_of(m.map.begin(), m.map.end(), [&](auto& e) { return e.first == n; });
				ck((v.find(n) != v.end()) == has, "find");
				ck(throwsLogic([&] { v[n]; }) == !has, "operator[] by name");
			}
			ck(v.get<response::MapType>().size() == m.map.size(), "get<MapType> size");
			break;
		}
		case Type::List:
			ck(v.size() == m.list.size(), "list size");
			for (size_t i = 0; i < m.list.size(); ++i) same(v[i], m.list[i], h);
			ck(throwsLogic([&] { v[m.list.size()]; }), "operator[] past the end");
			break;
		case Type::String:
		{
			ck(v.get<response::StringType>() == m.s, "string content");
			bool ok = true;
			std::vector<uint8_t> id;
			try { id = internal::Base64::fromBase64(m.s); } catch (const std::exception&) { ok = false; }
			ck(throwsLogic([&] { v.get<response::IdType>(); }) == !ok, "get<IdType>");
			if (ok) ck(v.get<response::IdType>() == id, "id content");
			break;
		}
		case Type::EnumValue: ck(v.get<response::StringType>() == m.s, "enum content"); break;
		case Type::Boolean: ck(v.get<response::BooleanType>() == m.b, "boolean content"); break;
		case Type::Int: ck(v.get<response::IntType>() == m.i, "int content"); ck(v.get<response::FloatType>() == double(m.i), "int as float"); break;
		case Type::Float: ck(v.get<response::FloatType>() == m.d, "float content"); break;
		case Type::Scalar: if (!m.list.empty()) same(v.get<response::ScalarType>(), m.list[0], h); break;
		case Type::Null: break;
	}
	ck(v == v && !(v != v), "equality with itself");
}
static int rint(Rng& r)
{
	static const int sp[] = { 0, 1, -1, 2147483647, -2147483647 - 1, 16777217, 42 };
	return r.coin() ? sp[r.below(7)] : int(uint32_t(r.g()));
}
static double rdbl(Rng& r)
{
	static const double sp[] = { 0.0, -1.5, 1e308, 5e-324, 16777217.0, 3.25 };
	return r.coin() ? sp[r.below(6)] : double(int64_t(r.g())) / 1024;
}
static std::pair<Value, M> gen(Rng& r, int depth)
{
	M m;
	const int k = int(r.below(depth > 0 ? 13 : 9));
	switch (k)
	{
		case 0: m.t = Type::Null; return { Value(Type::Null), m };
		case 1: { m.t = Type::Boolean; m.b = r.coin(); return { Value(m.b), m }; }
		case 2: { m.t = Type::Int; m.i = rint(r); return { Value(m.i), m }; }
		case 3: { m.t = Type::Float; m.d = rdbl(r); return { Value(m.d), m }; }
		case 4: { m.t = Type::String; m.s = r.pick(names); return { Value(std::string(m.s)), m }; }
		case 5: { m.t = Type::String; m.s = "plain"; return { Value("plain"), m }; }
		case 6:
		{
			std::vector<uint8_t> id(r.below(6));
			for (auto& c : id) c = uint8_t(r.g());
			m.t = Type::String; m.s = internal::Base64::toBase64(id);
			Value v(id);
			return { std::move(v), m };
		}
		case 7:
		{
			m.t = Type(r.below(9));
			return { Value(m.t), m };
		}
		case 8:
		{
			m.t = Type::EnumValue; m.s = r.pick(names);
			Value v(Type::EnumValue);
			v.set<response::StringType>(std::string(m.s));
			return { std::move(v), m };
		}
		case 9:
		case 10:
		{
			m.t = Type::Map;
			Value v(Type::Map);
			if (r.coin()) v.reserve(r.below(6));
			for (int n = int(r.below(7)); n > 0; --n)
			{
				auto e = gen(r, depth - 1);
				const auto& nm = r.pick(names);
				const bool has = std::any_of(m.map.begin(), m.map.end(), [&](auto& x) { return x.first == nm; });
				check(v.emplace_back(std::string(nm), std::move(e.first)) == !has, "emplace_back of " + show(nm) + " into " + str(m));
				if (!has) m.map.push_back({ nm, e.second });
			}
			return { std::move(v), m };
		}
		case 11:
		{
			m.t = Type::List;
			Value v(Type::List);
			if (r.coin()) v.reserve(r.below(6));
			for (int n = int(r.below(5)); n > 0; --n)
			{
				auto e = gen(r, depth - 1);
				v.emplace_back(std::move(e.first));
				m.list.push_back(e.second);
			}
			return { std::move(v), m };
		}
		default:
		{
			m.t = Type::Scalar;
			Value v(Type::Scalar);
			auto e = gen(r, depth - 1);
			v.set<response::ScalarType>(std::move(e.first));
			m.list = { e.second };
			return { std::move(v), m };
		}
	}
}
static void step(Rng& r, Value& v, M& m, std::string& h)
{
	switch (r.below(14))
	{
		case 0: { h += "copy;"; Value c(v); same(v, m, h); check(c == v && !(c != v), "a copy is equal: " + str(m) + " " + h); v = std::move(c); break; }
		case 1: { h += "move;"; Value c(std::move(v)); check(v.type() == m.t, "moved-from type " + str(m)); if (m.t == Type::Map || m.t == Type::List) check(v.size() == 0, "moved-from size"); Value again(v); check(again.type() == m.t, "copy of moved-from"); v = std::move(c); break; }
		case 2: { h += "from_json;"; v.from_json(); if (m.t == Type::String) m.fj = true; break; }
		case 3: { const auto& s = r.pick(names); h += "set string " + show(s) + ";"; const bool bad = throwsLogic([&] { v.set<response::StringType>(std::string(s)); }); check(bad == !(m.t == Type::String || m.t == Type::EnumValue), "set<StringType> " + h); if (!bad) m.s = s; break; }
		case 4: { h += "set bool;"; const bool b = r.coin(); const bool bad = throwsLogic([&] { v.set<response::BooleanType>(b); }); check(bad == (m.t != Type::Boolean), "set<BooleanType> " + h); if (!bad) m.b = b; break; }
		case 5: { const int x = rint(r); h += "set int " + std::to_string(x) + ";"; const bool bad = throwsLogic([&] { v.set<response::IntType>(x); }); check(bad == !(m.t == Type::Int || m.t == Type::Float), "set<IntType> " + h); if (!bad) { if (m.t == Type::Int) m.i = x; else m.d = x; } break; }
		case 6: { const double x = rdbl(r); h += "set float;"; const bool bad = throwsLogic([&] { v.set<response::FloatType>(x); }); check(bad == (m.t != Type::Float), "set<FloatType> " + h); if (!bad) m.d = x; break; }
		case 7: { h += "set scalar;"; auto e = gen(r, 1); const bool bad = throwsLogic([&] { v.set<response::ScalarType>(std::move(e.first)); }); check(bad == (m.t != Type::Scalar), "set<ScalarType> " + h); if (!bad) m.list = { e.second }; break; }
		case 8: { h += "set id;"; std::vector<uint8_t> id { uint8_t(r.g()), 7 }; const bool bad = throwsLogic([&] { v.set<response::IdType>(id); }); check(bad == (m.t != Type::String), "set<IdType> " + h); if (!bad) m.s = internal::Base64::toBase64(id); break; }
		case 9:
		{
			const auto& nm = r.pick(names);
			h += "add " + show(nm) + ";";
			auto e = gen(r, 1);
			bool added = false;
			const bool bad = throwsLogic([&] { added = v.emplace_back(std::string(nm), std::move(e.first)); });
			check(bad == (m.t != Type::Map), "emplace_back(name, value) " + h);
			if (!bad)
			{
				const bool has = std::any_of(m.map.begin(), m.map.end(), [&](auto& x) { return x.first == nm; });
				check(added == !has, "emplace_back result " + h);
				if (!has) m.map.push_back({ nm, e.second });
			}
			break;
		}
		case 10: { h += "push;"; auto e = gen(r, 1); const bool bad = throwsLogic([&] { v.emplace_back(std::move(e.first)); }); check(bad == (m.t != Type::List), "emplace_back(value) " + h); if (!bad) m.list.push_back(e.second); break; }
		case 11:
		{
			h += "release;";
			if (m.t == Type::Map) { auto x = v.release<response::MapType>(); check(x.size() == m.map.size(), "release<MapType> " + h); for (size_t i = 0; i < x.size(); ++i) { check(x[i].first == m.map[i].first, "release<MapType> order"); same(x[i].second, m.map[i].second, h); } m.map.clear(); }
			else if (m.t == Type::List) { auto x = v.release<response::ListType>(); check(x.size() == m.list.size(), "release<ListType> " + h); for (size_t i = 0; i < x.size(); ++i) same(x[i], m.list[i], h); m.list.clear(); }
			else if (m.t == Type::String || m.t == Type::EnumValue)
			{
				check(v.release<response::StringType>() == m.s, "release<StringType> " + h);
				m.s = "again";
				if (m.t == Type::String) m.fj = v.maybe_enum();
				v.set<response::StringType>("again");
			}
			else if (m.t == Type::Scalar && !m.list.empty()) { auto x = v.release<response::ScalarType>(); same(x, m.list[0], h); m.list.clear(); }
			else { check(throwsLogic([&] { v.release<response::ScalarType>(); }) && throwsLogic([&] { v.release<response::MapType>(); }) && throwsLogic([&] { v.release<response::ListType>(); }) && throwsLogic([&] { v.release<response::StringType>(); }), "release of a wrong type " + h); }
			break;
		}
		case 12: { h += "reserve;"; check(throwsLogic([&] { v.reserve(3); }) == !(m.t == Type::Map || m.t == Type::List), "reserve " + h); break; }
		case 13:
		{
			h += "release id;";
			if (m.t == Type::String)
			{
				std::vector<uint8_t> want; bool ok = true;
				try { want = internal::Base64::fromBase64(m.s); } catch (const std::exception&) { ok = false; }
				std::vector<uint8_t> got;
				check(throwsLogic([&] { got = v.release<response::IdType>(); }) == !ok, "release<IdType> " + h);
				if (ok) check(got == want, "release<IdType> content " + h);
				check(v.type() == Type::String, "type after release<IdType>");
				v.set<response::StringType>(std::string(m.s));
			}
			else check(throwsLogic([&] { v.release<response::IdType>(); }), "release<IdType> of a wrong type");
			break;
		}
	}
	same(v, m, h + " on " + str(m));
}
int main(int argc, char** argv)
{
	auto fixed = [] {
		for (int t = 0; t < 9; ++t) { Value v { Type(t) }; M m; m.t = Type(t); same(v, m, "construction"); Value c(v); same(c, m, "copy of an empty value"); check(c == v, "empty copy"); Value mv(std::move(v)); same(mv, m, "move of an empty value"); }
		for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) { Value a { Type(i) }, b { Type(j) }; check((a == b) == (i == j) && (a != b) == (i != j), "equality of empty values"); }
		// every insertion order of four names
		std::vector<int> p { 0, 1, 2, 3 };
		const std::vector<std::string> n { "a", "ab", "b", "" };
		do {
			Value v(Type::Map); M m; m.t = Type::Map;
			for (int i : p) { check(v.emplace_back(std::string(n[i]), Value(i)), "insertion"); M e; e.t = Type::Int; e.i = i; m.map.push_back({ n[i], e }); same(v, m, "insertion"); for (auto& x : m.map) check(!v.emplace_back(std::string(x.first), Value(99)), "duplicate name accepted"); same(v, m, "refused insertion"); }
			Value c(v); same(c, m, "copy of an object"); check(c == v, "copied object");
		} while (std::next_permutation(p.begin(), p.end()));
	};
	auto random = [](Rng& r) {
		auto a = gen(r, 3);
		same(a.first, a.second, "construction");
		std::string h = str(a.second) + ": ";
		for (int i = 0; i < 12; ++i) step(r, a.first, a.second, h);
		auto b = gen(r, 2);
		check((a.first == b.first) == (a.second == b.second) && (a.first != b.first) == !(a.second == b.second), "equality of " + str(a.second) + " and " + str(b.second));
		// near copies differ
		Value c(a.first); M cm = a.second;
		std::string h2 = h;
		step(r, c, cm, h2);
		check((a.first == c) == (a.second == cm), "equality of " + str(a.second) + " and " + str(cm));
	};
	return run(argc, argv, { Mode { "value", fixed, random } });
}
