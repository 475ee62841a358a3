// Responses taken apart and values written and read through their modifiers by the client, compared with a reference.
#include "valgen.h"
#include "graphqlservice/GraphQLClient.h"
using namespace replay;
namespace client = graphql::client;
using client::TypeModifier;

// ---------------------------------------------------------------- a type of our own
struct Odd { int v = -1; bool operator==(const Odd& o) const { return v == o.v; } };
namespace graphql::client {
template <> response::Value ModifiedVariable<Odd>::serialize(Odd&& o)
{
	response::Value r(response::Type::Map);
	r.emplace_back("inner", ModifiedVariable<int>::serialize(int(o.v)));
	std::optional<std::vector<int>> more; if (o.v % 2) more = std::vector<int> { 1, o.v };
	r.emplace_back("more", ModifiedVariable<int>::serialize<TypeModifier::Nullable, TypeModifier::List>(std::move(more)));
	return r;
}
template <> Odd ModifiedResponse<Odd>::parse(response::Value&& v)
{
	if (v.type() != response::Type::Map) throw std::runtime_error("not an object");
	Odd o; auto ms = v.release<response::MapType>();
	for (auto& m : ms) if (m.first == "inner") o.v = ModifiedResponse<int>::parse<>(std::move(m.second));
	return o;
}
}

// ---------------------------------------------------------------- the reference
static std::string enc64(const std::vector<uint8_t>& b)
{
	static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < b.size(); i += 3)
	{
		unsigned x = b[i] << 16; if (i + 1 < b.size()) x |= b[i + 1] << 8; if (i + 2 < b.size()) x |= b[i + 2];
		r += al[x >> 18]; r += al[x >> 12 & 63]; r += i + 1 < b.size() ? al[x >> 6 & 63] : '='; r += i + 2 < b.size() ? al[x & 63] : '=';
	}
	return r;
}
static std::optional<std::vector<uint8_t>> dec64(const std::string& s)
{
	static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::vector<uint8_t> r; size_t n = s.size(), k = 0;
	while (k < n && al.find(s[k]) != al.npos) ++k;
	if (n - k > 2 || s.substr(k) != std::string(n - k, '=') || k % 4 == 1) return {};     // the property: at most two padding characters, however many letters
	unsigned acc = 0; int bits = 0;
	for (size_t i = 0; i < k; ++i) { acc = acc << 6 | unsigned(al.find(s[i])); bits += 6; if (bits >= 8) { bits -= 8; r.push_back(uint8_t(acc >> bits)); acc &= (1u << bits) - 1; } }
	if (acc) return {};
	return r;
}
static const Value* member(const Value& m, const std::string& n) { if (m.type() != Type::Map) return nullptr; for (auto& e : m.get<rsp::MapType>()) if (e.first == n) return &e.second; return nullptr; }
static std::string wnum(double d) { char b[40]; snprintf(b, sizeof b, "%.17gf", d); return b; }
// dump of what a value is written as
static std::string wr(int x) { return std::to_string(x); }
static std::string wr(double x) { return wnum(x); }
static std::string wr(const std::string& x) { return show(x); }
static std::string wr(bool x) { return x ? "true" : "false"; }
static std::string wr(const std::vector<uint8_t>& x) { return show(enc64(x)); }
static std::string wr(const Value& x) { return dump(x); }
static std::string wr(const Odd& o) { return "{" + show("inner") + ":" + std::to_string(o.v) + "," + show("more") + ":" + (o.v % 2 ? "[1," + std::to_string(o.v) + ",]" : "null") + ",}"; }
// what is read from a value
template <class T> std::optional<T> plain(const Value& v);
template <> std::optional<int> plain<int>(const Value& v) { if (v.type() == Type::Int) return v.get<rsp::IntType>(); return {}; }
template <> std::optional<double> plain<double>(const Value& v) { if (v.type() == Type::Float) return v.get<rsp::FloatType>(); if (v.type() == Type::Int) return double(v.get<rsp::IntType>()); return {}; }
template <> std::optional<std::string> plain<std::string>(const Value& v) { if (v.type() == Type::String) return v.get<rsp::StringType>(); return {}; }
template <> std::optional<bool> plain<bool>(const Value& v) { if (v.type() == Type::Boolean) return v.get<rsp::BooleanType>(); return {}; }
template <> std::optional<Value> plain<Value>(const Value& v) { return Value(v); }
template <> std::optional<std::vector<uint8_t>> plain<std::vector<uint8_t>>(const Value& v) { if (v.type() == Type::String) return dec64(v.get<rsp::StringType>()); return {}; }
template <> std::optional<Odd> plain<Odd>(const Value& v) { if (v.type() != Type::Map) return {}; Odd o; if (auto* m = member(v, "inner")) { if (m->type() != Type::Int) return {}; o.v = m->get<rsp::IntType>(); } return o; }

static int gen(Rng& r, int*) { return someInt(r); }
static double gen(Rng& r, double*) { return someDouble(r); }
static std::string gen(Rng& r, std::string*) { return text(r); }
static bool gen(Rng& r, bool*) { return r.coin(); }
static std::vector<uint8_t> gen(Rng& r, std::vector<uint8_t>*) { std::vector<uint8_t> b; for (int n = int(r.below(6)); n > 0; --n) b.push_back(uint8_t(r.below(256))); return b; }
static Value gen(Rng& r, Value*) { return genValue(r, 2, {}); }
static Odd gen(Rng& r, Odd*) { return { someInt(r) }; }

template <class T, TypeModifier... M> struct Ref;
template <class T> struct Ref<T>
{
	using type = T;
	static type make(Rng& r) { return gen(r, static_cast<T*>(nullptr)); }
	static std::string written(const type& x) { return wr(x); }
	static std::optional<type> want(const Value& v) { return plain<T>(v); }
	static bool eq(const type& a, const type& b) { return a == b; }
};
template <class T> struct Ref<T, TypeModifier::None> : Ref<T> {};
template <class T, TypeModifier... M> struct Ref<T, TypeModifier::Nullable, M...>
{
	using inner = Ref<T, M...>; using type = std::optional<typename inner::type>;
	static type make(Rng& r) { if (r.coin(40)) return {}; return type { inner::make(r) }; }
	static std::string written(const type& x) { return x ? inner::written(*x) : "null"; }
	static std::optional<type> want(const Value& v) { if (v.type() == Type::Null) return std::optional<type> { std::in_place, std::nullopt }; auto x = inner::want(v); if (!x) return {}; return std::optional<type> { std::in_place, std::move(*x) }; }
	static bool eq(const type& a, const type& b) { return a.has_value() == b.has_value() && (!a || inner::eq(*a, *b)); }
};
template <class T, TypeModifier... M> struct Ref<T, TypeModifier::List, M...>
{
	using inner = Ref<T, M...>; using type = std::vector<typename inner::type>;
	static type make(Rng& r) { type l; for (int n = int(r.below(5)); n > 0; --n) l.push_back(inner::make(r)); return l; }
	static std::string written(const type& x) { std::string s = "["; for (const auto& e : x) s += inner::written(e) + ","; return s + "]"; }
	static std::optional<type> want(const Value& v) { type l; if (v.type() == Type::List) for (auto& e : v.get<rsp::ListType>()) { auto x = inner::want(e); if (!x) return {}; l.push_back(std::move(*x)); } return l; }
	static bool eq(const type& a, const type& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!inner::eq(a[i], b[i])) return false; return true; }
};

template <class T> std::string tname() { return typeid(T).name(); }
template <class T, TypeModifier... M> void one(const Value& v)
{
	auto want = Ref<T, M...>::want(v);
	std::string in = dump(v), as = tname<T>(); for (auto m : std::initializer_list<TypeModifier> { M... }) as += m == TypeModifier::Nullable ? " nullable" : m == TypeModifier::List ? " list" : " none";
	Value copy(v);
	try
	{
		auto got = client::ModifiedResponse<T>::template parse<M...>(std::move(copy));
		check(bool(want), in + " read as " + as + " was accepted");
		check(Ref<T, M...>::eq(got, *want), in + " read as " + as + " is another value: " + Ref<T, M...>::written(got));
	}
	catch (const std::exception& e) { check(!want, in + " read as " + as + " was refused: " + e.what()); }
}
template <class T, TypeModifier... M> void trip(Rng& r)
{
	auto x = Ref<T, M...>::make(r);
	std::string want = Ref<T, M...>::written(x);
	auto v = client::ModifiedVariable<T>::template serialize<M...>(std::move(x));
	check(dump(v) == want, "written as " + dump(v) + " instead of " + want);
	one<T, M...>(v);
}
template <class T, TypeModifier... M> void both(Rng& r, const Value& v) { one<T, M...>(v); trip<T, M...>(r); }
constexpr auto N = TypeModifier::Nullable; constexpr auto Li = TypeModifier::List;
template <class T> void all(Rng& r, const Value& v)
{
	both<T, TypeModifier::None>(r, v); both<T, N>(r, v); both<T, Li>(r, v); both<T, Li, N>(r, v); both<T, N, Li>(r, v); both<T, Li, Li>(r, v); both<T, N, Li, N>(r, v); both<T, Li, N, Li, N>(r, v);
}
static Value lists(Rng& r, int d)
{
	if (d == 0 || r.coin(15)) { if (r.coin(25)) return Value(); switch (r.below(5)) { case 0: return Value(text(r)); case 1: return Value(rsp::IntType(someInt(r))); case 2: return Value(someDouble(r)); case 3: return Value(r.coin()); default: { Value v(enc64(gen(r, static_cast<std::vector<uint8_t>*>(nullptr)))); return v; } } }
	Value v(Type::List); int kind = int(r.below(6));
	for (int n = int(r.below(4)); n > 0; --n)
	{
		if (r.coin(10)) { v.emplace_back(Value()); continue; }
		if (d > 1 && r.coin(70)) { v.emplace_back(lists(r, d - 1)); continue; }
		switch (kind) { case 0: v.emplace_back(Value(text(r))); break; case 1: v.emplace_back(Value(rsp::IntType(someInt(r)))); break; case 2: v.emplace_back(Value(someDouble(r))); break; case 3: v.emplace_back(Value(r.coin())); break; case 4: v.emplace_back(Value(enc64(gen(r, static_cast<std::vector<uint8_t>*>(nullptr))))); break; default: { Value m(Type::Map); m.emplace_back("inner", Value(rsp::IntType(someInt(r)))); v.emplace_back(std::move(m)); } }
	}
	return v;
}
static void values(Rng& r)
{
	Value v = r.coin(70) ? lists(r, int(r.below(4))) : genValue(r, 3, {});
	all<int>(r, v); all<double>(r, v); all<std::string>(r, v); all<Value>(r, v); all<std::vector<uint8_t>>(r, v); all<Odd>(r, v);
	both<bool, TypeModifier::None>(r, v); both<bool, N>(r, v);
}

// ---------------------------------------------------------------- responses
static Value number(Rng& r) { return r.coin(80) ? Value(rsp::IntType(r.coin(70) ? int(r.below(500)) : someInt(r))) : genValue(r, 1, {}); }
static Value shuffled(Rng& r, std::vector<std::pair<std::string, Value>> ms)
{
	Value v(Type::Map);
	while (!ms.empty()) { size_t i = r.below(ms.size()); v.emplace_back(std::move(ms[i].first), std::move(ms[i].second)); ms.erase(ms.begin() + long(i)); }
	return v;
}
static void extra(Rng& r, std::vector<std::pair<std::string, Value>>& ms) { static const std::vector<std::string> t { "extensions", "Data", "Errors", "lines", "paths", "", "err" }; if (r.coin(40)) ms.emplace_back(r.pick(t), genValue(r, 1, {})); }
static Value genLoc(Rng& r)
{
	if (r.coin(8)) return genValue(r, 1, {});
	std::vector<std::pair<std::string, Value>> ms;
	if (r.coin(85)) ms.emplace_back("line", number(r));
	if (r.coin(85)) ms.emplace_back("column", number(r));
	extra(r, ms);
	return shuffled(r, std::move(ms));
}
template <class F> Value listOf(Rng& r, F&& f) { if (r.coin(8)) return genValue(r, 1, {}); Value v(Type::List); for (int n = int(r.below(5)); n > 0; --n) v.emplace_back(f(r)); return v; }
static Value genSeg(Rng& r) { return r.coin(45) ? Value(text(r)) : r.coin(85) ? Value(rsp::IntType(r.coin() ? int(r.below(20)) : someInt(r))) : genValue(r, 1, {}); }
static Value genErr(Rng& r)
{
	if (r.coin(8)) return genValue(r, 1, {});
	std::vector<std::pair<std::string, Value>> ms;
	if (r.coin(85)) ms.emplace_back("message", r.coin(85) ? Value(text(r)) : genValue(r, 1, {}));
	if (r.coin(70)) ms.emplace_back("locations", listOf(r, genLoc));
	if (r.coin(70)) ms.emplace_back("path", listOf(r, genSeg));
	extra(r, ms);
	return shuffled(r, std::move(ms));
}
static int intIn(const Value& v, const char* n) { auto* m = member(v, n); return m && m->type() == Type::Int ? m->get<rsp::IntType>() : 0; }
static const std::vector<Value>& listIn(const Value& v, const char* n) { static const std::vector<Value> none; auto* m = member(v, n); return m && m->type() == Type::List ? m->get<rsp::ListType>() : none; }
static void decode(const Value& v)
{
	std::string in = dump(v);
	auto* d = member(v, "data");
	std::string want = "data " + (d ? dump(*d) : "null");
	for (auto& e : listIn(v, "errors"))
	{
		auto* m = member(e, "message");
		want += " error " + show(m && m->type() == Type::String ? m->get<rsp::StringType>() : "");
		for (auto& l : listIn(e, "locations")) want += " at " + std::to_string(intIn(l, "line")) + "/" + std::to_string(intIn(l, "column"));
		for (auto& s : listIn(e, "path")) want += " / " + (s.type() == Type::String ? show(s.get<rsp::StringType>()) : s.type() == Type::Int ? std::to_string(s.get<rsp::IntType>()) : "0");
	}
	std::string got;
	try
	{
		auto r = client::parseServiceResponse(Value(v));
		got = "data " + dump(r.data);
		for (auto& e : r.errors)
		{
			got += " error " + show(e.message);
			for (auto& l : e.locations) got += " at " + std::to_string(l.line) + "/" + std::to_string(l.column);
			for (auto& s : e.path) got += " / " + (std::holds_alternative<std::string>(s) ? show(std::get<std::string>(s)) : std::to_string(std::get<int>(s)));
		}
	}
	catch (const std::exception& e) { got = std::string("exception ") + e.what(); }
	check(got == want, "response " + in + " decoded as " + got + " instead of " + want);
}
static void responses(Rng& r)
{
	std::vector<std::pair<std::string, Value>> ms;
	if (r.coin(85)) ms.emplace_back("data", genValue(r, 3, {}));
	if (r.coin(85)) ms.emplace_back("errors", listOf(r, genErr));
	extra(r, ms);
	decode(r.coin(5) ? genValue(r, 2, {}) : shuffled(r, std::move(ms)));
}
int main(int argc, char** argv)
{
	return run(argc, argv, { { "responses", [] {}, responses }, { "values", [] {}, values } });
}
