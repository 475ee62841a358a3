// Arguments read through ModifiedArgument, compared with a reference that knows nothing of it.
#include "valgen.h"
#include "graphqlservice/GraphQLService.h"
using namespace replay;
namespace service = graphql::service;
using service::TypeModifier;
using service::ModifiedArgument;

// ---------------------------------------------------------------- a conversion of our own
struct Odd { int v = -1; bool operator==(const Odd& o) const { return v == o.v; } };
namespace graphql::service {
template <> Odd ModifiedArgument<Odd>::convert(const response::Value& value)
{
	if (value.type() == response::Type::String) throw std::runtime_error("no strings");
	if (value.type() == response::Type::Boolean) { std::list<schema_error> es; es.push_back({ "first", { 3, 4 } }); es.push_back({ "second" }); throw schema_exception(std::move(es)); }
	if (value.type() == response::Type::Map) { Odd o; o.v = ModifiedArgument<int>::require("inner", value); auto more = ModifiedArgument<int>::require<TypeModifier::Nullable, TypeModifier::List>("more", value); if (more) for (int x : *more) o.v = o.v * 31 + x; return o; }
	if (value.type() != response::Type::Int) throw schema_exception { { "not odd" } };
	return { value.get<response::IntType>() };
}
}

// ---------------------------------------------------------------- the reference
static std::optional<std::vector<uint8_t>> ref64(const std::string& s)
{
	static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::vector<uint8_t> r; size_t n = s.size(), k = 0;
	while (k < n && al.find(s[k]) != al.npos) ++k;
	if (n - k > 2 || s.substr(k) != std::string(n - k, '=') || k % 4 == 1) return {};     // the property: at most two padding characters, however many letters
	unsigned acc = 0; int bits = 0;
	for (size_t i = 0; i < k; ++i) { acc = acc << 6 | unsigned(al.find(s[i])); bits += 6; if (bits >= 8) { bits -= 8; r.push_back(uint8_t(acc >> bits)); acc &= (1u << bits) - 1; } }
	if (acc) return {};
	return r;
}
template <class T> std::optional<T> plain(const Value& v);
template <> std::optional<int> plain<int>(const Value& v) { if (v.type() == Type::Int) return v.get<rsp::IntType>(); return {}; }
template <> std::optional<double> plain<double>(const Value& v) { if (v.type() == Type::Float) return v.get<rsp::FloatType>(); if (v.type() == Type::Int) return double(v.get<rsp::IntType>()); return {}; }
template <> std::optional<std::string> plain<std::string>(const Value& v) { if (v.type() == Type::String) return v.get<rsp::StringType>(); return {}; }
template <> std::optional<bool> plain<bool>(const Value& v) { if (v.type() == Type::Boolean) return v.get<rsp::BooleanType>(); return {}; }
template <> std::optional<Value> plain<Value>(const Value& v) { return Value(v); }
template <> std::optional<std::vector<uint8_t>> plain<std::vector<uint8_t>>(const Value& v) { if (v.type() == Type::String) return ref64(v.get<rsp::StringType>()); return {}; }
static const Value* member(const Value& m, const std::string& n) { for (auto& e : m.get<rsp::MapType>()) if (e.first == n) return &e.second; return nullptr; }
template <> std::optional<Odd> plain<Odd>(const Value& v)
{
	if (v.type() == Type::Int) return Odd { v.get<rsp::IntType>() };
	if (v.type() != Type::Map) return {};
	auto* a = member(v, "inner"); if (!a || a->type() != Type::Int) return {};
	Odd o { a->get<rsp::IntType>() };
	auto* m = member(v, "more"); if (!m || m->type() == Type::Null) return o;
	if (m->type() != Type::List) return {};
	for (auto& e : m->get<rsp::ListType>()) { if (e.type() != Type::Int) return {}; o.v = o.v * 31 + e.get<rsp::IntType>(); }
	return o;
}
template <class T, TypeModifier... M> struct Ref;
template <class T> struct Ref<T> { using type = T; static std::optional<type> want(const Value* v) { if (!v) return {}; return plain<T>(*v); } };
template <class T> struct Ref<T, TypeModifier::None> : Ref<T> {};
template <class T, TypeModifier... M> struct Ref<T, TypeModifier::Nullable, M...>
{
	using inner = Ref<T, M...>; using type = std::optional<typename inner::type>;
	static std::optional<type> want(const Value* v) { if (!v || v->type() == Type::Null) return type {}; auto x = inner::want(v); if (!x) return {}; return type { std::move(*x) }; }
};
template <class T, TypeModifier... M> struct Ref<T, TypeModifier::List, M...>
{
	using inner = Ref<T, M...>; using type = std::vector<typename inner::type>;
	static std::optional<type> want(const Value* v) { if (!v || v->type() != Type::List) return {}; type r; for (auto& e : v->get<rsp::ListType>()) { auto x = inner::want(&e); if (!x) return {}; r.push_back(std::move(*x)); } return r; }
};

static std::string names(const char* t, std::initializer_list<TypeModifier> ms) { std::string s = std::string(t) + "<"; for (auto m : ms) s += m == TypeModifier::None ? "None " : m == TypeModifier::Nullable ? "Nullable " : "List "; return s + ">"; }
template <class T, TypeModifier... M> void probe(const char* t, const std::string& name, const Value& args)
{
	using R = Ref<T, M...>;
	auto want = R::want(member(args, name));
	std::string ctx = names(t, { M... }) + " argument " + show(name) + " of " + dump(args) + ": ";
	auto read = [&] { if constexpr (sizeof...(M) == 0) return ModifiedArgument<T>::require(name, args); else return ModifiedArgument<T>::template require<M...>(name, args); };
	auto look = [&] { if constexpr (sizeof...(M) == 0) return ModifiedArgument<T>::find(name, args); else return ModifiedArgument<T>::template find<M...>(name, args); };
	try
	{
		auto got = read();
		check(bool(want), ctx + "accepted, but it should be refused");
		check(got == *want, ctx + "converted to something else");
	}
	catch (service::schema_exception& ex)
	{
		auto es = ex.getStructuredErrors();
		check(!want, ctx + "refused with " + (es.empty() ? "" : show(es.front().message)) + ", but it is of the declared type");
		check(!es.empty(), ctx + "refused without an error");
		for (auto& e : es) check(e.message.find(name) != e.message.npos && !e.message.empty(), ctx + "error " + show(e.message) + " does not name the argument");
		if constexpr (std::is_same_v<T, Odd> && sizeof...(M) == 0)
			if (auto* v = member(args, name); v && v->type() == Type::Boolean) check(es.size() == 2 && es.front().message.find("first") != std::string::npos && es.back().message.find("second") != std::string::npos && es.front().location.line == 3 && es.front().location.column == 4, ctx + "the errors of the conversion are lost or mixed up");
	}
	catch (const std::exception& ex) { fail(ctx + "refused with an exception that does not name the argument: " + ex.what()); }
	auto found = look();
	check(found.second == bool(want), ctx + "find says " + (found.second ? "found" : "not found"));
	if (want) check(found.first == *want, ctx + "find converted it to something else");
}
template <class T> void every(const char* t, const std::string& n, const Value& a)
{
	constexpr auto O = TypeModifier::None, N = TypeModifier::Nullable, L = TypeModifier::List;
	probe<T>(t, n, a); probe<T, O>(t, n, a); probe<T, N>(t, n, a); probe<T, L>(t, n, a); probe<T, L, N>(t, n, a); probe<T, N, L>(t, n, a); probe<T, L, L>(t, n, a); probe<T, N, L, N>(t, n, a); probe<T, L, N, L>(t, n, a);
}
static Value argument(Rng& r, int kind, int depth)
{
	if (depth > 0 && r.coin(45)) { Value l(Type::List); for (int n = int(r.below(5)); n > 0; --n) l.emplace_back(argument(r, kind, depth - 1)); return l; }
	if (r.coin(12)) return Value();
	if (r.coin(8)) { GenOpts o; return genValue(r, 1, o); }
	switch (kind)
	{
		case 0: return Value(rsp::IntType(someInt(r)));
		case 1: return r.coin() ? Value(rsp::FloatType(someDouble(r))) : Value(rsp::IntType(someInt(r)));
		case 2: return Value(text(r));
		case 3: return Value(r.coin());
		case 4: { static const std::vector<std::string> b { "", "AA==", "AAA=", "AAAA", "/+8=", "AQIDBA==", "A", "AA=A", "AB==", "AAB=", "====", "!!!!", "//79", "AAAA====" }; return Value(std::string(r.pick(b))); }
		case 5: { Value m(Type::Map); if (r.coin(90)) m.emplace_back("inner", r.coin(90) ? Value(rsp::IntType(int(r.below(100)))) : Value(true)); if (r.coin()) m.emplace_back("more", argument(r, 0, 1)); return r.coin() ? std::move(m) : r.coin(90) ? Value(rsp::IntType(someInt(r))) : r.coin() ? Value(true) : Value("text"); }
		default: { GenOpts o; return genValue(r, 2, o); }
	}
}
static void arguments(Rng& r)
{
	static const std::vector<std::string> ns { "value", "v", "first", "a_longer_argument_name_than_fits_inline", "x" };
	std::string name = r.pick(ns);
	int kind = int(r.below(7));
	Value args(Type::Map);
	for (int n = int(r.below(3)); n > 0; --n) args.emplace_back(std::string(r.pick(ns)), argument(r, int(r.below(7)), 2));
	if (r.coin(85)) args.emplace_back(std::string(name), argument(r, kind, 2));
	switch (kind)
	{
		case 0: every<int>("Int", name, args); break;
		case 1: every<double>("Float", name, args); break;
		case 2: every<std::string>("String", name, args); break;
		case 3: every<bool>("Boolean", name, args); break;
		case 4: every<std::vector<uint8_t>>("ID", name, args); break;
		case 5: every<Odd>("Odd", name, args); break;
		default: every<Value>("Value", name, args);
	}
}
int main(int argc, char** argv)
{
	return run(argc, argv, { { "arguments", [] {}, arguments } });
}
