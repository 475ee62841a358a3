// A hand-written service over the real executor, random requests, and an independent reference executor.
// The requests come from the generator's own structures (never from the library's parser), and what a request
// must produce is computed from those structures alone.
#pragma once
#include "common.h"
#include "valgen.h"
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include <map>
#include <mutex>
#include <set>
namespace svc {
using namespace replay;
namespace service = graphql::service;
namespace peg = graphql::peg;
namespace schema = graphql::schema;

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t mix(uint64_t h, std::string_view s) { for (unsigned char c : s) h = mix(h, c); return h; }

// ---------------------------------------------------------------- literals
struct Lit
{
	enum K { Var, Int, Float, Str, Bool, Null, Enum, List, Obj } k = Null;
	std::string s;                                     // Var/Enum name, Str content
	long long i = 0;
	double f = 0;
	bool b = false;
	std::vector<std::pair<std::string, Lit>> c;        // children (names empty in lists)
};
struct Undefined { std::string name; };
using Vars = std::map<std::string, Value>;

inline Value eval(const Lit& l, const Vars& v)
{
	switch (l.k)
	{
		case Lit::Var: { auto it = v.find(l.s); if (it == v.end()) throw Undefined { l.s }; return Value(it->second); }
		case Lit::Int: if (l.i < -2147483648LL || l.i > 2147483647LL) return Value(double(l.i)); return Value(rsp::IntType(l.i));
		case Lit::Float: return Value(l.f);
		case Lit::Str: return Value(std::string(l.s));
		case Lit::Bool: return Value(l.b);
		case Lit::Null: return Value();
		case Lit::Enum: { Value r(Type::EnumValue); r.set<rsp::StringType>(std::string(l.s)); return r; }
		case Lit::List: { Value r(Type::List); for (auto& e : l.c) r.emplace_back(eval(e.second, v)); return r; }
		case Lit::Obj: { Value r(Type::Map); for (auto& e : l.c) r.emplace_back(std::string(e.first), eval(e.second, v)); return r; }
	}
	return {};
}
inline Lit genLit(Rng& r, int depth, const std::vector<std::string>& vars, bool allowVar = true)
{
	Lit l;
	switch (r.below(depth > 0 ? 14 : 10))
	{
		case 0: case 1: if (allowVar && !vars.empty()) { l.k = Lit::Var; l.s = r.pick(vars); } else { l.k = Lit::Int; l.i = 7; } break;
		case 2: case 3: l.k = Lit::Int; l.i = r.coin(5) ? (r.coin() ? 2147483648LL + int64_t(r.below(99999999999ull)) : -2147483649LL - int64_t(r.below(99999999999ull))) : someInt(r); break;
		case 4: l.k = Lit::Float; { static const std::vector<double> fs { 0.5, -1.25, 1e10, 3.0, 6.02e23, 0.1, -2.5e-3 }; l.f = r.pick(fs); } break;
		case 5: case 6:
		{
			l.k = Lit::Str;
			static const std::vector<std::string> ss { "", "a", "hello world", "q\"uote", "back\\slash", "new\nline\ttab", "\xc3\xa9", "null", "$v0", "{}", "e\x01", "long text with many words in it" };
			l.s = r.pick(ss); break;
		}
		case 7: l.k = Lit::Bool; l.b = r.coin(); break;
		case 8: l.k = Lit::Null; break;
		case 9: { l.k = Lit::Enum; static const std::vector<std::string> es { "RED", "GREEN", "x", "nullX", "trueish" }; l.s = r.pick(es); break; }
		case 10: case 11: l.k = Lit::List; for (int n = int(r.below(4)); n > 0; --n) l.c.emplace_back("", genLit(r, depth - 1, vars, allowVar)); break;
		default:
		{
			l.k = Lit::Obj;
			static const std::vector<std::string> ns { "a", "b", "cc", "name", "id", "zzz" };
			std::set<std::string> seen;
			for (int n = int(r.below(4)); n > 0; --n) { auto nm = r.pick(ns); if (seen.insert(nm).second) l.c.emplace_back(nm, genLit(r, depth - 1, vars, allowVar)); }
		}
	}
	return l;
}

// ---------------------------------------------------------------- requests
struct Arg { std::string name; Lit v; };
struct Dir { std::string name; std::vector<Arg> args; };
struct Sel
{
	enum K { Field, Spread, Inline } k = Field;
	std::string alias, name, cond;
	std::vector<Arg> args;
	std::vector<Dir> dirs;
	std::vector<Sel> sub;
	bool hasSub = false;
	mutable size_t line = 0, col = 0;
};
struct Frag { std::string name, cond; std::vector<Dir> dirs; std::vector<Sel> sub; };
struct VarDef { std::string name; bool hasDefault = false; Lit def; std::string type = "Any"; };
struct Op { std::string type = "query", name; std::vector<VarDef> vars; std::vector<Dir> dirs; std::vector<Sel> sub; bool shorthand = false; };
struct Doc { std::vector<Op> ops; std::vector<Frag> frags; bool fragsFirst = false; };

struct Printer
{
	std::string t;
	size_t line = 1, col = 1;
	void put(std::string_view s) { for (char c : s) { t += c; if (c == '\n') { ++line; col = 1; } else ++col; } }
	void lit(const Lit& l)
	{
		char b[40];
		switch (l.k)
		{
			case Lit::Var: put("$" + l.s); break;
			case Lit::Int: put(std::to_string(l.i)); break;
			case Lit::Float: snprintf(b, sizeof b, "%.17g", l.f); { std::string s = b; if (s.find_first_of(".e") == s.npos) s += ".0"; put(s); } break;
			case Lit::Str:
			{
				std::string s = "\"";
				for (unsigned char c : l.s)
				{
					if (c == '"' || c == '\\') { s += '\\'; s += char(c); }
					else if (c == '\n') s += "\\n";
					else if (c == '\t') s += "\\t";
					else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); s += b; }
					else s += char(c);
				}
				put(s + "\""); break;
			}
			case Lit::Bool: put(l.b ? "true" : "false"); break;
			case Lit::Null: put("null"); break;
			case Lit::Enum: put(l.s); break;
			case Lit::List: { put("["); bool first = true; for (auto& e : l.c) { if (!first) put(", "); first = false; lit(e.second); } put("]"); break; }
			case Lit::Obj: { put("{"); bool first = true; for (auto& e : l.c) { if (!first) put(" "); first = false; put(e.first + ": "); lit(e.second); } put("}"); break; }
		}
	}
	void args(const std::vector<Arg>& a) { if (a.empty()) return; put("("); bool first = true; for (auto& x : a) { if (!first) put(", "); first = false; put(x.name + ": "); lit(x.v); } put(")"); }
	void dirs(const std::vector<Dir>& d) { for (auto& x : d) { put(" @" + x.name); args(x.args); } }
	void sels(const std::vector<Sel>& v, int ind)
	{
		put("{\n");
		for (auto& s : v)
		{
			put(std::string(size_t(ind + 1), ' '));
			s.line = line; s.col = col;
			if (s.k == Sel::Field) { if (!s.alias.empty()) put(s.alias + ": "); put(s.name); args(s.args); dirs(s.dirs); if (s.hasSub) { put(" "); sels(s.sub, ind + 1); } }
			else if (s.k == Sel::Spread) { put("..." + s.name); dirs(s.dirs); }
			else { put("..."); if (!s.cond.empty()) put(" on " + s.cond); dirs(s.dirs); put(" "); sels(s.sub, ind + 1); }
			put("\n");
		}
		put(std::string(size_t(ind), ' ') + "}");
	}
	void frags(const Doc& d) { for (auto& f : d.frags) { put("fragment " + f.name + " on " + f.cond); dirs(f.dirs); put(" "); sels(f.sub, 0); put("\n"); } }
	void doc(const Doc& d)
	{
		if (d.fragsFirst) frags(d);
		for (auto& o : d.ops)
		{
			if (!o.shorthand)
			{
				put(o.type); if (!o.name.empty()) put(" " + o.name);
				if (!o.vars.empty()) { put("("); bool first = true; for (auto& v : o.vars) { if (!first) put(", "); first = false; put("$" + v.name + ": " + v.type); if (v.hasDefault) { put(" = "); lit(v.def); } } put(")"); }
				dirs(o.dirs); put(" ");
			}
			sels(o.sub, 0); put("\n");
		}
		if (!d.fragsFirst) frags(d);
	}
};

// ---------------------------------------------------------------- the data behind the service
// Everything a resolver answers is a function of (object id, field name).
struct Out
{
	enum K { Value_, Null, Schema, Std } k = Value_;
	bool future = false;
	int errors = 1;             // Schema: how many messages
	bool withLocation = false, withPath = false;
	uint64_t h = 0;
};
struct World
{
	uint64_t seed = 1;
	int failPct = 12, futurePct = 25, nullPct = 15;
	Out out(uint64_t id, std::string_view field, bool nullable) const
	{
		Out o; uint64_t h = mix(mix(mix(seed, 77), id), field); o.h = h;
		o.future = int((h >> 8) % 100) < futurePct;
		if (int((h >> 16) % 100) < failPct) { o.k = (h >> 30) & 1 ? Out::Schema : Out::Std; o.errors = (h >> 44) % 8 == 0 ? 0 : 1 + int((h >> 32) % 3 == 0); o.withLocation = (h >> 34) % 4 == 0; o.withPath = (h >> 36) % 4 == 0; }
		else if (nullable && int((h >> 40) % 100) < nullPct) o.k = Out::Null;
		return o;
	}
	static std::string token(uint64_t id, std::string_view field, int i) { char b[80]; snprintf(b, sizeof b, "E%016llx_%d", (unsigned long long)mix(mix(5, id), field), i); return b; }
	static uint64_t child(uint64_t h, size_t i) { return mix(mix(h, 1234567), uint64_t(i)); }
	static std::string typeOf(uint64_t id) { return id == 1 ? "Q" : id == 2 ? "M" : id == 3 ? "S" : (id & 16 ? "A" : "B"); }
	static const std::set<std::string>& typeNames(const std::string& t)
	{
		static const std::map<std::string, std::set<std::string>> m { { "Q", { "Q", "Iface" } }, { "M", { "M" } }, { "S", { "S" } }, { "A", { "A", "Iface", "Either" } }, { "B", { "B", "Either", "Longer__Interface" } } };
		return m.at(t);
	}
};
struct Call { uint64_t id; std::string response, field; Value args, fdirs, odirs, fragdirs, sprdirs, inldirs; service::ResolverContext ctx; std::launch launch = std::launch::deferred; };
struct Log { std::mutex m; std::vector<Call> calls; };

inline Value vInt(uint64_t h) { return Value(rsp::IntType(int32_t(uint32_t(h >> 7)))); }

class Obj;
struct Ctx { World w; Log* log = nullptr; bool refuse = false; };
std::shared_ptr<service::Object> make(const std::shared_ptr<Ctx>& c, uint64_t id);

inline void raise(const Out& o, uint64_t id, const std::string& field)
{
	if (o.k == Out::Std) throw std::runtime_error(World::token(id, field, 0));
	std::list<service::schema_error> e;
	for (int i = 0; i < o.errors; ++i)
	{
		service::schema_error x { World::token(id, field, i) };
		if (o.withLocation) x.location = { 900 + size_t(i), 7 };
		if (o.withPath) x.path = { std::string_view { "given" }, size_t(3) };
		e.push_back(std::move(x));
	}
	throw service::schema_exception(std::move(e));
}
template <class T, class F>
service::FieldResult<T> answer(const Out& o, uint64_t id, std::string field, std::launch launch, F f)
{
	if (o.future)
		return std::async(launch, [o, id, field, f]() -> T { if (o.k == Out::Schema || o.k == Out::Std) raise(o, id, field); return f(); });
	if (o.k == Out::Schema || o.k == Out::Std) raise(o, id, field);
	return f();
}

class Obj : public service::Object
{
public:
	Obj(const std::shared_ptr<Ctx>& c, uint64_t id)
		: service::Object(names(id), resolvers()), _c(c), _id(id)
	{
	}
	// an object may refuse to be told about subscriptions
	void beginSelectionSet(const service::SelectionSetParams& p) const override
	{
		if (!_c->refuse || (p.resolverContext != service::ResolverContext::NotifySubscribe && p.resolverContext != service::ResolverContext::NotifyUnsubscribe)) return;
		if (_c->w.seed & 1) throw service::schema_exception { { "refused" } };
		throw std::runtime_error("refused");
	}
private:
	std::shared_ptr<Ctx> _c;
	uint64_t _id;
	static service::TypeNames names(uint64_t id)
	{
		static std::map<std::string, std::vector<std::string>> keep;
		service::TypeNames r;
		for (auto& n : World::typeNames(World::typeOf(id))) r.emplace(std::string_view { n });
		return r;
	}
	std::future<service::ResolverResult> go(const char* field, service::ResolverParams&& p);
	service::ResolverMap resolvers()
	{
		service::ResolverMap m;
		static const char* fs[] = { "i", "ir", "s", "f", "b", "id", "sc", "li", "lis", "lb", "o", "on", "oo", "oon", "ooo", "echo", "__typename", "aLongFieldName" };
		for (auto f : fs) m.emplace(std::string_view { f }, service::Resolver([this, f](service::ResolverParams&& p) { return go(f, std::move(p)); }));
		return m;
	}
};
inline std::shared_ptr<service::Object> make(const std::shared_ptr<Ctx>& c, uint64_t id) { return std::make_shared<Obj>(c, id); }

inline std::future<service::ResolverResult> Obj::go(const char* field, service::ResolverParams&& p)
{
	using M = service::TypeModifier;
	using service::ModifiedResult;
	const std::string f = field;
	if (_c->log)
	{
		std::lock_guard<std::mutex> l(_c->log->m);
		_c->log->calls.push_back(Call { _id, p.fieldName, f, Value(p.arguments), Value(p.fieldDirectives), Value(p.operationDirectives), Value(p.fragmentDefinitionDirectives), Value(p.fragmentSpreadDirectives), Value(p.inlineFragmentDirectives), p.resolverContext, p.launch });
	}
	const bool nullable = !(f == "ir" || f == "lb" || f == "oon" || f == "on" || f == "echo" || f == "__typename");
	const Out o = _c->w.out(_id, f, nullable);
	const auto launch = p.launch;
	const uint64_t h = o.h, id = _id;
	const bool null = o.k == Out::Null;
	auto c = _c;
	if (f == "__typename") return ModifiedResult<rsp::StringType>::convert(rsp::StringType(World::typeOf(_id)), std::move(p));
	if (f == "echo")
	{
		Value a(p.arguments);
		return ModifiedResult<Value>::convert(service::FieldResult<Value>(std::move(a)), std::move(p));
	}
	if (f == "i" || f == "aLongFieldName") return ModifiedResult<rsp::IntType>::convert<M::Nullable>(answer<std::optional<rsp::IntType>>(o, id, f, launch, [=] { return null ? std::optional<rsp::IntType> {} : std::optional<rsp::IntType> { int32_t(uint32_t(h >> 7)) }; }), std::move(p));
	if (f == "ir") return ModifiedResult<rsp::IntType>::convert(answer<rsp::IntType>(o, id, f, launch, [=] { return rsp::IntType(int32_t(uint32_t(h >> 7))); }), std::move(p));
	if (f == "s") return ModifiedResult<rsp::StringType>::convert<M::Nullable>(answer<std::optional<rsp::StringType>>(o, id, f, launch, [=] { return null ? std::optional<rsp::StringType> {} : std::optional<rsp::StringType> { "s" + std::to_string(h) }; }), std::move(p));
	if (f == "id") return ModifiedResult<rsp::IdType>::convert<M::Nullable>(answer<std::optional<rsp::IdType>>(o, id, f, launch, [=] { return null ? std::optional<rsp::IdType> {} : std::optional<rsp::IdType> { rsp::IdType { uint8_t(h), 0, uint8_t(h >> 9) } }; }), std::move(p));
	if (f == "f") return ModifiedResult<rsp::FloatType>::convert<M::Nullable>(answer<std::optional<rsp::FloatType>>(o, id, f, launch, [=] { return null ? std::optional<rsp::FloatType> {} : std::optional<rsp::FloatType> { double(h >> 11) / 8 }; }), std::move(p));
	if (f == "b") return ModifiedResult<rsp::BooleanType>::convert<M::Nullable>(answer<std::optional<rsp::BooleanType>>(o, id, f, launch, [=] { return null ? std::optional<rsp::BooleanType> {} : std::optional<rsp::BooleanType> { bool(h & 64) }; }), std::move(p));
	if (f == "sc") return ModifiedResult<Value>::convert<M::Nullable>(answer<std::optional<Value>>(o, id, f, launch, [=] { return null ? std::optional<Value> {} : std::optional<Value> { vInt(h) }; }), std::move(p));
	if (f == "li") return ModifiedResult<rsp::IntType>::convert<M::Nullable, M::List, M::Nullable>(answer<std::optional<std::vector<std::optional<rsp::IntType>>>>(o, id, f, launch, [=] {
		std::optional<std::vector<std::optional<rsp::IntType>>> r; if (null) return r; r.emplace();
		for (size_t i = 0; i < (h >> 50) % 5; ++i) r->push_back((World::child(h, i) >> 5) % 4 == 0 ? std::optional<rsp::IntType> {} : std::optional<rsp::IntType> { int32_t(uint32_t(World::child(h, i) >> 7)) });
		return r; }), std::move(p));
	if (f == "lis") return ModifiedResult<rsp::IntType>::convert<M::Nullable, M::List, M::Nullable, M::List>(answer<std::optional<std::vector<std::optional<std::vector<rsp::IntType>>>>>(o, id, f, launch, [=] {
		std::optional<std::vector<std::optional<std::vector<rsp::IntType>>>> r; if (null) return r; r.emplace();
		for (size_t i = 0; i < (h >> 50) % 4; ++i) { uint64_t g = World::child(h, i); if ((g >> 5) % 4 == 0) { r->emplace_back(); continue; } r->emplace_back(std::vector<rsp::IntType> {}); for (size_t j = 0; j < (g >> 50) % 4; ++j) r->back()->push_back(int32_t(uint32_t(World::child(g, j) >> 7))); }
		return r; }), std::move(p));
	if (f == "lb") return ModifiedResult<rsp::BooleanType>::convert<M::List>(answer<std::vector<bool>>(o, id, f, launch, [=] { std::vector<bool> r; for (size_t i = 0; i < (h >> 50) % 5; ++i) r.push_back((World::child(h, i) >> 7) & 1); return r; }), std::move(p));
	using P = std::shared_ptr<service::Object>;
	if (f == "o") return ModifiedResult<service::Object>::convert<M::Nullable>(answer<P>(o, id, f, launch, [=]() -> P { return null ? P {} : make(c, World::child(h, 0)); }), std::move(p));
	if (f == "on") return ModifiedResult<service::Object>::convert(answer<P>(o, id, f, launch, [=]() -> P { return make(c, World::child(h, 0)); }), std::move(p));
	if (f == "oo") return ModifiedResult<service::Object>::convert<M::Nullable, M::List, M::Nullable>(answer<std::optional<std::vector<P>>>(o, id, f, launch, [=] {
		std::optional<std::vector<P>> r; if (null) return r; r.emplace();
		for (size_t i = 0; i < (h >> 50) % 4; ++i) r->push_back((World::child(h, i) >> 5) % 4 == 0 ? P {} : make(c, World::child(h, i)));
		return r; }), std::move(p));
	if (f == "oon") return ModifiedResult<service::Object>::convert<M::List>(answer<std::vector<P>>(o, id, f, launch, [=] { std::vector<P> r; for (size_t i = 0; i < (h >> 50) % 4; ++i) r.push_back(make(c, World::child(h, i))); return r; }), std::move(p));
	// ooo
	return ModifiedResult<service::Object>::convert<M::Nullable, M::List, M::Nullable, M::List, M::Nullable>(answer<std::optional<std::vector<std::optional<std::vector<P>>>>>(o, id, f, launch, [=] {
		std::optional<std::vector<std::optional<std::vector<P>>>> r; if (null) return r; r.emplace();
		for (size_t i = 0; i < (h >> 50) % 3; ++i) { uint64_t g = World::child(h, i); if ((g >> 5) % 4 == 0) { r->emplace_back(); continue; } r->emplace_back(std::vector<P> {}); for (size_t j = 0; j < (g >> 50) % 3; ++j) r->back()->push_back((World::child(g, j) >> 5) % 4 == 0 ? P {} : make(c, World::child(g, j))); }
		return r; }), std::move(p));
}

class Svc : public service::Request
{
public:
	Svc(const std::shared_ptr<Ctx>& c, const std::shared_ptr<schema::Schema>& s, bool sub = true, bool mut = true)
		: service::Request(ops(c, sub, mut), s) {}
private:
	static service::TypeMap ops(const std::shared_ptr<Ctx>& c, bool sub, bool mut)
	{
		service::TypeMap m;
		m.emplace("query", make(c, 1));
		if (mut) m.emplace("mutation", make(c, 2));
		if (sub) m.emplace("subscription", make(c, 3));
		return m;
	}
};

// ---------------------------------------------------------------- reference executor
struct Seg { bool idx; std::string n; size_t i; };
using Path = std::vector<Seg>;
struct Err
{
	std::string text;             // must be contained in the message
	bool exact = false;           // message equals text
	std::optional<std::pair<size_t, size_t>> loc; bool needLoc = false;
	std::vector<Path> paths; bool needPath = false;          // acceptable paths
};
struct Res { Value data; std::vector<Err> errs; };
struct Abort { std::vector<Err> errs; };      // an exception leaving an object's selection set
struct DirInfo { Value fd { Type::Map }, fs { Type::Map }, in { Type::Map }; };

inline bool isLeaf(const std::string& f) { static const std::set<std::string> s { "i", "ir", "s", "f", "b", "id", "sc", "li", "lis", "lb", "echo", "__typename", "aLongFieldName" }; return s.count(f) > 0; }
inline bool isField(const std::string& f) { return isLeaf(f) || f == "o" || f == "on" || f == "oo" || f == "oon" || f == "ooo"; }

struct Model
{
	const Doc& doc; const Op& op; World w; Vars vars;       // vars of the operation
	Vars raw;                                               // supplied variables (fragment definition directives)
	std::vector<Call> calls;
	Value opDirs { Type::Map };
	std::map<std::string, Value> fragDirs;
	bool keepCalls = true, aborted = false;
	service::ResolverContext ctx = service::ResolverContext::Query;

	Model(const Doc& d, const Op& o, const World& ww) : doc(d), op(o), w(ww) {}

	static Abort undefined(const Undefined& u) { Err e; e.text = "Unknown variable name: " + u.name; return Abort { { e } }; }
	static Value dirs(const std::vector<Dir>& ds, const Vars& v)
	{
		Value r(Type::Map);
		for (auto& d : ds) r.emplace_back(std::string(d.name), args(d.args, v));
		return r;
	}
	static Value args(const std::vector<Arg>& as, const Vars& v)
	{
		Value r(Type::Map);
		try { for (auto& a : as) r.emplace_back(std::string(a.name), eval(a.v, v)); }
		catch (const Undefined& u) { throw undefined(u); }
		return r;
	}
	static bool skipped(const std::vector<Dir>& ds, const Vars& v)
	{
		(void)dirs(ds, v);          // undefined variables anywhere are errors
		bool skip = false;
		for (auto nm : { "skip", "include" })
			for (auto& d : ds) if (d.name == nm)
			{
				Value a = args(d.args, v);
				bool ok = a.size() == 1 && a.get<rsp::MapType>()[0].first == "if" && a.get<rsp::MapType>()[0].second.type() == Type::Boolean;
				if (!ok) { if (skip) return true; Err e; e.text = nm; throw Abort { { e } }; }
				bool c = a.get<rsp::MapType>()[0].second.get<rsp::BooleanType>();
				if (c == (std::string(nm) == "skip")) skip = true;
				break;
			}
		return skip;
	}
	static Value merged(Value in, const Value& outer)
	{
		for (auto& e : outer.get<rsp::MapType>()) if (in.find(e.first) == in.get<rsp::MapType>().end()) in.emplace_back(std::string(e.first), Value(e.second));
		return in;
	}
	struct Item { const Sel* s; std::string response; std::optional<Call> call; std::optional<Res> pre; };
	void collect(const std::vector<Sel>& sels, uint64_t id, const Path& path, std::set<std::string>& seen, const DirInfo& di, std::vector<std::pair<std::string, Res>>& out, int depth)
	{
		const auto& tn = World::typeNames(World::typeOf(id));
		for (auto& s : sels)
		{
			if (s.k == Sel::Field)
			{
				std::string rn = s.alias.empty() ? s.name : s.alias;
				if (skipped(s.dirs, vars)) continue;
				if (seen.count(rn)) continue;
				seen.insert(rn);
				Path here = path; here.push_back({ false, rn, 0 });
				if (!isField(s.name))
				{
					Err e; e.text = "Unknown field name: " + s.name; e.loc = { s.line, s.col }; e.needLoc = true; e.paths = { path, here };
					out.emplace_back(rn, Res { Value(), { e } });
					continue;
				}
				Value a = args(s.args, vars);
				if (keepCalls) calls.push_back(Call { id, rn, s.name, Value(a), dirs(s.dirs, vars), Value(opDirs), Value(di.fd), Value(di.fs), Value(di.in), ctx, std::launch::deferred });
				out.emplace_back(rn, field(s, id, std::move(a), here));
			}
			else if (s.k == Sel::Spread)
			{
				const Frag* f = nullptr;
				for (auto& x : doc.frags) if (x.name == s.name) { f = &x; break; }
				if (!f) { Err e; e.text = "Unknown fragment name: " + s.name; e.loc = { s.line, s.col }; e.needLoc = true; e.paths = { path }; throw Abort { { e } }; }
				if (!tn.count(f->cond) || skipped(s.dirs, vars)) continue;
				DirInfo d2 = di;
				d2.fs = merged(dirs(s.dirs, vars), di.fs);
				d2.fd = merged(Value(fragDirs.at(f->name)), di.fd);
				collect(f->sub, id, path, seen, d2, out, depth + 1);
			}
			else
			{
				if (skipped(s.dirs, vars)) continue;
				if (!s.cond.empty() && !tn.count(s.cond)) continue;
				DirInfo d2 = di;
				d2.in = merged(dirs(s.dirs, vars), di.in);
				collect(s.sub, id, path, seen, d2, out, depth + 1);
			}
		}
	}
	Res object(const std::vector<Sel>& sels, uint64_t id, const Path& path)
	{
		std::set<std::string> seen;
		std::vector<std::pair<std::string, Res>> items;
		collect(sels, id, path, seen, DirInfo {}, items, 0);
		Res r { Value(Type::Map), {} };
		for (auto& it : items)
		{
			r.data.emplace_back(std::string(it.first), std::move(it.second.data));
			for (auto& e : it.second.errs) r.errs.push_back(std::move(e));
		}
		return r;
	}
	// a child object: null with the errors when its own selection set fails as a whole
	Res child(const Sel& s, uint64_t id, const Path& here)
	{
		try { return object(s.sub, id, here); }
		catch (Abort& a)
		{
			aborted = true;
			for (auto& e : a.errs) { if (!e.loc) e.loc = { s.line, s.col }; e.paths.push_back(here); Path up = here; while (!up.empty() && up.back().idx) { up.pop_back(); e.paths.push_back(up); } }
			return Res { Value(), std::move(a.errs) };
		}
	}
	Res field(const Sel& s, uint64_t id, Value&& a, const Path& here)
	{
		const std::string& f = s.name;
		const bool nullable = !(f == "ir" || f == "lb" || f == "oon" || f == "on" || f == "echo" || f == "__typename");
		const Out o = w.out(id, f, nullable);
		const uint64_t h = o.h;
		Res r;
		auto fieldErr = [&](std::string text, bool exact, bool sync) { Err e; e.text = std::move(text); e.exact = exact; e.loc = { s.line, s.col }; e.needLoc = sync; e.paths = { here }; e.needPath = sync; return e; };
		if (f != "__typename" && f != "echo" && (o.k == Out::Schema || o.k == Out::Std))
		{
			// the resolver itself fails; when it returned a value it fails inside the call
			const bool leaf = isLeaf(f);
			(void)leaf;
			if (o.future && leafBlocked(s)) { r.errs.push_back(blocked(s, here)); return r; }
			for (int i = 0; i < (o.k == Out::Std ? 1 : o.errors); ++i)
			{
				Err e = fieldErr(World::token(id, f, i), o.k == Out::Schema, !o.future);
				if (o.k == Out::Schema && o.withLocation) { e.loc = { 900 + size_t(i), 7 }; e.needLoc = true; }
				if (o.k == Out::Schema && o.withPath) { e.paths = { Path { { false, "given", 0 }, { true, "", 3 } } }; e.needPath = true; }
				r.errs.push_back(std::move(e));
			}
			return r;
		}
		if (leafBlocked(s) && !(o.k == Out::Null))
		{
			// lists of leaves complain once per element; see noise(); the generator avoids those
			r.errs.push_back(blocked(s, here)); return r;
		}
		if (f == "__typename") { r.data = Value(std::string(World::typeOf(id))); return r; }
		if (f == "echo") { r.data = std::move(a); return r; }
		if (o.k == Out::Null) return r;
		if (f == "i" || f == "ir" || f == "sc" || f == "aLongFieldName") { r.data = vInt(h); return r; }
		if (f == "s") { r.data = Value("s" + std::to_string(h)); return r; }
		if (f == "id") { r.data = Value(b64(uint8_t(h), uint8_t(h >> 9))); return r; }
		if (f == "f") { r.data = Value(double(h >> 11) / 8); return r; }
		if (f == "b") { r.data = Value(bool(h & 64)); return r; }
		if (f == "li") { r.data = Value(Type::List); for (size_t i = 0; i < (h >> 50) % 5; ++i) r.data.emplace_back((World::child(h, i) >> 5) % 4 == 0 ? Value() : vInt(World::child(h, i))); return r; }
		if (f == "lb") { r.data = Value(Type::List); for (size_t i = 0; i < (h >> 50) % 5; ++i) r.data.emplace_back(Value(bool((World::child(h, i) >> 7) & 1))); return r; }
		if (f == "lis")
		{
			r.data = Value(Type::List);
			for (size_t i = 0; i < (h >> 50) % 4; ++i) { uint64_t g = World::child(h, i); if ((g >> 5) % 4 == 0) { r.data.emplace_back(Value()); continue; } Value x(Type::List); for (size_t j = 0; j < (g >> 50) % 4; ++j) x.emplace_back(vInt(World::child(g, j))); r.data.emplace_back(std::move(x)); }
			return r;
		}
		auto add = [&](Value& list, uint64_t cid, Path p) { Res x = child(s, cid, p); list.emplace_back(std::move(x.data)); for (auto& e : x.errs) r.errs.push_back(std::move(e)); };
		if (f == "o" || f == "on") return child(s, World::child(h, 0), here);
		if (f == "oo" || f == "oon")
		{
			r.data = Value(Type::List);
			for (size_t i = 0; i < (h >> 50) % 4; ++i) { Path p = here; p.push_back({ true, "", i }); uint64_t g = World::child(h, i); if (f == "oo" && (g >> 5) % 4 == 0) r.data.emplace_back(Value()); else add(r.data, g, p); }
			return r;
		}
		r.data = Value(Type::List);
		for (size_t i = 0; i < (h >> 50) % 3; ++i)
		{
			uint64_t g = World::child(h, i); if ((g >> 5) % 4 == 0) { r.data.emplace_back(Value()); continue; }
			Value x(Type::List);
			for (size_t j = 0; j < (g >> 50) % 3; ++j) { Path p = here; p.push_back({ true, "", i }); p.push_back({ true, "", j }); uint64_t k = World::child(g, j); if ((k >> 5) % 4 == 0) x.emplace_back(Value()); else add(x, k, p); }
			r.data.emplace_back(std::move(x));
		}
		return r;
	}
	static bool leafBlocked(const Sel& s) { return isLeaf(s.name) && s.hasSub; }
	static Err blocked(const Sel& s, const Path& here) { Err e; e.text = "Field may not have sub-fields name: "; e.paths = { here }; return e; }
	static std::string b64(uint8_t x, uint8_t y)
	{
		static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		uint32_t g = (uint32_t(x) << 16) | y;
		return std::string { t[(g >> 18) & 63], t[(g >> 12) & 63], t[(g >> 6) & 63], t[g & 63] };
	}
	// variables of the operation: supplied, else default, else null
	void bind(const Vars& supplied)
	{
		raw = supplied;
		for (auto& v : op.vars)
		{
			auto it = supplied.find(v.name);
			if (it != supplied.end()) vars[v.name] = Value(it->second);
			else if (v.hasDefault) vars[v.name] = eval(v.def, supplied);
			else vars[v.name] = Value();
		}
	}
	// expected document; nullopt data when everything failed
	Res execute(const Vars& supplied)
	{
		try
		{
			for (auto& f : doc.frags) if (!fragDirs.count(f.name)) fragDirs.emplace(f.name, dirs(f.dirs, supplied));
			try { bind(supplied); } catch (const Undefined& u) { throw undefined(u); }
			opDirs = dirs(op.dirs, vars);
			return object(op.sub, op.type == "query" ? 1 : op.type == "mutation" ? 2 : 3, {});
		}
		catch (Abort& a) { aborted = true; return Res { Value(), std::move(a.errs) }; }
	}
};

// ---------------------------------------------------------------- comparing a response document
inline std::string showPath(const Path& p) { std::string r = "["; for (auto& s : p) r += (s.idx ? std::to_string(s.i) : s.n) + "/"; return r + "]"; }
inline bool samePath(const Value& v, const Path& p)
{
	if (v.type() != Type::List || v.size() != p.size()) return false;
	const auto& l = v.get<rsp::ListType>();
	for (size_t i = 0; i < p.size(); ++i)
	{
		if (p[i].idx) { if (l[i].type() != Type::Int || l[i].get<rsp::IntType>() != int(p[i].i)) return false; }
		else if (l[i].type() != Type::String || l[i].get<rsp::StringType>() != p[i].n) return false;
	}
	return true;
}
inline bool same(const Value& a, const Value& b)
{
	if (a.type() != b.type()) return false;
	if (a.type() == Type::Map)
	{
		auto& x = a.get<rsp::MapType>(); auto& y = b.get<rsp::MapType>();
		if (x.size() != y.size()) return false;
		for (size_t i = 0; i < x.size(); ++i) if (x[i].first != y[i].first || !same(x[i].second, y[i].second)) return false;
		return true;
	}
	if (a.type() == Type::List)
	{
		auto& x = a.get<rsp::ListType>(); auto& y = b.get<rsp::ListType>();
		if (x.size() != y.size()) return false;
		for (size_t i = 0; i < x.size(); ++i) if (!same(x[i], y[i])) return false;
		return true;
	}
	return dump(a) == dump(b);
}
inline void compareErrors(const Value& errs, const std::vector<Err>& want, const std::string& ctx)
{
	check(errs.type() == Type::List, ctx + ": errors is not a list");
	const auto& l = errs.get<rsp::ListType>();
	check(l.size() == want.size(), ctx + ": " + std::to_string(l.size()) + " errors reported, expected " + std::to_string(want.size()) + ": " + dump(errs));
	for (size_t i = 0; i < want.size(); ++i)
	{
		const auto& e = l[i]; const Err& w = want[i];
		std::string c = ctx + ": error " + std::to_string(i) + " " + dump(e) + " expected '" + w.text + "'";
		check(e.type() == Type::Map && e.find("message") != e.end(), c + ": no message");
		auto m = e.find("message")->second.get<rsp::StringType>();
		check(w.exact ? m == w.text : m.find(w.text) != std::string::npos, c + ": other message");
		for (auto& kv : e.get<rsp::MapType>()) check(kv.first == "message" || kv.first == "locations" || kv.first == "path", c + ": extra member");
		auto lo = e.find("locations");
		if (lo == e.end()) check(!w.needLoc, c + ": location lost");
		else
		{
			auto& ll = lo->second;
			check(ll.type() == Type::List && ll.size() == 1, c + ": locations");
			auto line = ll.get<rsp::ListType>()[0]["line"].get<rsp::IntType>(), col = ll.get<rsp::ListType>()[0]["column"].get<rsp::IntType>();
			if (w.loc && (w.needLoc || w.needPath)) check(size_t(line) == w.loc->first && size_t(col) == w.loc->second, c + ": location should be " + std::to_string(w.loc->first) + ":" + std::to_string(w.loc->second));
		}
		auto pa = e.find("path");
		if (pa == e.end()) check(!w.needPath, c + ": path lost");
		else if (!w.paths.empty())
		{
			bool ok = false; std::string all;
			for (auto& p : w.paths) { ok = ok || samePath(pa->second, p); all += showPath(p) + " "; }
			check(ok, c + ": path should be " + all);
		}
	}
}
inline void compareDoc(const Value& doc, const Res& want, const std::string& ctx, bool data = true, bool errors = true)
{
	check(doc.type() == Type::Map && doc.find("data") != doc.end(), ctx + ": no data member in " + dump(doc));
	for (auto& kv : doc.get<rsp::MapType>()) check(kv.first == "data" || kv.first == "errors", ctx + ": extra member " + kv.first);
	if (data) check(same(doc["data"], want.data), ctx + ": data " + dump(doc["data"]) + " expected " + dump(want.data));
	if (!errors) return;
	if (want.errs.empty()) { check(doc.find("errors") == doc.end(), ctx + ": unexpected errors " + dump(doc)); return; }
	check(doc.find("errors") != doc.end(), ctx + ": errors missing: expected '" + want.errs[0].text + "' in " + dump(doc));
	compareErrors(doc["errors"], want.errs, ctx);
}
inline std::string showCall(const Call& c) { return "object " + std::to_string(c.id) + " " + c.response + "=" + c.field + dump(c.args); }
inline bool sameCall(const Call& a, const Call& b)
{
	return a.id == b.id && a.response == b.response && a.field == b.field && same(a.args, b.args) && same(a.fdirs, b.fdirs) && same(a.odirs, b.odirs) && same(a.fragdirs, b.fragdirs) && same(a.sprdirs, b.sprdirs) && same(a.inldirs, b.inldirs) && a.ctx == b.ctx;
}
// per object: the calls in order (objects may be entered in another order with futures; the same object id may be reached twice)
inline void compareCalls(const std::vector<Call>& got, const std::vector<Call>& want, const std::string& ctx)
{
	std::map<uint64_t, std::vector<const Call*>> g, w;
	for (auto& c : got) g[c.id].push_back(&c);
	for (auto& c : want) w[c.id].push_back(&c);
	for (auto& e : w)
	{
		auto& x = g[e.first];
		for (size_t i = 0; i < e.second.size(); ++i)
		{
			check(i < x.size(), ctx + ": resolver not called: " + showCall(*e.second[i]));
			check(sameCall(*x[i], *e.second[i]), ctx + ": resolver called as " + showCall(*x[i]) + " dirs " + dump(x[i]->fdirs) + dump(x[i]->odirs) + dump(x[i]->fragdirs) + dump(x[i]->sprdirs) + dump(x[i]->inldirs) + " expected " + showCall(*e.second[i]) + " dirs " + dump(e.second[i]->fdirs) + dump(e.second[i]->odirs) + dump(e.second[i]->fragdirs) + dump(e.second[i]->sprdirs) + dump(e.second[i]->inldirs));
		}
		check(x.size() == e.second.size(), ctx + ": extra resolver call: " + (x.size() > e.second.size() ? showCall(*x[e.second.size()]) : ""));
	}
	for (auto& e : g) check(e.second.empty() || w.count(e.first), ctx + ": resolver called on an object that was not selected: " + showCall(*e.second[0]));
}

// ---------------------------------------------------------------- random requests
struct Gen
{
	Rng& r;
	bool unknownFields = true, badDirectives = true, lits = true, unknownVars = false, argsEverywhere = true, unknownFrags = false;
	std::vector<std::string> vars;        // names usable in literals
	std::vector<std::string> bvars;       // boolean variables
	std::vector<std::string> fragNames;
	explicit Gen(Rng& rr) : r(rr) {}

	Lit boolLit() { Lit l; if (!bvars.empty() && r.coin(35)) { l.k = Lit::Var; l.s = r.pick(bvars); } else { l.k = Lit::Bool; l.b = r.coin(); } return l; }
	std::vector<Arg> args(int max)
	{
		static const std::vector<std::string> ns { "a", "b", "arg", "if", "x" };
		std::vector<Arg> v; std::set<std::string> seen;
		for (int n = int(r.below(uint64_t(max) + 1)); n > 0; --n) { auto nm = r.pick(ns); if (seen.insert(nm).second) v.push_back({ nm, genLit(r, 2, vars) }); }
		return v;
	}
	std::vector<Dir> dirs(int pct, bool inclusion = true)
	{
		std::vector<Dir> v; std::set<std::string> seen;
		static const std::vector<std::string> ns { "skip", "include", "skip", "include", "tag", "other", "skipped", "inc" };
		while (r.coin(pct) && v.size() < 4)
		{
			auto nm = r.pick(ns);
			if (!seen.insert(nm).second) continue;
			if (nm == "skip" || nm == "include")
			{
				if (!inclusion) continue;
				Dir d { nm, { { "if", boolLit() } } };
				// mostly conditions that keep the selection, so that requests stay interesting
				if (r.coin(55) && d.args[0].v.k == Lit::Bool) d.args[0].v.b = nm == "include";
				if (badDirectives && r.coin(3))
					switch (r.below(4))
					{
						case 0: d.args.clear(); break;
						case 1: d.args[0].v = Lit {}; d.args[0].v.k = Lit::Int; d.args[0].v.i = 1; break;
						case 2: d.args[0].name = "unless"; break;
						default: { Lit l; l.k = Lit::Bool; l.b = true; d.args.push_back({ "b", l }); }
					}
				v.push_back(d);
			}
			else v.push_back({ nm, args(2) });
		}
		return v;
	}
	std::vector<Sel> sels(int depth)
	{
		static const std::vector<std::string> leaf { "i", "ir", "s", "f", "b", "id", "sc", "li", "lis", "lb", "echo", "echo", "__typename", "aLongFieldName" };
		static const std::vector<std::string> comp { "o", "on", "oo", "oon", "ooo", "oo", "oon" };
		static const std::vector<std::string> al { "x", "y", "first", "aa", "i", "o", "echo" };
		static const std::vector<std::string> conds { "A", "B", "Q", "Iface", "Either", "Longer__Interface", "M", "Nope", "" };
		std::vector<Sel> v;
		for (int n = 1 + int(r.below(5)); n > 0; --n)
		{
			Sel s;
			int k = int(r.below(100));
			if (k < 70 || depth <= 0)
			{
				bool c = depth > 0 && r.coin(45);
				s.name = c ? r.pick(comp) : r.pick(leaf);
				if (unknownFields && r.coin(3)) { s.name = "nothing"; c = false; }
				// aliases of composite fields differ from those of leaves: repeated names stay compatible
				if (r.coin(35)) s.alias = r.pick(al);
				if (lits && (s.name == "echo" ? r.coin(90) : r.coin(argsEverywhere ? 15 : 0))) s.args = args(3);
				s.dirs = dirs(18);
				if (c) { s.hasSub = true; s.sub = sels(depth - 1); }
			}
			else if (k < 85 && !fragNames.empty()) { s.k = Sel::Spread; s.name = r.pick(fragNames); if (unknownFrags && r.coin(5)) s.name = "Missing"; s.dirs = dirs(18); }
			else { s.k = Sel::Inline; s.cond = r.pick(conds); s.dirs = dirs(18); s.sub = sels(depth - 1); s.hasSub = true; }
			v.push_back(std::move(s));
		}
		return v;
	}
	Doc doc(int depth = 3)
	{
		static const std::vector<std::string> conds { "A", "B", "Q", "Iface", "Either", "Longer__Interface", "M", "Iface", "Iface" };
		Doc d; Op o;
		d.fragsFirst = r.coin();
		for (int n = int(r.below(4)); n > 0; --n) { VarDef v; v.name = "v" + std::to_string(n); v.hasDefault = r.coin(40); if (v.hasDefault) v.def = genLit(r, 1, {}, false); vars.push_back(v.name); o.vars.push_back(v); }
		for (int n = int(r.below(3)); n > 0; --n) { VarDef v; v.name = "flag" + std::to_string(n); v.hasDefault = r.coin(70); v.def.k = Lit::Bool; v.def.b = r.coin(); bvars.push_back(v.name); o.vars.push_back(v); }
		// fragments only spread fragments with a larger number: no cycles
		int nf = int(r.below(4));
		std::vector<Frag> fs;
		for (int i = nf - 1; i >= 0; --i)
		{
			Frag f; f.name = "F" + std::to_string(i); f.cond = r.pick(conds);
			auto keep = vars; auto keepb = bvars; vars.clear(); bvars.clear();
			f.dirs = dirs(15, false);
			vars = keep; bvars = keepb;
			f.sub = sels(depth - 1);
			fragNames.push_back(f.name);
			fs.push_back(std::move(f));
		}
		d.frags = std::move(fs);
		if (r.coin(70)) o.name = "Op"; else if (o.vars.empty() && r.coin()) o.shorthand = true;
		if (!o.shorthand) o.dirs = dirs(15, false);
		o.sub = sels(depth);
		d.ops.push_back(std::move(o));
		return d;
	}
	Vars supply(const Op& o, bool missingFlags)
	{
		Vars v;
		for (auto& d : o.vars)
		{
			if (d.name[0] == 'f') { if (missingFlags && r.coin(15)) continue; if (d.hasDefault && r.coin()) continue; v[d.name] = Value(r.coin()); }
			else if (r.coin(60)) v[d.name] = genValue(r, 2, {});
		}
		if (r.coin(20)) v["unusedVariable"] = Value(3);
		return v;
	}
};
inline Value varsValue(const Vars& v) { Value r(Type::Map); for (auto& e : v) r.emplace_back(std::string(e.first), Value(e.second)); return r; }

struct Case { Doc doc; Vars vars; World w; bool async = false; std::string opName; };
struct Run { std::string text; std::optional<Value> doc; std::string threw; Log log; };

inline std::string caseText(const Case& c, const std::string& text)
{
	return text + " variables " + dump(varsValue(c.vars)) + " world " + std::to_string(c.w.seed) + (c.async ? " async" : "");
}
inline void runCase(const Case& c, Run& r, bool validate = false, const std::shared_ptr<schema::Schema>& sch = nullptr)
{
	Printer p; p.doc(c.doc); r.text = p.t;
	auto ctx = std::make_shared<Ctx>(); ctx->w = c.w; ctx->log = &r.log;
	auto s = std::make_shared<Svc>(ctx, sch ? sch : std::make_shared<schema::Schema>(true));
	peg::ast ast;
	try { ast = peg::parseString(r.text); }
	catch (const std::exception& e) { fail("request text not parsed: " + std::string(e.what()) + ": " + r.text); }
	ast.validated = !validate;
	try { r.doc = s->resolve(c.async ? std::launch::async : std::launch::deferred, nullptr, ast, c.opName, varsValue(c.vars)).get(); }
	catch (const std::exception& e) { r.threw = e.what(); }
}
struct Want { bool data = true, errors = true, calls = true; };
inline void checkCase(const Case& c, const Want& want = {})
{
	Run r; runCase(c, r);
	std::string ctx = caseText(c, r.text);
	Model m(c.doc, c.doc.ops[0], c.w);
	m.ctx = c.doc.ops[0].type == "mutation" ? service::ResolverContext::Mutation : service::ResolverContext::Query;
	Res e = m.execute(c.vars);
	check(r.doc.has_value(), ctx + ": exception instead of a response: " + r.threw);
	compareDoc(*r.doc, e, ctx, want.data, want.errors);
	if (want.calls && !c.async && !m.aborted) compareCalls(r.log.calls, m.calls, ctx);
}
} // namespace svc
