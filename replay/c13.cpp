// Input values and variables against the types of a schema: which requests are accepted.
#include "common.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
#include <map>
#include <set>

using namespace replay;
using namespace graphql;
using introspection::TypeKind;

// ---------------------------------------------------------------- types
struct T { char k; std::string name; std::shared_ptr<T> of; };      // '!' '[' 'n'
using P = std::shared_ptr<T>;
static P named(const std::string& n) { return std::make_shared<T>(T { 'n', n, {} }); }
static P nn(P t) { return t->k == '!' ? t : std::make_shared<T>(T { '!', "", t }); }
static P ls(P t) { return std::make_shared<T>(T { '[', "", t }); }
static std::string text(const P& t) { return t->k == 'n' ? t->name : t->k == '!' ? text(t->of) + "!" : "[" + text(t->of) + "]"; }
static P parse(const std::string& s) { if (s.back() == '!') return nn(parse(s.substr(0, s.size() - 1))); if (s[0] == '[') return ls(parse(s.substr(1, s.size() - 2))); return named(s); }
struct F { std::string name; P type; std::string def; };
static const std::vector<std::string> scalars { "Int", "Float", "String", "ID", "Boolean", "Date" };
static const std::map<std::string, std::vector<std::string>> enums { { "Color", { "RED", "GREEN" } }, { "Size", { "RED", "LARGE" } } };
static std::map<std::string, std::vector<F>> inputs;
static const std::vector<std::string> names { "Int", "Float", "String", "ID", "Boolean", "Date", "Color", "Size", "One", "Two", "Three" };

// ---------------------------------------------------------------- literals
struct Lit { char k; std::string s; std::vector<Lit> l; std::vector<std::pair<std::string, Lit>> m; };   // 0 null, i f s b e l m $
static std::string text(const Lit& v)
{
	std::string r;
	switch (v.k)
	{
		case '0': return "null";
		case 's': return "\"" + v.s + "\"";
		case '$': return "$" + v.s;
		case 'l': for (auto& x : v.l) r += (r.empty() ? "" : ", ") + text(x); return "[" + r + "]";
		case 'm': for (auto& x : v.m) r += (r.empty() ? "" : ", ") + x.first + ": " + text(x.second); return "{" + r + "}";
		default: return v.s;
	}
}
struct Var { std::string name; P type; std::optional<Lit> def; };
struct Env { std::vector<Var> vars; };

static bool compatible(const P& v, const P& i)
{
	if (i->k == '!') return v->k == '!' && compatible(v->of, i->of);
	if (v->k == '!') return compatible(v->of, i);
	if (i->k == '[' || v->k == '[') return i->k == v->k && compatible(v->of, i->of);
	return v->name == i->name;
}
static bool usable(const Var& v, const P& at, bool hasDefault)
{
	if (at->k == '!' && v.type->k != '!' && (hasDefault || (v.def && v.def->k != '0'))) return compatible(v.type, at->of);
	return compatible(v.type, at);
}
// an ID literal is base64 in its canonical form, with or without the padding
static bool encodedId(std::string s)
{
	static const std::string alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	if (s.size() % 4 == 0 && !s.empty()) { if (s.back() == '=') { s.pop_back(); if (s.back() == '=') s.pop_back(); } }
	for (char c : s) if (alphabet.find(c) == std::string::npos) return false;
	const auto low = s.empty() ? 0 : alphabet.find(s.back());
	return s.size() % 4 == 0 || (s.size() % 4 == 2 && (low & 15) == 0) || (s.size() % 4 == 3 && (low & 3) == 0);
}
static bool accepts(const Env& e, const P& t, const Lit& v, bool hasDefault)
{
	if (v.k == '$') { for (auto& x : e.vars) if (x.name == v.s) return usable(x, t, hasDefault); return false; }
	if (v.k == '0') return t->k != '!' || hasDefault;
	if (t->k == '!') return accepts(e, t->of, v, hasDefault);
	if (t->k == '[') { if (v.k != 'l') return false; for (auto& x : v.l) if (!accepts(e, t->of, x, false)) return false; return true; }
	auto en = enums.find(t->name);
	if (en != enums.end()) { if (v.k != 'e') return false; for (auto& x : en->second) if (x == v.s) return true; return false; }
	auto in = inputs.find(t->name);
	if (in != inputs.end())
	{
		if (v.k != 'm') return false;
		std::set<std::string> given;
		for (auto& x : v.m)
		{
			const F* f = nullptr;
			for (auto& y : in->second) if (y.name == x.first) f = &y;
			if (!f || !given.insert(x.first).second) return false;
			if (x.second.k == '0' && !f->def.empty()) continue;
			if (!accepts(e, f->type, x.second, !f->def.empty() && f->def != "null")) return false;
		}
		for (auto& f : in->second) if (f.def.empty() && f.type->k == '!' && !given.count(f.name)) return false;
		return true;
	}
	if (t->name == "Int") return v.k == 'i';
	if (t->name == "Float") return v.k == 'i' || v.k == 'f';
	if (t->name == "String") return v.k == 's';
	if (t->name == "Boolean") return v.k == 'b';
	if (t->name == "ID") return v.k == 's' && encodedId(v.s);
	return true;
}

// ---------------------------------------------------------------- generators
static P genType(Rng& r, int depth)
{
	P t = depth > 0 && r.coin(35) ? ls(genType(r, depth - 1)) : named(r.pick(names));
	return r.coin(35) ? nn(t) : t;
}
static Lit lit(char k, std::string s = {}) { return Lit { k, std::move(s), {}, {} }; }
static Lit genLit(Rng& r, const P& t, const Env& e, int depth, bool top = false)
{
	if (!e.vars.empty() && r.coin(top ? 15 : 22)) return lit('$', r.pick(e.vars).name);
	if (r.coin(6)) return lit('0');
	if (r.coin(7))
	{
		static const std::vector<std::string> any { "Int", "Float", "String", "ID", "Boolean", "Color", "One", "Two" };
		if (depth > 0) return genLit(r, r.coin(25) ? ls(named(r.pick(any))) : named(r.pick(any)), e, depth - 1);
		return lit('b', "true");
	}
	if (t->k == '!') return genLit(r, t->of, e, depth);
	if (t->k == '[') { Lit v = lit('l'); for (size_t i = 0, n = depth > 0 ? r.below(4) : 0; i < n; ++i) v.l.push_back(genLit(r, t->of, e, depth - 1)); return v; }
	if (enums.count(t->name)) { static const std::vector<std::string> ns { "RED", "GREEN", "LARGE", "RED", "BLUE", "red" }; return lit('e', r.coin(75) ? r.pick(enums.at(t->name)) : r.pick(ns)); }
	if (inputs.count(t->name))
	{
		Lit v = lit('m');
		for (auto& f : inputs.at(t->name))
			if (depth > 0 ? (f.type->k == '!' ? r.coin(92) : r.coin(50)) : f.type->k == '!' && f.def.empty())
				v.m.emplace_back(f.name, depth > -2 ? genLit(r, f.type, e, depth - 1) : lit('0'));
		if (r.coin(4)) v.m.emplace_back("other", lit('i', "1"));
		if (r.coin(2) && !v.m.empty()) v.m.push_back(v.m[0]);
		if (v.m.size() > 1 && r.coin()) std::swap(v.m.front(), v.m.back());
		return v;
	}
	static const std::vector<std::string> ids { "", "YWJj", "YQ==", "YWI=", "YW*j", "?", "!!!!" };
	static const std::vector<std::string> ints { "0", "7", "-12", "2147483647" }, floats { "1.5", "-0.25", "1e3" }, strs { "", "a b", "RED", "12" };
	if (t->name == "Int") return lit('i', r.pick(ints));
	if (t->name == "Float") return r.coin() ? lit('i', r.pick(ints)) : lit('f', r.pick(floats));
	if (t->name == "ID") return lit('s', r.pick(ids));
	if (t->name == "Boolean") return lit('b', r.coin() ? "true" : "false");
	if (t->name == "Date" && r.coin()) return r.coin() ? lit('i', "5") : r.coin() ? lit('e', "NOW") : lit('m');
	return lit('s', r.pick(strs));
}

// ---------------------------------------------------------------- schema and request
struct Quiet : service::Request { explicit Quiet(const std::shared_ptr<schema::Schema>& s) : service::Request({}, s) {} };
struct Service
{
	std::shared_ptr<schema::Schema> schema = std::make_shared<schema::Schema>(false);
	std::vector<std::vector<F>> fields;
	std::unique_ptr<Quiet> request;

	std::shared_ptr<const schema::BaseType> type(const P& t)
	{
		if (t->k == 'n') return schema->LookupType(t->name);
		return schema->WrapType(t->k == '!' ? TypeKind::NON_NULL : TypeKind::LIST, type(t->of));
	}
	std::vector<std::shared_ptr<const schema::InputValue>> values(const std::vector<F>& fs)
	{
		std::vector<std::shared_ptr<const schema::InputValue>> r;
		for (auto& f : fs) r.push_back(schema::InputValue::Make(f.name, "", type(f.type), f.def));
		return r;
	}
	Service(const std::vector<std::vector<F>>& fs, bool directive) : fields(fs)
	{
		introspection::AddTypesToSchema(schema);
		schema->AddType("Date", schema::ScalarType::Make("Date", ""));
		for (auto& e : enums)
		{
			auto t = schema::EnumType::Make(e.first, "");
			schema->AddType(e.first, t);
			std::vector<schema::EnumValueType> vs;
			for (auto& v : e.second) vs.push_back({ v, "", std::nullopt });
			t->AddEnumValues(std::move(vs));
		}
		std::map<std::string, std::shared_ptr<schema::InputObjectType>> ins;
		for (auto& i : inputs) schema->AddType(i.first, ins[i.first] = schema::InputObjectType::Make(i.first, ""));
		for (auto& i : inputs) ins[i.first]->AddInputValues(values(i.second));
		auto query = schema::ObjectType::Make("Query", "");
		schema->AddType("Query", query);
		std::vector<std::shared_ptr<const schema::Field>> qs;
		for (size_t i = 0; i < fields.size(); ++i)
		{
			const std::string* n = fieldName(i);
			qs.push_back(schema::Field::Make(*n, "", std::nullopt, schema->LookupType("Int"), values(fields[i])));
		}
		query->AddFields(std::move(qs));
		if (directive) schema->AddDirective(schema::Directive::Make("check", "", { introspection::DirectiveLocation::FIELD }, values(fields[0])));
		schema->AddQueryType(query);
		request = std::make_unique<Quiet>(schema);
	}
	static const std::string* fieldName(size_t i) { static const std::string n[] = { "f0", "f1", "f2", "f3" }; return n + i; }
	std::string show() const
	{
		std::string r;
		auto fs = [](const std::vector<F>& v) { std::string s; for (auto& f : v) s += (s.empty() ? "" : ", ") + f.name + ": " + text(f.type) + (f.def.empty() ? "" : " = " + f.def); return s; };
		for (size_t i = 0; i < fields.size(); ++i) r += *fieldName(i) + "(" + fs(fields[i]) + ") ";
		for (auto& i : inputs) r += "input " + i.first + " {" + fs(i.second) + "} ";
		return r;
	}
};

static void uses(const Lit& v, std::set<std::string>& s)
{
	if (v.k == '$') s.insert(v.s);
	for (auto& x : v.l) uses(x, s);
	for (auto& x : v.m) uses(x.second, s);
}
using Args = std::vector<std::pair<std::string, Lit>>;
static bool argsOk(const Env& e, const std::vector<F>& fs, const Args& as)
{
	std::set<std::string> given;
	for (auto& a : as)
	{
		const F* f = nullptr;
		for (auto& y : fs) if (y.name == a.first) f = &y;
		if (!f || !given.insert(a.first).second) return false;
		if (a.second.k == '0' && !f->def.empty()) continue;
		if (!accepts(e, f->type, a.second, !f->def.empty() && f->def != "null")) return false;
	}
	for (auto& f : fs) if (f.def.empty() && f.type->k == '!' && !given.count(f.name)) return false;
	return true;
}
static bool okDefaults(const Env& e) { for (auto& v : e.vars) if (v.def && !accepts({}, v.type, *v.def, false)) return false; return true; }
// an object literal that names a field twice is an error wherever it stands
static bool unique(const Lit& v) { std::set<std::string> s; for (auto& x : v.m) if (!s.insert(x.first).second || !unique(x.second)) return false; for (auto& x : v.l) if (!unique(x)) return false; return true; }
static void check(Service& s, const std::string& doc, bool want)
{
	auto ast = peg::parseString(doc);
	auto errors = s.request->validate(ast);
	// a variable that only stands inside a literal for a custom scalar is reported as unused, which is a rule of its own
	if (want) errors.remove_if([](const auto& error) { return error.message.rfind("Unused variable name", 0) == 0; });
	if (errors.empty() == want) return;
	replay::fail("request " + show(doc) + (want ? " is refused: " + errors.front().message : " is accepted") + ", schema " + s.show());
}
static std::string argsText(const Args& as) { std::string r; for (auto& a : as) r += (r.empty() ? "" : ", ") + a.first + ": " + text(a.second); return r.empty() ? "" : "(" + r + ")"; }
static std::vector<F> genArgs(Rng& r)
{
	static const std::vector<std::string> ns { "a", "b", "c" };
	std::vector<F> fs;
	for (size_t i = 0, n = 1 + r.below(3); i < n; ++i)
	{
		F f { ns[i], genType(r, 2), "" };
		if (r.coin(25)) f.def = f.type->k != '!' && r.coin() ? "null" : "1";     // only whether there is one, and whether it is null, matters here
		fs.push_back(f);
	}
	return fs;
}
static Args genGiven(Rng& r, const std::vector<F>& fs, const Env& e)
{
	Args as;
	for (auto& f : fs) if (f.type->k == '!' ? r.coin(94) : r.coin(75)) as.emplace_back(f.name, genLit(r, f.type, e, 3, true));
	if (r.coin(3)) as.emplace_back("nope", lit('i', "1"));
	return as;
}
static void setInputs(Rng* r)
{
	inputs = { { "One", { { "a", named("Int"), "" }, { "b", nn(named("Int")), "" }, { "c", nn(named("Int")), "3" }, { "d", ls(nn(named("String"))), "" }, { "e", named("Color"), "null" }, { "one", named("One"), "" } } },
		{ "Two", { { "ones", nn(ls(nn(named("One")))), "" }, { "x", nn(named("Size")), "" } } }, { "Three", { { "z", nn(ls(named("ID"))), "[]" }, { "y", ls(ls(named("Float"))), "" } } } };
	if (r && r->coin())
		for (auto& i : inputs) { i.second.clear(); for (auto& f : genArgs(*r)) i.second.push_back(f); for (auto& f : i.second) { P t = f.type; while (t->of) t = t->of; if (inputs.count(t->name) && f.type->k == '!') f.type = f.type->of; } }
}
static void values(Rng& r)
{
	setInputs(&r);
	std::vector<std::vector<F>> fs;
	for (size_t i = 0, n = 1 + r.below(3); i < n; ++i) fs.push_back(genArgs(r));
	bool dir = r.coin(30);
	Service s(fs, dir);
	for (int k = 0; k < 12; ++k)
	{
		Env e;
		static const std::vector<std::string> vn { "u", "v", "w" };
		size_t f = r.below(fs.size());
		for (size_t i = 0, n = r.below(4); i < n; ++i)
		{
			P t = r.coin(60) ? r.pick(fs[f]).type : genType(r, 2);
			if (t->of && r.coin(30)) t = t->of;
			if (t->k == 'n' && inputs.count(t->name) && r.coin(60)) t = r.pick(inputs.at(t->name)).type;
			if (t->of && r.coin(15)) t = t->of;
			Var v { vn[i], r.coin(25) ? nn(t) : t, std::nullopt };
			if (r.coin(30)) { v.def = genLit(r, v.type, {}, 2); if (r.coin(70) && !accepts({}, v.type, *v.def, false)) v.def.reset(); }
			e.vars.push_back(v);
		}
		Args as = genGiven(r, fs[f], e), ds;
		if (dir && f == 0) ds = genGiven(r, fs[0], e);
		bool want = argsOk(e, fs[f], as), uniq = true;
		bool d = dir && f == 0 && !ds.empty();      // a directive without arguments is not checked for the ones it requires
		if (d) want = want && argsOk(e, fs[0], ds);
		std::set<std::string> used;
		for (auto& a : as) { uses(a.second, used); uniq = uniq && unique(a.second); }
		if (d) for (auto& a : ds) { uses(a.second, used); uniq = uniq && unique(a.second); }
		std::vector<Var> vs;
		for (auto& v : e.vars) if (used.count(v.name)) vs.push_back(v);      // one that is not used is an error of its own
		Env eu { vs };
		std::string vars;
		for (auto& v : vs) { vars += (vars.empty() ? "" : ", ") + ("$" + v.name + ": " + text(v.type)) + (v.def ? " = " + text(*v.def) : ""); if (v.def) uniq = uniq && unique(*v.def); }
		want = want && uniq && okDefaults(eu);
		std::string field = *Service::fieldName(f) + argsText(as) + (d ? " @check" + argsText(ds) : "");
		std::string head = "query Q" + (vars.empty() ? "" : "(" + vars + ")");
		check(s, r.coin(30) ? head + " { ...Part } fragment Part on Query { " + field + " }" : head + " { " + field + " }", want);
	}
}
static void samples()
{
	setInputs(nullptr);
	auto one = [](const char* t, const char* def, const char* v, bool want, const char* vars = "") {
		Service s({ { F { "a", parse(t), def } } }, false);
		check(s, std::string("query Q") + vars + " { f0(a: " + v + ") }", want);
	};
	one("[[Int!]]!", "", "[[1], null, []]", true); one("[[Int!]]!", "", "[[1, null]]", false); one("[Int]", "", "1", false); one("[Int]", "", "[[1]]", false);
	one("Int!", "1", "null", true); one("Int!", "", "null", false); one("Float", "", "1", true); one("Int", "", "1.0", false); one("ID", "", "\"YQ==\"", true); one("ID", "", "\"*\"", false); one("ID", "", "1", false);
	one("Color", "", "RED", true); one("Color", "", "LARGE", false); one("Color", "", "\"RED\"", false); one("Boolean", "", "true", true); one("Boolean", "", "RED", false); one("Date", "", "{}", true);
	one("One", "", "{b: 1}", true); one("One", "", "{}", false); one("One", "", "{b: 1, c: null}", true); one("One", "", "{b: null}", false); one("One", "", "{b: 1, q: 1}", false); one("One", "", "{b: 1, one: {b: 2, d: [\"\"]}}", true); one("One", "", "{b: 1, one: {b: 2, d: [null]}}", false);
	one("Two", "", "{ones: [{b: 1}], x: RED}", true); one("Two", "", "{ones: [{}], x: RED}", false); one("Two", "", "{ones: [], x: GREEN}", false); one("Three", "", "{}", true); one("Three", "", "{z: null}", true);
	one("Int!", "", "$v", true, "($v: Int!)"); one("Int!", "", "$v", false, "($v: Int)"); one("Int!", "", "$v", true, "($v: Int = 1)"); one("Int!", "", "$v", false, "($v: Int = null)"); one("Int!", "1", "$v", true, "($v: Int)"); one("Int", "", "$v", true, "($v: Int!)");
	one("[Int!]", "", "$v", false, "($v: [Int] = [1])"); one("[Int]", "", "$v", true, "($v: [Int!]!)"); one("[Int!]", "", "[$v]", false, "($v: Int)"); one("[Int!]", "", "[$v]", true, "($v: Int = 2)"); one("Float", "", "$v", false, "($v: Int)"); one("Int", "", "$w", false); one("[Int]", "", "$v", false, "($v: Int)"); one("Int", "", "$v", false, "($v: [Int])");
	one("One", "", "{b: $v}", false, "($v: Int)"); one("One", "", "{b: $v}", true, "($v: Int = 4)"); one("One", "", "{b: 1, c: $v}", true, "($v: Int)"); one("One", "", "{b: 1, e: $v}", false, "($v: Size)");
	one("Int!", "", "$v", false, "($v: Int! = null)"); one("Int!", "", "$v", true, "($v: Int! = 3)"); one("Int", "", "$v", false, "($v: Int = \"3\")");
}
int main(int argc, char** argv) { return run(argc, argv, { { "values", samples, values } }); }
