// The verdict on a request against the same service before and after other requests.
#include "common.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
#include <algorithm>
#include <csignal>
#include <unistd.h>

using namespace replay;
using namespace graphql;
using introspection::TypeKind;

struct Quiet : service::Request { explicit Quiet(const std::shared_ptr<schema::Schema>& s) : service::Request({}, s) {} };
struct Kind { bool query = true, mutation = true, subscription = true, introspection = true; };
static std::shared_ptr<schema::Schema> build(const Kind& k)
{
	auto s = std::make_shared<schema::Schema>(!k.introspection);
	introspection::AddTypesToSchema(s);
	auto in = schema::InputObjectType::Make("In", ""), other = schema::InputObjectType::Make("Other", "");
	s->AddType("In", in); s->AddType("Other", other);
	in->AddInputValues({ schema::InputValue::Make("x", "", s->LookupType("Int"), ""), schema::InputValue::Make("o", "", s->LookupType("Other"), "") });
	other->AddInputValues({ schema::InputValue::Make("y", "", s->WrapType(TypeKind::NON_NULL, s->LookupType("Int")), ""), schema::InputValue::Make("i", "", s->LookupType("In"), "") });
	auto color = schema::EnumType::Make("Color", "");
	s->AddType("Color", color);
	color->AddEnumValues({ { "RED", "", std::nullopt }, { "GREEN", "", std::nullopt } });
	auto node = schema::InterfaceType::Make("Node", "");
	s->AddType("Node", node);
	auto a = schema::ObjectType::Make("A", ""), b = schema::ObjectType::Make("B", "");
	s->AddType("A", a); s->AddType("B", b);
	auto either = schema::UnionType::Make("Either", "");
	s->AddType("Either", either);
	auto arg = [&](const char* n, const char* t) { return schema::InputValue::Make(n, "", s->LookupType(t), ""); };
	auto field = [&](const char* n, const char* t, std::vector<std::shared_ptr<const schema::InputValue>> args = {}) { return schema::Field::Make(n, "", std::nullopt, s->LookupType(t), std::move(args)); };
	node->AddFields({ field("id", "ID") });
	a->AddInterfaces({ node }); b->AddInterfaces({ node });
	node->AddPossibleType(a); node->AddPossibleType(b);
	either->AddPossibleTypes({ a, b });
	auto object = [&](const std::shared_ptr<schema::ObjectType>& t) { t->AddFields({ field("id", "ID"), field("v", "Int", { arg("n", "Int"), arg("in", "In"), arg("c", "Color") }), field("a", "A"), field("b", "B"), field("node", "Node"), field("e", "Either") }); };
	object(a); object(b);
	auto root = [&](const char* n, bool there) { auto t = schema::ObjectType::Make(n, ""); if (there) { s->AddType(n, t); object(t); } return t; };
	auto q = root("Query", k.query), m = root("Mutation", k.mutation), u = root("Subscription", k.subscription);
	if (k.query) s->AddQueryType(q);
	if (k.mutation) s->AddMutationType(m);
	if (k.subscription) s->AddSubscriptionType(u);
	return s;
}

// ---------------------------------------------------------------- documents
static const std::vector<std::string> vars { "u", "v", "w" }, frags { "F", "G", "H", "K" }, types { "A", "B", "Query", "Mutation", "Node", "Either", "A", "Nope", "Int" };
static std::string value(Rng& r, int depth)
{
	switch (r.below(8))
	{
		case 0: case 1: return "$" + r.pick(vars);
		case 2: return "RED";
		case 3: return "null";
		case 4: return depth > 0 ? "{x: " + value(r, depth - 1) + "}" : "1";
		case 5: return depth > 0 ? "{o: {y: " + value(r, depth - 1) + "}}" : "2";
		default: return "3";
	}
}
static std::string directive(Rng& r) { return r.coin(8) ? (r.coin() ? " @skip(if: $" + r.pick(vars) + ")" : r.coin() ? " @include(if: true)" : " @nope") : ""; }
static std::string selection(Rng& r, int depth)
{
	std::string s = "{ ";
	for (size_t i = 0, n = 1 + r.below(3); i < n; ++i)
		switch (r.below(depth > 0 ? 9 : 4))
		{
			case 0: s += "id" + directive(r) + " "; break;
			case 1: s += (r.coin(30) ? "x: " : "") + std::string("v") + (r.coin(60) ? "(" + std::string(r.coin() ? "n: " : r.coin() ? "in: " : "c: ") + value(r, 2) + ")" : "") + directive(r) + " "; break;
			case 2: s += "..." + r.pick(frags) + directive(r) + " "; break;
			case 3: s += r.coin() ? "__typename " : r.coin() ? "__schema { types { name } } " : "nope "; break;
			case 4: s += "a " + selection(r, depth - 1) + " "; break;
			case 5: s += "node " + selection(r, depth - 1) + " "; break;
			case 6: s += "... on " + r.pick(types) + directive(r) + " " + selection(r, depth - 1) + " "; break;
			case 7: s += "e " + selection(r, depth - 1) + " "; break;
			default: s += "x: b " + selection(r, depth - 1) + " "; break;
		}
	return s + "}";
}
static std::string document(Rng& r)
{
	static const std::vector<std::string> ops { "query", "query", "mutation", "subscription" }, vts { "Int", "Boolean!", "In", "Color", "A", "[Int]", "Boolean = true", "Int = null", "Nope" };
	std::vector<std::string> defs;
	for (size_t i = 0, n = r.coin(80) ? 1 : 2; i < n; ++i)
	{
		std::string vs;
		for (size_t j = 0, m = r.below(3); j < m; ++j) vs += "$" + r.pick(vars) + ": " + r.pick(vts) + " ";
		defs.push_back(r.pick(ops) + (r.coin(80) ? " " + std::string(r.coin() ? "Q" : "R") : "") + (vs.empty() ? "" : "(" + vs + ")") + directive(r) + " " + selection(r, 3));
	}
	for (auto& f : frags) if (r.coin(60)) defs.push_back("fragment " + f + " on " + r.pick(types) + directive(r) + " " + selection(r, 2));
	if (r.coin(3)) defs.push_back("type Late { x: Int }");
	std::shuffle(defs.begin(), defs.end(), r.g);
	std::string s;
	for (auto& d : defs) s += d + "\n";
	return s;
}

static std::string verdict(Quiet& q, const std::string& doc)
{
	// each document goes away before the next one is validated
	peg::ast tree;
	try { tree = peg::parseString(doc); } catch (const std::exception&) { return "syntax"; }
	std::string s;
	for (auto& e : q.validate(tree)) s += e.message + " (" + std::to_string(e.location.line) + "," + std::to_string(e.location.column) + ")\n";
	return s;
}
static void compare(const Kind& k, const std::vector<std::string>& docs)
{
	Quiet q(build(k));
	std::string before;
	for (auto& d : docs)
	{
		Quiet fresh(build(k));
		alarm(60);
		auto want = verdict(fresh, d), got = verdict(q, d);
		alarm(0);
		if (got != want) fail("request " + show(d) + " has the errors " + show(got) + " instead of " + show(want) + " after the requests " + before + (k.query ? "" : "(no query type)") + (k.mutation ? "" : "(no mutation type)"));
		before += show(d) + " ";
	}
}
static void histories(Rng& r)
{
	Kind k { r.coin(85), r.coin(60), r.coin(60), r.coin(80) };
	std::vector<std::string> docs, seen;
	for (size_t i = 0; i < 8; ++i) docs.push_back(!docs.empty() && r.coin(25) ? r.pick(docs) : document(r));
	compare(k, docs);
}
static void samples()
{
	alarm(60);
	compare({ true, false, false, true }, { "mutation M($u: Int) { v(n: $u) }", "query Q { ...F } fragment F on Query { v(n: $u) }", "{ id }" });
	compare({ true, false, false, true }, { "mutation M($u: Int $v: Int) { v(n: $u) }", "query Q($u: Int) { v(n: $u) }" });
	compare({ false, true, false, true }, { "mutation { id }", "query { id }", "mutation { id }" });
	compare({}, { "{ a { ...F } } fragment F on A { a { ...G } } fragment G on A { a { ...F } }", "{ a { ...F } } fragment F on A { a { ...G } } fragment G on A { id }", "{ a { ...F } } fragment F on A { a { ...F } }" });
	compare({}, { "{ a { ...F } }", "{ a { ...F } } fragment F on A { id }", "{ id } fragment F on A { id }", "{ id }" });
	compare({}, { "query Q { id } query Q { id }", "query Q { id }", "{ id } query R { id }", "{ id }" });
	compare({}, { "subscription { a { id } b { id } }", "subscription { a { id } }", "{ ...F } fragment F on Query { a { id } x: b { id } }", "subscription { a { id v } }" });
	compare({}, { "fragment F on Nope { id } { id }", "fragment F on Int { id } { ...F }", "fragment F on Query { id } { ...F }" });
	compare({}, { "{ v(in: {x: 1}) }", "{ v(in: {o: {y: 1}}) }", "{ v(in: {o: {i: {o: {}}}}) }", "{ v(in: {o: {y: null}}) }", "{ v(in: {z: 1}) }" });
	compare({}, { "{ __schema { types { name } } }", "mutation { __schema { types { name } } }", "{ __schema { types { name } } }" });
	compare({}, { "{ x: a { id } x: b { id } }", "{ x: a { id } }", "{ x: b { id } }", "mutation { x: b { id } }" });
	// fragments in long chains and cycles
	std::string chain = "{ a { ...F0 } } ";
	for (int i = 0; i < 30; ++i) chain += "fragment F" + std::to_string(i) + " on A { a { ...F" + std::to_string((i + 1) % 30) + " } } ";
	compare({}, { chain, "{ a { ...F0 } }" });
}
int main(int argc, char** argv)
{
	std::signal(SIGALRM, [](int) { static const char m[] = "FAIL validation does not terminate\n"; (void)!write(1, m, sizeof m - 1); _exit(1); });
	return run(argc, argv, { { "history", samples, histories } });
}
