// A schema for demonstrations: a request must get the same errors from a service that has validated others before it.
#pragma once
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
#include <cstdio>
#include <list>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>
using namespace graphql;
using introspection::TypeKind;
struct Quiet : service::Request { explicit Quiet(const std::shared_ptr<schema::Schema>& s) : service::Request({}, s) {} };
// type Query { n(a: Int): Int  node: Node }  type Node { id: Int  next: Node }
inline std::shared_ptr<schema::Schema> build()
{
	auto s = std::make_shared<schema::Schema>(false);
	introspection::AddTypesToSchema(s);
	auto node = schema::ObjectType::Make("Node", "");
	s->AddType("Node", node);
	node->AddFields({ schema::Field::Make("id", "", std::nullopt, s->LookupType("Int")), schema::Field::Make("next", "", std::nullopt, s->LookupType("Node")) });
	auto query = schema::ObjectType::Make("Query", "");
	s->AddType("Query", query);
	query->AddFields({ schema::Field::Make("n", "", std::nullopt, s->LookupType("Int"), { schema::InputValue::Make("a", "", s->LookupType("Int"), "") }),
		schema::Field::Make("node", "", std::nullopt, s->LookupType("Node")) });
	s->AddQueryType(query);
	return s;
}
inline std::vector<std::string> errors_of(Quiet& r, const char* text)
{
	static std::list<peg::ast> keep;      // the documents stay: what is remembered of them is not dangling
	keep.push_back(peg::parseString(text));
	auto& ast = keep.back();
	std::vector<std::string> out;
	for (auto& e : r.validate(ast)) out.push_back(e.message + " @" + std::to_string(e.location.line) + ":" + std::to_string(e.location.column));
	return out;
}
// 0 when the last document's errors do not depend on those before it
inline int history(const std::vector<const char*>& docs)
{
	alarm(60);
	auto s = build();
	Quiet used(s), fresh(s);
	std::vector<std::string> got;
	for (auto d : docs) got = errors_of(used, d);
	auto want = errors_of(fresh, docs.back());
	if (got == want) return 0;
	std::printf("%s: %zu errors after the others, %zu alone\n", docs.back(), got.size(), want.size());
	for (auto& e : got) std::printf("  after: %s\n", e.c_str());
	for (auto& e : want) std::printf("  alone: %s\n", e.c_str());
	return 1;
}
