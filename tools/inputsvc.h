// A schema with one query field for demonstrations: valid(type, default, request) says whether the validator accepts the request.
#pragma once
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/internal/Schema.h"
#include "graphqlservice/introspection/IntrospectionSchema.h"
#include <cstdio>
#include <memory>
#include <string>
using namespace graphql;
using introspection::TypeKind;
struct Quiet : service::Request { explicit Quiet(const std::shared_ptr<schema::Schema>& s) : service::Request({}, s) {} };
// the type as it is written in GraphQL, for example "[Int!]!"
inline std::shared_ptr<const schema::BaseType> named(schema::Schema& s, std::string t)
{
	if (t.back() == '!') return s.WrapType(TypeKind::NON_NULL, named(s, t.substr(0, t.size() - 1)));
	if (t.back() == ']') return s.WrapType(TypeKind::LIST, named(s, t.substr(1, t.size() - 2)));
	return s.LookupType(t);
}
// query { f(a: TYPE = DEF) }, with input Point { x: Int!, y: Int! = 1, next: Point }
inline bool valid(const char* type, const char* def, const char* text)
{
	auto s = std::make_shared<schema::Schema>(false);
	introspection::AddTypesToSchema(s);
	auto point = schema::InputObjectType::Make("Point", "");
	s->AddType("Point", point);
	point->AddInputValues({ schema::InputValue::Make("x", "", named(*s, "Int!"), ""), schema::InputValue::Make("y", "", named(*s, "Int!"), "1"),
		schema::InputValue::Make("next", "", named(*s, "Point"), "") });
	auto query = schema::ObjectType::Make("Query", "");
	s->AddType("Query", query);
	query->AddFields({ schema::Field::Make("f", "", std::nullopt, s->LookupType("Int"), { schema::InputValue::Make("a", "", named(*s, type), def) }) });
	s->AddQueryType(query);
	Quiet request(s);
	auto ast = peg::parseString(text);
	auto errors = request.validate(ast);
	return errors.empty();
}
inline int expect(bool want, const char* type, const char* def, const char* text)
{
	if (valid(type, def, text) == want) return 0;
	std::printf("a: %s = %s: %s is %s\n", type, def, text, want ? "refused" : "accepted");
	return 1;
}
