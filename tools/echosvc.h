// A tiny service for demonstrations: field "echo" answers the arguments it was called with, "self" the object again.
#pragma once
#include "graphqlservice/GraphQLParse.h"
#include "graphqlservice/GraphQLService.h"
#include "graphqlservice/JSONResponse.h"
#include "graphqlservice/internal/Schema.h"
#include <cstdio>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using namespace graphql;
inline std::vector<std::string>& calls() { static std::vector<std::string> c; return c; }
class Echo : public service::Object
{
public:
	Echo() : service::Object({ "Echo", "Node" }, map()) {}
private:
	service::ResolverMap map()
	{
		service::ResolverMap m;
		m.emplace(std::string_view { "echo" }, service::Resolver([](service::ResolverParams&& p) {
			calls().push_back(p.fieldName + response::toJSON(response::Value(p.arguments)));
			response::Value v(p.arguments);
			return service::ModifiedResult<response::Value>::convert(service::FieldResult<response::Value>(std::move(v)), std::move(p));
		}));
		m.emplace(std::string_view { "self" }, service::Resolver([this](service::ResolverParams&& p) {
			calls().push_back(p.fieldName);
			std::shared_ptr<service::Object> o = shared_from_this();
			return service::ModifiedResult<service::Object>::convert(service::FieldResult<std::shared_ptr<service::Object>>(std::move(o)), std::move(p));
		}));
		m.emplace(std::string_view { "fail" }, service::Resolver([](service::ResolverParams&& p) -> std::future<service::ResolverResult> {
			calls().push_back(p.fieldName);
			throw service::schema_exception { { "failed on purpose" } };
		}));
		return m;
	}
};
class Service : public service::Request
{
public:
	Service() : service::Request(map(), std::make_shared<schema::Schema>(true)) {}
private:
	static service::TypeMap map()
	{
		service::TypeMap m;
		m.emplace("query", std::make_shared<Echo>());
		m.emplace("mutation", std::make_shared<Echo>());
		return m;
	}
};
// the response document as text; validation is bypassed
inline std::string request(const char* text, const char* variables = "{}", const char* name = "")
{
	auto ast = peg::parseString(text);
	ast.validated = true;
	auto s = std::make_shared<Service>();
	try { return response::toJSON(s->resolve(nullptr, ast, name, response::parseJSON(variables)).get()); }
	catch (const std::exception& ex) { return std::string("threw ") + ex.what(); }
}
inline int expect(const std::string& got, const std::string& want)
{
	if (got == want) return 0;
	printf("got  %s\nwant %s\n", got.c_str(), want.c_str());
	return 1;
}
