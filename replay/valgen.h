// random response values, an independent JSON writer and a structural comparison
#pragma once
#include "common.h"
#include "graphqlservice/GraphQLResponse.h"
#include <cmath>
namespace replay {
using graphql::response::Value;
using graphql::response::Type;
namespace rsp = graphql::response;

inline const std::vector<std::string>& texts()
{
	static const std::vector<std::string> t { "", "a", "b", "aa", "name", "id", "__typename", "data", "errors", "\"", "\\", "\\u0041", "/", "\n\r\t\b\f", "\x01\x1f\x7f", std::string("a\0b", 3), std::string("\0", 1), "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80",
		std::string(300, 'x'), "true", "null", "1", "1.5", "a,b:c{d}[e]", "é", "' '", "Zz", "ABC" };
	return t;
}
inline std::string text(Rng& r)
{
	if (r.coin(75)) return r.pick(texts());
	std::string s;
	for (int n = int(r.below(12)); n > 0; --n) s += char(r.coin(80) ? 32 + r.below(95) : r.below(32));
	return s;
}
struct GenOpts { bool jsonOnly = false; bool emptyScalar = false; bool floats = true; };
inline int someInt(Rng& r)
{
	static const std::vector<int> v { 0, 1, -1, 2, 10, 100, 2147483647, -2147483647 - 1, 2147483646, -2147483647, 65536, 255, 256, -256, 1000000 };
	return r.coin(70) ? r.pick(v) : int(uint32_t(r.g()));
}
inline double someDouble(Rng& r)
{
	static const std::vector<double> v { 0.0, 1.0, -1.5, 0.1, 1e10, 1e300, -1e-300, 3.141592653589793, 2147483648.0, -2147483649.0, 9007199254740993.0, 5e-324, 123456789.125 };
	if (r.coin(70)) return r.pick(v);
	double d; uint64_t b;
	do { b = r.g(); memcpy(&d, &b, sizeof d); } while (!std::isfinite(d));
	return d;
}
inline Value genValue(Rng& r, int depth, const GenOpts& o)
{
	switch (r.below(depth > 0 ? 13 : 8))
	{
		case 0: return Value();
		case 1: return Value(r.coin());
		case 2: return Value(rsp::IntType(someInt(r)));
		case 3: return o.floats ? Value(rsp::FloatType(someDouble(r))) : Value(rsp::IntType(3));
		case 4: case 5: { Value v(text(r)); return v; }
		case 6: if (!o.jsonOnly) { Value v(Type::EnumValue); v.set<rsp::StringType>(text(r)); return v; } return Value(text(r));
		case 7: if (!o.jsonOnly) { Value v(Type::Scalar); v.set<rsp::ScalarType>(genValue(r, depth - 1, o)); return v; } return Value();
		case 8: case 9: case 10:
		{
			Value v(Type::Map);
			for (int n = int(r.below(5)); n > 0; --n) v.emplace_back(text(r), genValue(r, depth - 1, o));
			return v;
		}
		default:
		{
			Value v(Type::List);
			for (int n = int(r.below(5)); n > 0; --n) v.emplace_back(genValue(r, depth - 1, o));
			return v;
		}
	}
}
// a readable dump, independent of toJSON
inline std::string dump(const Value& v)
{
	std::string r;
	switch (v.type())
	{
		case Type::Map: r = "{"; for (auto& e : v.get<rsp::MapType>()) r += show(e.first) + ":" + dump(e.second) + ","; return r + "}";
		case Type::List: r = "["; for (auto& e : v.get<rsp::ListType>()) r += dump(e) + ","; return r + "]";
		case Type::String: return show(v.get<rsp::StringType>());
		case Type::EnumValue: return "enum" + show(v.get<rsp::StringType>());
		case Type::Null: return "null";
		case Type::Boolean: return v.get<rsp::BooleanType>() ? "true" : "false";
		case Type::Int: return std::to_string(v.get<rsp::IntType>());
		case Type::Float: { char b[40]; snprintf(b, sizeof b, "%.17gf", v.get<rsp::FloatType>()); return b; }
		case Type::Scalar: try { return "scalar(" + dump(v.get<rsp::ScalarType>()) + ")"; } catch (const std::exception&) { return "scalar()"; }
	}
	return "?";
}
inline std::string jstr(std::string_view s)
{
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r + "\"";
}
} // namespace replay
