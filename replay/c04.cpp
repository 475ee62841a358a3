// C04: JSON text against an independent reader, and parsing against the value the text denotes.
#include "valgen.h"
#include "graphqlservice/JSONResponse.h"
#include <climits>
using namespace replay;
using namespace graphql;

// independent JSON reader: yields a value as dump() shows it, with scalars and enums as JSON carries them
struct J
{
	const std::string& t; size_t i = 0;
	[[noreturn]] void bad(const char* w) { fail(std::string("malformed JSON (") + w + " at " + std::to_string(i) + "): " + show(t)); }
	void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
	char peek() { ws(); if (i >= t.size()) bad("end"); return t[i]; }
	void put(std::string& o, unsigned c)
	{
		if (c < 0x80) o += char(c);
		else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
		else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
	}
	unsigned hex4() { if (i + 4 > t.size()) bad("\\u"); unsigned c = unsigned(std::stoul(t.substr(i, 4), nullptr, 16)); i += 4; return c; }
	std::string string()
	{
		if (peek() != '"') bad("string"); ++i;
		std::string o;
		for (;;)
		{
			if (i >= t.size()) bad("unterminated string");
			char c = t[i++];
			if (c == '"') return o;
			if (static_cast<unsigned char>(c) < 32) bad("control character");
			if (c != '\\') { o += c; continue; }
			switch (t[i++])
			{
				case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
				case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
				case 'u': { unsigned c1 = hex4(); if (c1 >= 0xd800 && c1 < 0xdc00) { i += 2; unsigned c2 = hex4(); c1 = 0x10000 + ((c1 - 0xd800) << 10) + (c2 - 0xdc00); } put(o, c1); break; }
				default: bad("escape");
			}
		}
	}
	std::string value()
	{
		switch (peek())
		{
			case '{': { ++i; std::string r = "{"; if (peek() == '}') { ++i; return "{}"; }
				for (;;) { ws(); r += show(string()) + ":"; if (peek() != ':') bad("colon"); ++i; r += value() + ","; if (peek() == ',') { ++i; continue; } if (peek() == '}') { ++i; return r + "}"; } bad("object"); } }
			case '[': { ++i; std::string r = "["; if (peek() == ']') { ++i; return "[]"; }
				for (;;) { r += value() + ","; if (peek() == ',') { ++i; continue; } if (peek() == ']') { ++i; return r + "]"; } bad("array"); } }
			case '"': return show(string());
			case 't': if (t.compare(i, 4, "true")) bad("true"); i += 4; return "true";
			case 'f': if (t.compare(i, 5, "false")) bad("false"); i += 5; return "false";
			case 'n': if (t.compare(i, 4, "null")) bad("null"); i += 4; return "null";
			default:
			{
				size_t j = i; bool fl = false;
				while (j < t.size() && (isdigit(static_cast<unsigned char>(t[j])) || strchr("+-.eE", t[j]))) { fl = fl || strchr(".eE", t[j]); ++j; }
				if (j == i) bad("value");
				std::string n = t.substr(i, j - i); i = j;
				if (!fl) return std::to_string(strtoll(n.c_str(), nullptr, 10));
				char b[40]; snprintf(b, sizeof b, "%.17gf", strtod(n.c_str(), nullptr)); return b;
			}
		}
	}
	std::string all() { std::string r = value(); ws(); if (i != t.size()) bad("trailing text"); return r; }
};
// what JSON carries of a value: enum -> string, scalar -> its content
static std::string carried(const Value& v)
{
	switch (v.type())
	{
		case Type::Map: { std::string r = "{"; for (auto& e : v.get<rsp::MapType>()) r += show(e.first) + ":" + carried(e.second) + ","; return r + "}"; }
		case Type::List: { std::string r = "["; for (auto& e : v.get<rsp::ListType>()) r += carried(e) + ","; return r + "]"; }
		case Type::EnumValue: return show(v.get<rsp::StringType>());
		case Type::Scalar: return carried(v.get<rsp::ScalarType>());
		default: return dump(v);
	}
}
static bool marked(const Value& v)
{
	switch (v.type())
	{
		case Type::Map: for (auto& e : v.get<rsp::MapType>()) if (!marked(e.second)) return false; return true;
		case Type::List: for (auto& e : v.get<rsp::ListType>()) if (!marked(e)) return false; return true;
		case Type::String: return v.maybe_enum();
		default: return true;
	}
}
static void roundtrip(const Value& v)
{
	const std::string want = carried(v);
	const std::string json = rsp::toJSON(Value(v));
	J j { json };
	const std::string got = j.all();
	check(got == want, "toJSON wrote " + show(json) + " for " + want);
	Value back = rsp::parseJSON(json);
	check(dump(back) == want, "parseJSON(toJSON(v)) is " + dump(back) + " for v = " + want);
	check(marked(back), "a string read from JSON is not marked as JSON input: " + want);
	if (back.type() == Type::Map)
		for (auto& e : back.get<rsp::MapType>()) check(back.find(e.first) != back.end() && &back.find(e.first)->second == &e.second, "member not found after parseJSON: " + show(e.first));
}
static std::string layout(Rng& r) { std::string s; while (r.coin(20)) s += " \n\t\r"[r.below(4)]; return s; }
// writes a JSON text for the dump produced by dump()/carried(): random white space and escapes
static std::string textOf(const Value& v, Rng& r)
{
	std::string s = layout(r);
	auto str = [&](const std::string& t) {
		std::string o = "\""; char b[8];
		for (unsigned char c : t)
			if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
			else if (c < 32 || (c < 128 && r.coin(10))) { snprintf(b, sizeof b, r.coin() ? "\\u%04x" : "\\u%04X", c); o += b; }
			else o += char(c);
		return o + "\"";
	};
	switch (v.type())
	{
		case Type::Map: { s += "{"; bool first = true; for (auto& e : v.get<rsp::MapType>()) { if (!first) s += ","; first = false; s += layout(r) + str(e.first) + layout(r) + ":" + textOf(e.second, r); } s += layout(r) + "}"; break; }
		case Type::List: { s += "["; bool first = true; for (auto& e : v.get<rsp::ListType>()) { if (!first) s += ","; first = false; s += textOf(e, r); } s += layout(r) + "]"; break; }
		case Type::String: s += str(v.get<rsp::StringType>()); break;
		case Type::Null: s += "null"; break;
		case Type::Boolean: s += v.get<rsp::BooleanType>() ? "true" : "false"; break;
		case Type::Int: s += std::to_string(v.get<rsp::IntType>()); break;
		case Type::Float: { char b[40]; snprintf(b, sizeof b, "%.17g", v.get<rsp::FloatType>()); s += b; if (!strpbrk(b, ".e")) s += ".0"; break; }
		default: s += "null";
	}
	return s + layout(r);
}
static void read(const Value& v, Rng& r)
{
	const std::string json = textOf(v, r);
	Value back = rsp::parseJSON(json);
	check(dump(back) == dump(v), "parseJSON(" + show(json) + ") is " + dump(back) + ", expected " + dump(v));
}
static void integers(long long n)
{
	const std::string json = std::to_string(n);
	for (int form = 0; form < 3; ++form)
	{
		std::string t = form == 0 ? json : form == 1 ? "[" + json + "]" : "{\"a\":[0,{\"b\":" + json + "}]}";
		try
		{
			Value v = rsp::parseJSON(t);
			std::string want = form == 0 ? json : form == 1 ? "[" + json + ",]" : "{\"a\":[0,{\"b\":" + json + ",},],}";
			check(n >= INT_MIN && n <= INT_MAX && dump(v) == want, "parseJSON(" + t + ") is " + dump(v));
		}
		catch (const std::overflow_error&) { check(n < INT_MIN || n > INT_MAX, "parseJSON(" + t + ") rejected an Int"); }
	}
}
int main(int c, char** a)
{
	return run(c, a, {
		{ "roundtrip", [] {
			for (auto& t : texts()) { roundtrip(Value(std::string(t))); Value m(Type::Map); m.emplace_back(std::string(t), Value(1)); roundtrip(m); }
			for (int n : { 0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1 }) roundtrip(Value(rsp::IntType(n)));
			for (auto t : { Type::Map, Type::List, Type::String, Type::Null, Type::Boolean, Type::Int, Type::Float, Type::EnumValue }) { roundtrip(Value(t)); Value l(Type::List); l.emplace_back(Value(t)); l.emplace_back(Value(t)); l.emplace_back(Value(1)); roundtrip(l); Value m(Type::Map); m.emplace_back("x", Value(t)); m.emplace_back("y", Value(t)); m.emplace_back("z", Value("q")); roundtrip(m); }
			Value deep(Type::List); for (int i = 0; i < 200; ++i) { Value n(i % 2 ? Type::List : Type::Map); if (i % 2) n.emplace_back(std::move(deep)); else n.emplace_back("k", std::move(deep)); deep = std::move(n); } roundtrip(deep);
			Value wide(Type::Map); for (int i = 0; i < 700; ++i) wide.emplace_back("k" + std::to_string((i * 7919) % 701), Value(i)); roundtrip(wide);
		}, [](Rng& r) { roundtrip(genValue(r, 4, {})); } },
		{ "read", nullptr, [](Rng& r) { read(genValue(r, 4, { true, false, true }), r); } },
		{ "integers", [] { for (long long b : { 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL, 0LL }) for (long long d = -3; d <= 3; ++d) { if ((d > 0 && b > 9223372036854775800LL)) continue; integers(b + d); } integers(-9223372036854775807LL - 1); },
			[](Rng& r) { integers((long long)(r.g()) >> r.below(60)); } },
		});
}
