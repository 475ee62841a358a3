// C01: Base64 against an independent RFC 4648 implementation.
#include "common.h"
#include "graphqlservice/internal/Base64.h"
using namespace replay;
using graphql::internal::Base64;
using Bytes = std::vector<uint8_t>;

static int v6(unsigned char c)
{
	if (c >= 'A' && c <= 'Z') return c - 'A';
	if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52;
	return c == '+' ? 62 : c == '/' ? 63 : -1;
}
static std::string encode(const Bytes& b)
{
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (size_t i = 0; i < b.size(); i += 3)
	{
		uint32_t x = b[i] << 16;
		if (i + 1 < b.size()) x |= b[i + 1] << 8;
		if (i + 2 < b.size()) x |= b[i + 2];
		r += A[x >> 18]; r += A[(x >> 12) & 63];
		r += i + 1 < b.size() ? A[(x >> 6) & 63] : '=';
		r += i + 2 < b.size() ? A[x & 63] : '=';
	}
	return r;
}
// what may be decoded: alphabet characters, zero spare bits, at most two '=' ; nullopt = must be rejected
static std::optional<Bytes> denote(std::string_view s)
{
	size_t n = s.size();
	size_t p = 0;
	while (p < 2 && n > 0 && s[n - 1] == '=') { --n; ++p; }
	Bytes out; uint32_t acc = 0; int bits = 0;
	for (size_t i = 0; i < n; ++i)
	{
		int v = v6(static_cast<unsigned char>(s[i]));
		if (v < 0) return std::nullopt;
		acc = (acc << 6) | v; bits += 6;
		if (bits >= 8) { bits -= 8; out.push_back((acc >> bits) & 255); acc &= (1u << bits) - 1; }
	}
	if (bits >= 6 || acc != 0) return std::nullopt;
	return out;
}
static bool canonical(std::string_view s)
{
	auto d = denote(s);
	return d && encode(*d) == s;
}
static void decodeCase(std::string_view s)
{
	auto want = denote(s);
	bool threw = false; Bytes got;
	try { got = Base64::fromBase64(s); } catch (const std::exception&) { threw = true; }
	if (threw) { check(!canonical(s), "decode " + show(s) + " is standard Base64 but was rejected"); return; }
	check(want.has_value(), "decode " + show(s) + " is not Base64 but was decoded");
	check(*want == got, "decode " + show(s) + " gave the wrong bytes " + hex(std::string(got.begin(), got.end())));
}
static void encodeCase(const Bytes& b)
{
	std::string t = Base64::toBase64(b);
	check(t == encode(b), "encode " + hex(std::string(b.begin(), b.end())) + " gave " + show(t));
	Bytes back;
	try { back = Base64::fromBase64(t); } catch (const std::exception& e) { fail("round trip of " + hex(std::string(b.begin(), b.end())) + " rejected: " + e.what()); }
	check(back == b, "round trip of " + hex(std::string(b.begin(), b.end())));
}
int main(int argc, char** argv)
{
	return run(argc, argv, {
		{ "fixed", [] {
			for (int i = 0; i < 256; ++i) for (int n = 0; n < 5; ++n) { Bytes b(n, 0x5a); encodeCase(b); if (n) { b[n - 1] = uint8_t(i); encodeCase(b); b[0] = uint8_t(i); encodeCase(b); } }
			for (int i = 0; i < 256; ++i) for (size_t p = 0; p < 8; ++p) for (const char* base : { "QUJDREVG", "QUJDRE==", "QUJDREU=", "QQ==", "QUI=", "QUJD" }) { std::string s = base; if (p < s.size()) { s[p] = char(i); decodeCase(s); } }
			for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; b += 3) { decodeCase(std::string{ char(a), char(b) }); decodeCase(std::string{ char(a), char(b), '=', '=' }); decodeCase(std::string{ 'Q', char(a), char(b), '=' }); }
			for (size_t n = 0; n <= 700; n += (n < 70 ? 1 : 37)) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back(uint8_t(i * 37 + n)); encodeCase(b); decodeCase(std::string(n, 'A')); decodeCase(std::string(n, '=')); }
		}, nullptr },
		{ "encode", nullptr, [](Rng& r) { Bytes b(r.below(r.coin() ? 8 : 200)); for (auto& c : b) c = r.coin(20) ? (r.coin() ? 0 : 255) : uint8_t(r.g()); encodeCase(b); } },
		{ "decode", nullptr, [](Rng& r) {
			Bytes b(r.below(r.coin() ? 8 : 60)); for (auto& c : b) c = uint8_t(r.g());
			std::string s = encode(b);
			int k = r.below(4);
			while (k-- && !s.empty()) switch (r.below(5)) {
				case 0: s[r.below(s.size())] = char(r.g()); break;
				case 1: s[s.size() - 1 - r.below(std::min<size_t>(4, s.size()))] = "=Ab/+1-_ "[r.below(9)]; break;
				case 2: s.pop_back(); break;
				case 3: s.push_back("=AQ"[r.below(3)]); break;
				case 4: s.insert(s.begin() + r.below(s.size() + 1), '='); break;
			}
			decodeCase(s); } },
	});
}
