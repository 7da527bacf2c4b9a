// C01: base64 decoding is the exact inverse of base64 encoding; malformed text is handled or rejected cleanly.
#include "pbt.hpp"

#include <stdexcept>

#include <utki/base64.hpp>

const char* const pbt::rule =
	"round trip: the encoded byte string is not empty; malformed: the text has a character outside of the alphabet, "
	"misplaced padding or a length no encoder produces";

namespace {
const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// reference encoder, bit by bit
std::string encode(const std::vector<uint8_t>& b, bool pad)
{
	std::string ret;
	size_t nbits = b.size() * 8;
	for (size_t bit = 0; bit < nbits; bit += 6) {
		unsigned v = 0;
		for (size_t k = 0; k != 6; ++k) {
			v <<= 1;
			if (bit + k < nbits) {
				v |= (b[(bit + k) / 8] >> (7 - (bit + k) % 8)) & 1;
			}
		}
		ret += alphabet[v];
	}
	if (pad) {
		while (ret.size() % 4 != 0) {
			ret += '=';
		}
	}
	return ret;
}
} // namespace

PROPERTY("decode_inverts_encode", 3)
{
	auto b = g.bytes(g.chance(1, 50) ? 2000 : 200);
	bool pad = g.boolean();
	auto t = encode(b, pad);
	g.say([&] {
		return pbt::cat("bytes=", pbt::hex(b.data(), b.size()), " text=", t);
	});
	if (!b.empty()) {
		g.nontrivial();
	}
	g.label(b.size() % 3 == 0 ? "tail 0" : b.size() % 3 == 1 ? "tail 1" : "tail 2");
	pbt::exact<char> e{std::string_view(t)};
	auto d = utki::base64_decode(std::string_view(e.data(), e.size()));
	CHECK_EQ(d, b, " text ", t);
	CHECK_EQ(std::string_view(e.data(), e.size()), std::string_view(t));
	// alternative text for the same bytes decodes to the same
	auto t2 = encode(b, !pad);
	CHECK_EQ(utki::base64_decode(t2), b, " text ", t2);
}

PROPERTY("decode_all_quads", 1)
{
	// text made of alphabet characters directly; the trailing bits which carry no data are arbitrary
	size_t n = g.large(60, 3000);
	if (n % 4 == 1) {
		++n;
	}
	std::string t;
	std::vector<uint8_t> expected;
	uint32_t acc = 0;
	unsigned nb = 0;
	for (size_t i = 0; i != n; ++i) {
		auto v = unsigned(g.choice(63));
		t += alphabet[v];
		acc = (acc << 6) | v;
		nb += 6;
		if (nb >= 8) {
			nb -= 8;
			expected.push_back(uint8_t(acc >> nb));
		}
	}
	if (n != 0) {
		g.nontrivial();
	}
	if (g.boolean()) {
		while (t.size() % 4 != 0) {
			t += '=';
		}
	}
	g.say([&] {
		return "text=" + t;
	});
	pbt::exact<char> e{std::string_view(t)};
	CHECK_EQ(utki::base64_decode(std::string_view(e.data(), e.size())), expected, " text ", t);
}

PROPERTY("malformed_is_contained", 2)
{
	std::string t;
	auto n = g.large(40, 1200);
	bool odd = false;
	for (size_t i = 0; i != n; ++i) {
		switch (g.weighted({6, 2, 2})) {
			case 0:
				t += alphabet[g.choice(63)];
				break;
			case 1:
				t += '=';
				odd = odd || i + 2 < n;
				break;
			default:
				t += char(g.byte());
				odd = true;
				break;
		}
	}
	if (odd || n % 4 == 1) {
		g.nontrivial();
	}
	g.label(n % 4 == 1 ? "impossible length" : "other length");
	g.say([&] {
		return "text=" + pbt::quote(t);
	});
	pbt::exact<char> e{std::string_view(t)};
	std::vector<uint8_t> d[2];
	bool rejected[2] = {};
	for (unsigned k = 0; k != 2; ++k) {
		try {
			d[k] = utki::base64_decode(std::string_view(e.data(), e.size()));
		} catch (const std::invalid_argument&) {
			rejected[k] = true;
		}
	}
	CHECK_EQ(rejected[0], rejected[1]);
	CHECK_EQ(d[0], d[1]);
	CHECK(d[0].size() <= (n + 3) / 4 * 3);
	CHECK_EQ(std::string_view(e.data(), e.size()), std::string_view(t));
	g.label(rejected[0] ? "rejected" : "accepted");
}

PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(20, 60);
	auto m = g.many();
	bool pad = g.boolean();
	g.say([&] {
		return pbt::cat(n, " bytes", pad ? "" : ", no padding");
	});
	if (n > 200) {
		g.nontrivial();
		g.label(n > 60000 ? "more than 60000 bytes" : "more than 200 bytes");
	}
	std::vector<uint8_t> b(n);
	for (auto& x : b) {
		x = uint8_t(m.next());
	}
	auto t = encode(b, pad);
	pbt::exact<char> e{std::string_view(t)};
	auto d = utki::base64_decode(std::string_view(e.data(), e.size()));
	CHECK_EQ(d.size(), n);
	CHECK(d == b, "decoded ", n, " bytes differ");
}
