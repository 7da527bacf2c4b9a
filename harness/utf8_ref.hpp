#pragma once
#include "pbt.hpp"

#include <iterator>
#include <string>

namespace ref {

// reference encoder, bit by bit from the definition of UTF-8 (up to 6 bytes)
inline std::string encode(char32_t c)
{
	std::string bits;
	for (char32_t v = c; v != 0; v >>= 1) {
		bits.insert(bits.begin(), char('0' + (v & 1)));
	}
	if (bits.size() <= 7) {
		return std::string(1, char(c));
	}
	unsigned n = 2;
	// n bytes carry 6 * (n - 1) + (7 - n) bits
	while (6 * (n - 1) + (7 - n) < bits.size()) {
		++n;
	}
	bits.insert(0, 6 * (n - 1) + (7 - n) - bits.size(), '0');
	std::string ret;
	std::string first = std::string(n, '1') + "0" + bits.substr(0, 7 - n);
	auto to_byte = [](const std::string& b) {
		unsigned v = 0;
		for (auto ch : b) {
			v = v * 2 + unsigned(ch - '0');
		}
		return char(uint8_t(v));
	};
	ret += to_byte(first);
	for (unsigned i = 0; i != n - 1; ++i) {
		ret += to_byte("10" + bits.substr(7 - n + 6 * i, 6));
	}
	return ret;
}

// the same by arithmetics
inline std::string encode_fast(char32_t c)
{
	if (c < 0x80) {
		return std::string(1, char(c));
	}
	std::string ret;
	uint32_t rest = c;
	uint32_t lead_payload = 0x3f; // largest payload of the lead byte, when followed by what is in ret
	while (rest > lead_payload || ret.empty()) {
		ret.insert(ret.begin(), char(uint8_t(0x80 | (rest & 0x3f))));
		rest >>= 6;
		lead_payload >>= 1;
	}
	uint32_t mark = (0xff00u >> (ret.size() + 1)) & 0xff;
	ret.insert(ret.begin(), char(uint8_t(mark | rest)));
	return ret;
}

// non-zero character code, all encoded lengths are equally likely, borders are likely
inline char32_t character(pbt::gen& g)
{
	static const uint32_t border[] = {0x1, 0x80, 0x800, 0x10000, 0x200000, 0x4000000, 0x80000000};
	auto k = size_t(g.choice(5));
	auto lo = border[k];
	auto hi = border[k + 1] - 1;
	switch (g.choice(5)) {
		case 4:
			{
				// characters which other software treats specially
				static const uint32_t special[] = {
					0xfeff,   0xfffe, 0xffff, 0xfffd, 0xd800, 0xdbff, 0xdc00,   0xdfff,   0xe000,  0x10ffff, 0x110000,
					0xe9,     0xa0,   0x85,   0x2028, 0x2029, 0x3000, 0x1f600,  0x7fff,   0x8000,  0xbfff,   0xc0,
					0xff,     0x100,  0x7f,   '\n',   '\r',   '\t',   '\\',     '?',      0x1b,    0x4000,   0xc000,
					0xfdd0,   0xf8ff, 0x20ac, 0x301,  0x200d, 0xe0001, 0x1fffff, 0x3ffffff, 0x7fffffff
				};
				return char32_t(special[g.choice(std::size(special) - 1)]);
			}
		case 0:
			return char32_t(lo + std::min<uint32_t>(uint32_t(g.choice(3)), hi - lo));
		case 1:
			return char32_t(hi - uint32_t(g.choice(3)));
		case 2:
			{
				// sparse bits
				auto v = (uint32_t(1) << g.choice(30)) | (uint32_t(1) << g.choice(30));
				return char32_t(v);
			}
		default:
			return char32_t(g.range<uint32_t>(lo, hi));
	}
}

} // namespace ref
