// C02: UTF-32 -> UTF-8 -> UTF-32 is lossless, the UTF-8 is well-formed, all entry points agree.
#include "utf8_ref.hpp"

#include <utki/unicode.hpp>

const char* const pbt::rule = "at least one character of the case needs more than one byte";

namespace {
std::u32string by_iterator(utki::utf8_iterator i)
{
	std::u32string ret;
	for (; !i.is_end(); ++i) {
		ret += i.character();
	}
	return ret;
}

std::vector<uint32_t> v(std::u32string_view s)
{
	return {s.begin(), s.end()};
}
} // namespace

PROPERTY("single_character", 2)
{
	auto c = ref::character(g);
	auto expected = ref::encode(c);
	g.say([&] {
		return pbt::cat("character ", uint32_t(c), " expected bytes ", pbt::hex(expected.data(), expected.size()));
	});
	if (expected.size() > 1) {
		g.nontrivial();
	}
	g.label(("length " + std::to_string(expected.size())).c_str());
	auto a = utki::to_utf8(c);
	static_assert(std::tuple_size_v<decltype(a)> == 7);
	CHECK(std::find(a.begin(), a.end(), '\0') != a.end());
	CHECK_EQ(std::string(a.data()), expected);
	CHECK_EQ(v(utki::to_utf32(a.data())), std::vector<uint32_t>{uint32_t(c)});
	utki::utf8_iterator i(a.data());
	CHECK(!i.is_end());
	CHECK_EQ(uint32_t(i.character()), uint32_t(c));
	++i;
	CHECK(i.is_end());
}

// all the characters of a block, so that over many cases every character of the lower planes is seen
PROPERTY("block", 1)
{
	const uint32_t size = 256;
	uint32_t block = g.chance(1, 3) ? uint32_t(g.choice(0x7fffffff / size)) : uint32_t(g.choice(0x110000 / size));
	g.say([&] {
		return pbt::cat("characters from ", block * size);
	});
	g.nontrivial();
	std::u32string s;
	std::string expected;
	for (uint32_t c = block * size; c != (block + 1) * size; ++c) {
		if (c == 0) {
			continue;
		}
		auto one = ref::encode_fast(char32_t(c));
		auto a = utki::to_utf8(char32_t(c));
		CHECK_EQ(std::string(a.data()), one, "character ", c);
		s += char32_t(c);
		expected += one;
	}
	CHECK(ref::encode(s.back()) == ref::encode_fast(s.back()), "reference encoders differ");
	CHECK_EQ(utki::to_utf8(s), expected);
	CHECK_EQ(v(utki::to_utf32(std::string_view(expected))), v(s));
	CHECK_EQ(v(utki::to_utf32(expected.c_str())), v(s));
}

PROPERTY("string", 3)
{
	auto n = g.size(g.chance(1, 40) ? 1500 : 60);
	std::u32string s;
	std::string expected;
	bool ascii = g.chance(1, 6);
	for (size_t i = 0; i != n; ++i) {
		s += ascii ? char32_t(1 + g.choice(0x7e)) : ref::character(g);
		expected += ref::encode(s.back());
	}
	if (n != 0 && g.chance(1, 100)) { // very long
		auto reps = 1 + g.choice(70000 / n);
		auto s1 = s;
		auto e1 = expected;
		for (size_t i = 1; i < reps; ++i) {
			s += s1;
			expected += e1;
		}
		n = s.size();
	}
	if (expected.size() != s.size()) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("characters ", v(s), " bytes ", pbt::hex(expected.data(), expected.size()));
	});
	pbt::exact<char32_t> e{std::u32string_view(s)};
	auto u = utki::to_utf8(utki::make_span(static_cast<const char32_t*>(e.data()), e.size()));
	CHECK_EQ(u, expected);
	CHECK_EQ(utki::to_utf8(s), expected);

	auto chars = v(s);
	pbt::exact<char> b{std::string_view(expected)};
	auto b8 = reinterpret_cast<const uint8_t*>(b.data());
	CHECK_EQ(v(utki::to_utf32(std::string_view(b.data(), b.size()))), chars, "string_view");
	CHECK_EQ(v(utki::to_utf32(utki::make_span(static_cast<const char*>(b.data()), b.size()))), chars, "span of char");
	CHECK_EQ(v(utki::to_utf32(utki::make_span(b8, b.size()))), chars, "span of bytes");
	CHECK_EQ(v(utki::to_utf32(expected)), chars, "std::string");
	pbt::exact<char> z(expected.c_str(), expected.size() + 1);
	CHECK_EQ(v(utki::to_utf32(static_cast<const char*>(z.data()))), chars, "zero-terminated");
	CHECK_EQ(v(by_iterator(utki::utf8_iterator(std::string_view(b.data(), b.size())))), chars, "iterator over view");
	CHECK_EQ(v(by_iterator(utki::utf8_iterator(utki::make_span(b8, b.size())))), chars, "iterator over span");
	CHECK_EQ(v(by_iterator(utki::utf8_iterator(static_cast<const char*>(z.data())))), chars, "iterator over zero-terminated");
	CHECK_EQ(v(utki::to_utf32(utki::utf8_iterator(utki::make_span(b8, b.size())))), chars, "from iterator");

	// conversion from an iterator in the middle gives the rest
	if (n != 0) {
		auto k = size_t(g.choice(n));
		utki::utf8_iterator i(std::string_view(b.data(), b.size()));
		for (size_t j = 0; j != k; ++j) {
			CHECK(!i.is_end());
			++i;
		}
		auto copy = i;
		CHECK_EQ(v(utki::to_utf32(i)), v(std::u32string_view(s).substr(k)));
		CHECK_EQ(v(by_iterator(copy)), v(std::u32string_view(s).substr(k)));
	}
}

// texts of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(17, 60);
	auto m = g.many();
	// which characters there are: any, or those of one length only
	auto kind = g.choice(4);
	g.say([&] {
		return pbt::cat(n, " characters of kind ", kind);
	});
	if (n > 300) {
		g.nontrivial();
		g.label(n > 20000 ? "more than 20000 characters" : "more than 300 characters");
	}
	std::u32string s;
	std::string expected;
	for (size_t i = 0; i != n; ++i) {
		uint32_t c;
		switch (kind == 4 ? m.below(4) : kind) {
			case 0:
				c = uint32_t(1 + m.below(0x7f));
				break;
			case 1:
				c = uint32_t(0x80 + m.below(0x780));
				break;
			case 2:
				c = uint32_t(0x800 + m.below(0xd000));
				break;
			default:
				c = uint32_t(0x10000 + m.below(0x100000));
				break;
		}
		s += char32_t(c);
		expected += ref::encode(char32_t(c));
	}
	CHECK(utki::to_utf8(s) == expected, "encoded text of ", n, " characters differs");
	pbt::exact<char> b{std::string_view(expected)};
	CHECK(utki::to_utf32(std::string_view(b.data(), b.size())) == s, "decoded text of ", n, " characters differs");
	pbt::exact<char> z{std::string_view(expected.c_str(), expected.size() + 1)};
	CHECK(utki::to_utf32(static_cast<const char*>(z.data())) == s, "decoded zero-terminated text of ", n, " characters differs");
}
