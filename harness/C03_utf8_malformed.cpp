// C03: decoding of arbitrary bytes as UTF-8 terminates and stays within the input.
#include "utf8_ref.hpp"

#include <utki/unicode.hpp>

const char* const pbt::rule = "the bytes are not well-formed UTF-8 (stray, missing or truncated continuation, illegal lead byte)";

namespace {
std::vector<uint32_t> v(std::u32string_view s)
{
	return {s.begin(), s.end()};
}

std::vector<uint32_t> walk(pbt::gen& g, utki::utf8_iterator i, size_t limit)
{
	std::vector<uint32_t> ret;
	for (; !i.is_end(); ++i) {
		ret.push_back(uint32_t(i.character()));
		CHECK(ret.size() <= limit, "more characters than bytes");
	}
	return ret;
}

struct results {
	std::vector<uint32_t> sized;
	std::vector<uint32_t> terminated;
};

results decode(pbt::gen& g, const std::string& s)
{
	results r;
	pbt::exact<char> b{std::string_view(s)};
	pbt::exact<char> z(s.c_str(), s.size() + 1);
	auto b8 = utki::make_span(reinterpret_cast<const uint8_t*>(b.data()), b.size());
	r.sized = walk(g, utki::utf8_iterator(b8), s.size());
	CHECK_EQ(walk(g, utki::utf8_iterator(std::string_view(b.data(), b.size())), s.size()), r.sized);
	CHECK_EQ(v(utki::to_utf32(b8)), r.sized);
	CHECK_EQ(v(utki::to_utf32(std::string_view(b.data(), b.size()))), r.sized);
	CHECK_EQ(v(utki::to_utf32(utki::make_span(static_cast<const char*>(b.data()), b.size()))), r.sized);

	r.terminated = walk(g, utki::utf8_iterator(static_cast<const char*>(z.data())), s.size());
	CHECK_EQ(v(utki::to_utf32(static_cast<const char*>(z.data()))), r.terminated);
	{
		std::string copy = s;
		copy.shrink_to_fit();
		CHECK_EQ(v(utki::to_utf32(copy)), r.terminated);
	}
	CHECK_EQ(std::string_view(b.data(), b.size()), std::string_view(s));
	return r;
}

std::string well_formed(pbt::gen& g, std::vector<uint32_t>& chars, size_t max)
{
	std::string s;
	auto n = g.size(max);
	for (size_t i = 0; i != n; ++i) {
		auto c = ref::character(g);
		chars.push_back(uint32_t(c));
		s += ref::encode(c);
	}
	return s;
}
} // namespace

PROPERTY("truncated", 2)
{
	std::vector<uint32_t> chars;
	auto s = well_formed(g, chars, 12);
	auto c = ref::character(g);
	auto e = ref::encode(c);
	auto keep = size_t(g.choice(e.size() - 1));
	s += e.substr(0, keep);
	if (keep != 0) {
		g.nontrivial();
	}
	g.say([&] {
		return "bytes " + pbt::hex(s.data(), s.size());
	});
	auto r = decode(g, s);
	CHECK_EQ(r.sized, chars);
	CHECK_EQ(r.terminated, chars);
}

PROPERTY("prefix_then_garbage", 3)
{
	std::vector<uint32_t> chars;
	auto s = well_formed(g, chars, 10);
	auto n = 1 + g.large(24, 400);
	for (size_t i = 0; i != n; ++i) {
		uint8_t b;
		switch (g.choice(4)) {
			case 0:
				b = uint8_t(0x80 | g.choice(0x3f));
				break;
			case 1:
				b = uint8_t(0xc0 | g.choice(0x3f));
				break;
			case 2:
				b = uint8_t(0xf0 | g.choice(0xf));
				break;
			case 3:
				b = uint8_t(g.choice(0x7f));
				break;
			default:
				b = g.byte();
				break;
		}
		s += char(b);
	}
	g.nontrivial();
	g.say([&] {
		return "bytes " + pbt::hex(s.data(), s.size());
	});
	auto r = decode(g, s);
	auto begins_with = [&](const std::vector<uint32_t>& w) {
		return w.size() >= chars.size() && std::equal(chars.begin(), chars.end(), w.begin());
	};
	CHECK(begins_with(r.sized), "well-formed prefix ", chars, " got ", r.sized);
	CHECK(begins_with(r.terminated), "well-formed prefix ", chars, " got ", r.terminated);
	if (s.find('\0') == std::string::npos) {
		CHECK_EQ(r.sized, r.terminated);
	}
}

PROPERTY("arbitrary_bytes", 2)
{
	auto b = g.bytes(100);
	std::string s(b.begin(), b.end());
	if (std::any_of(s.begin(), s.end(), [](char c) { return c < 0; })) {
		g.nontrivial();
	}
	g.say([&] {
		return "bytes " + pbt::hex(s.data(), s.size());
	});
	auto r = decode(g, s);
	if (s.find('\0') == std::string::npos) {
		CHECK_EQ(r.sized, r.terminated);
	}
	// bytes after the last one which was used do not matter: decoding is local
	auto t = s.substr(0, g.choice(s.size()));
	auto rt = decode(g, t);
	CHECK(rt.sized.size() <= r.sized.size());
	CHECK(std::equal(rt.sized.begin(), rt.sized.end(), r.sized.begin()), "of prefix ", rt.sized, " of all ", r.sized);
}

PROPERTY("empty_and_null", 1)
{
	g.say([] {
		return std::string("empty inputs");
	});
	CHECK(utki::utf8_iterator().is_end());
	CHECK(utki::utf8_iterator(utki::span<const uint8_t>()).is_end());
	CHECK(utki::utf8_iterator(std::string_view()).is_end());
	CHECK(utki::utf8_iterator("").is_end());
	CHECK(utki::to_utf32(std::string_view()).empty());
	CHECK(utki::to_utf32("").empty());
	CHECK(utki::to_utf32(std::string()).empty());
	CHECK(utki::to_utf8(std::u32string()).empty());
}
