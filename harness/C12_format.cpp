// C12: printf-like formatting is complete at every length
#include "pbt.hpp"

#include <cstdarg>

#include <utki/string.hpp>

const char* const pbt::rule = "the result is longer than 200 characters or has at least two conversions";

namespace {
__attribute__((noinline)) std::string reference(const char* format, ...)
{
	va_list a;
	va_start(a, format);
	va_list b;
	va_copy(b, a);
	int n = vsnprintf(nullptr, 0, format, a);
	va_end(a);
	std::vector<char> buf(size_t(n) + 1);
	vsnprintf(buf.data(), buf.size(), format, b);
	va_end(b);
	return std::string(buf.data(), size_t(n));
}

__attribute__((noinline)) std::string via_list(const char* format, ...)
{
	va_list a;
	va_start(a, format);
	auto r = utki::make_string_va_list(format, a);
	va_end(a);
	return r;
}

// literal text for format, no conversions
std::string literal(pbt::gen& g, size_t n)
{
	std::string s;
	char c = char('a' + g.choice(25));
	for (size_t i = 0; i != n; ++i) {
		s += i % 17 == 3 ? '\n' : c;
	}
	if (g.chance(1, 6)) {
		s += "%%";
	}
	return s;
}

size_t length(pbt::gen& g)
{
	switch (g.choice(5)) {
		case 0:
			return size_t(g.choice(20));
		case 1:
			{
				// around powers of two
				auto n = size_t(1) << (6 + g.choice(8));
				return n + size_t(g.choice(8)) - 4;
			}
		case 2:
			return 1016 + size_t(g.choice(16));
		case 3:
			return size_t(g.choice(1200));
		case 4:
			return 1024 * (1 + size_t(g.choice(8))) + size_t(g.choice(6)) - 3;
		default:
			return size_t(g.choice(5000));
	}
}

std::string spec(pbt::gen& g, std::string_view convs, const char* mod, bool precision)
{
	std::string s = "%";
	if (g.chance(1, 4)) {
		s += '-';
	} else if (g.chance(1, 4)) {
		s += convs == "s" ? ' ' : '0';
		if (convs == "s") {
			s.pop_back();
		}
	}
	if (g.chance(1, 3)) {
		s += std::to_string(1 + g.choice(g.chance(1, 5) ? 1100 : 20));
	}
	if (precision && g.chance(1, 3)) {
		s += "." + std::to_string(g.choice(30));
	}
	s += mod;
	s += convs[g.choice(convs.size() - 1)];
	return s;
}

std::string text(pbt::gen& g, size_t n)
{
	std::string s;
	s.resize(n);
	auto base = g.choice(94);
	for (size_t i = 0; i != n; ++i) {
		s[i] = char('!' + (base + i * 7 + i / 94) % 94);
	}
	return s;
}
} // namespace

#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"

PROPERTY("exact_length", 3)
{
	// one string of a chosen length, results of each length around buffer sizes
	auto n = length(g);
	auto s = text(g, n);
	if (n > 200) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("%s of ", n, " characters");
	});
	CHECK_EQ(utki::make_string("%s", s.c_str()), s);
	CHECK_EQ(via_list("%s", s.c_str()), s);
	CHECK_EQ(utki::make_string("%s%d", s.c_str(), int(n)), s + std::to_string(n));
	CHECK_EQ(utki::make_string("%*s", int(n), "x"), std::string(n > 1 ? n - 1 : 0, ' ') + "x");
	if (s.find('%') == std::string::npos) {
		CHECK_EQ(utki::make_string(s.c_str()), s);
	}
}

PROPERTY("formats", 4)
{
	// sequence of calls; argument types are in fixed order, everything else is generated
	auto calls = 1 + g.choice(3);
	for (size_t k = 0; k != calls; ++k) {
		std::string f = literal(g, g.boolean() ? g.choice(10) : length(g));
		unsigned nc = unsigned(g.choice(5));
		auto s = text(g, g.boolean() ? size_t(g.choice(10)) : length(g));
		auto i = g.integer<int>();
		auto ll = g.integer<long long>();
		double d = double(g.integer<int64_t>()) / double(1 + g.choice(1000));
		char c = char(g.byte());
		if (nc > 0) {
			f += spec(g, "s", "", true) + literal(g, g.choice(5));
		}
		if (nc > 1) {
			f += spec(g, "dxXou", "", true) + literal(g, g.choice(5));
		}
		if (nc > 2) {
			f += spec(g, "feg", "", true) + literal(g, g.choice(5));
		}
		if (nc > 3) {
			f += spec(g, "dxou", "ll", true) + literal(g, g.choice(5));
		}
		if (nc > 4) {
			f += "%c" + literal(g, g.choice(5));
		}
		g.say([&] {
			return pbt::cat("format ", f, " string ", s.size(), " characters, ", i, " ", d, " ", ll, " ", c);
		});
		auto expected = reference(f.c_str(), s.c_str(), i, d, ll, int(c));
		if (expected.size() > 200 || nc > 1) {
			g.nontrivial();
		}
		g.label(expected.size() >= 1024 ? "long" : "short");
		CHECK_EQ(utki::make_string(f.c_str(), s.c_str(), i, d, ll, int(c)), expected, " format ", f);
		CHECK_EQ(via_list(f.c_str(), s.c_str(), i, d, ll, int(c)), expected, " format ", f);
	}
}
