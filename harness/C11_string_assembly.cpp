// C11: trim, affix tests, assembly and conversion of strings
#include "num_ref.hpp"

#include <new>
#include <stdexcept>

#include <utki/string.hpp>

const char* const pbt::rule =
	"trim: the text has both spaces and other characters; affix: neither text nor affix is empty; assembly: at least two non-empty pieces";

// Big requests fail at once, so that also sizes which are not meant to be allocated can be asked for.
void* operator new(size_t n)
{
	if (n > (size_t(1) << 29)) {
		throw std::bad_alloc();
	}
	void* p = malloc(n ? n : 1);
	if (!p) {
		throw std::bad_alloc();
	}
	return p;
}

void operator delete(void* p) noexcept
{
	free(p);
}

void operator delete(void* p, size_t) noexcept
{
	free(p);
}

namespace {
template <class C>
bool sp(C c)
{
	return c == C(' ') || (c >= C('\t') && c <= C('\r'));
}

template <class C>
void trim(pbt::gen& g)
{
	std::basic_string<C> s;
	auto n = g.large(60, 5000, 200);
	for (size_t i = 0; i != n; ++i) {
		switch (g.choice(3)) {
			case 0:
			case 1:
				s += C(g.pick<char>({' ', '\t', '\n', '\r', '\v', '\f'}));
				break;
			case 2:
				s += C('a' + g.choice(25));
				break;
			default:
				// any 8 bit character for char, any ASCII for wide
				s += sizeof(C) == 1 ? C(g.byte()) : C(g.choice(0x7f));
				break;
		}
	}
	g.say([&] {
		return "text " + pbt::str(std::vector<uint32_t>(s.begin(), s.end()));
	});
	size_t b = 0;
	while (b != s.size() && sp(s[b])) {
		++b;
	}
	size_t e = s.size();
	while (e != 0 && sp(s[e - 1])) {
		--e;
	}
	if (b != s.size() && (b != 0 || e != s.size())) {
		g.nontrivial();
	}
	pbt::exact<C> x{std::basic_string_view<C>(s)};
	std::basic_string_view<C> v(x.data(), x.size());
	auto check = [&](std::basic_string_view<C> r, size_t from, size_t to, const C* base, const char* what) {
		CHECK(r == std::basic_string_view<C>(s).substr(from, to - from), what);
		// the result is a part of the given text
		CHECK(r.empty() || r.data() == base + from, what);
	};
	auto b2 = std::min(b, s.size());
	check(utki::trim_front(v), b2, s.size(), x.data(), "trim_front of view");
	check(utki::trim_back(v), 0, e, x.data(), "trim_back of view");
	check(utki::trim(v), std::min(b2, e), e, x.data(), "trim of view");
	check(utki::trim_front(s), b2, s.size(), s.data(), "trim_front of string");
	check(utki::trim_back(s), 0, e, s.data(), "trim_back of string");
	check(utki::trim(s), std::min(b2, e), e, s.data(), "trim of string");
	if constexpr (sizeof(C) == 1) {
		if (s.find(C(0)) == std::basic_string<C>::npos) {
			pbt::exact<C> z(s.c_str(), s.size() + 1);
			auto zp = static_cast<const C*>(z.data());
			check(utki::trim_front(zp), b2, s.size(), zp, "trim_front of zero-terminated");
			check(utki::trim_back(zp), 0, e, zp, "trim_back of zero-terminated");
			check(utki::trim(zp), std::min(b2, e), e, zp, "trim of zero-terminated");
		}
	}
}
} // namespace

PROPERTY("trim", 3)
{
	if (g.chance(1, 4)) {
		trim<wchar_t>(g);
	} else {
		trim<char>(g);
	}
}

PROPERTY("affix", 4)
{
	auto alphabet = g.pick<std::string_view>({"a", "ab", "abc", std::string_view("a\0", 2)});
	auto s = g.text(24, alphabet);
	std::string a;
	switch (g.choice(4)) {
		case 0:
			a = g.text(8, alphabet);
			break;
		case 1:
			a = s.substr(0, g.choice(s.size()));
			break;
		case 2:
			a = s.substr(g.choice(s.size()));
			break;
		case 3:
			// almost
			a = s.substr(g.choice(s.size()));
			if (!a.empty()) {
				a[g.choice(a.size() - 1)] = 'z';
			}
			break;
		default:
			a = s + alphabet[0];
			break;
	}
	if (!s.empty() && !a.empty()) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("text ", s, " affix ", a);
	});
	bool starts = a.size() <= s.size();
	for (size_t i = 0; starts && i != a.size(); ++i) {
		starts = s[i] == a[i];
	}
	bool ends = a.size() <= s.size();
	for (size_t i = 0; ends && i != a.size(); ++i) {
		ends = s[s.size() - 1 - i] == a[a.size() - 1 - i];
	}
	g.label(starts ? "starts" : "does not start");
	g.label(ends ? "ends" : "does not end");
	pbt::exact<char> es{std::string_view(s)};
	pbt::exact<char> ea{std::string_view(a)};
	CHECK_EQ(utki::starts_with(std::string_view(es.data(), es.size()), std::string_view(ea.data(), ea.size())), starts, " ", s, " ", a);
	CHECK_EQ(utki::ends_with(std::string_view(es.data(), es.size()), std::string_view(ea.data(), ea.size())), ends, " ", s, " ", a);
}

PROPERTY("cat", 2)
{
	auto a = g.text(20, std::string_view("xyz \0\n%", 7));
	auto b = g.text(20, std::string_view("123\0", 4));
	auto i = g.integer<int64_t>();
	auto u = g.integer<uint16_t>();
	char c = char(g.byte());
	if (!a.empty() && !b.empty()) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("pieces ", a, " ", b, " ", i, " ", u, " ", c);
	});
	auto is = std::to_string(i);
	auto us = std::to_string(u);
	CHECK_EQ(utki::cat(), std::string());
	CHECK_EQ(utki::cat(a), a);
	CHECK_EQ(utki::cat(a, b), a + b);
	CHECK_EQ(utki::cat(std::string_view(b), i, a), b + is + a);
	CHECK_EQ(utki::cat(c, u, c, "lit", i), std::string(1, c) + us + std::string(1, c) + "lit" + is);
	CHECK_EQ(utki::cat("", a, std::string_view(), b, c, true), a + b + std::string(1, c) + "1");
	CHECK_EQ(utki::cat(i, ' ', u, ' ', a, b, a, b), is + " " + us + " " + a + b + a + b);
}

PROPERTY("conversion", 2)
{
	auto b = g.bytes(80);
	std::string s(b.begin(), b.end());
	std::vector<char> cv(b.begin(), b.end());
	if (b.size() > 1) {
		g.nontrivial();
	}
	g.say([&] {
		return "bytes " + pbt::hex(b.data(), b.size());
	});
	pbt::exact<uint8_t> eb(b);
	pbt::exact<char> ec(cv);
	auto sb = utki::make_span(static_cast<const uint8_t*>(eb.data()), eb.size());
	auto sc = utki::make_span(static_cast<const char*>(ec.data()), ec.size());
	CHECK_EQ(utki::make_string(sb), s);
	CHECK_EQ(utki::make_string(sc), s);
	CHECK_EQ(utki::make_string(b), s);
	CHECK_EQ(utki::make_string(cv), s);
	auto vb = utki::make_string_view(sb);
	auto vc = utki::make_string_view(sc);
	CHECK_EQ(std::string(vb), s);
	CHECK_EQ(std::string(vc), s);
	CHECK(b.empty() || (vb.data() == reinterpret_cast<const char*>(eb.data()) && vc.data() == ec.data()), "view is elsewhere");
	std::array<char, 7> ac{};
	std::array<uint8_t, 9> ab{};
	std::copy_n(b.begin(), std::min<size_t>(b.size(), 7), ac.begin());
	std::copy_n(b.begin(), std::min<size_t>(b.size(), 9), ab.begin());
	CHECK_EQ(utki::make_string(ac), std::string(ac.begin(), ac.end()));
	CHECK_EQ(utki::make_string(ab), std::string(ab.begin(), ab.end()));
	CHECK_EQ(utki::make_string(utki::span<const char>()), std::string());
	CHECK_EQ(utki::make_string(utki::span<const uint8_t>()), std::string());
	CHECK_EQ(utki::make_string_view(utki::span<const uint8_t>()).size(), size_t(0));
}

PROPERTY("indentation", 2)
{
	if (g.chance(3, 4)) {
		auto depth = unsigned(g.size(300));
		auto size = unsigned(g.size(60));
		if (depth != 0) {
			g.nontrivial();
		}
		g.say([&] {
			return pbt::cat("depth ", depth, " size ", size);
		});
		auto expected = size == 0 ? std::string(depth, '\t') : std::string(size_t(depth) * size, ' ');
		CHECK_EQ(utki::make_indentation(depth, size), expected);
		if (size == 0) {
			CHECK_EQ(utki::make_indentation(depth), expected);
		}
	} else {
		// more characters than fit 32 bits: cannot be allocated here, but it must not be a shorter text either
		auto size = unsigned(1) << (1 + g.choice(30));
		auto depth = unsigned((uint64_t(1) << 32) / size) + unsigned(g.choice(3));
		if (uint64_t(depth) * size < (uint64_t(1) << 32)) {
			return;
		}
		size += unsigned(g.choice(2));
		g.nontrivial();
		g.label("huge indentation");
		g.say([&] {
			return pbt::cat("depth ", depth, " size ", size);
		});
		try {
			auto s = utki::make_indentation(depth, size);
			CHECK_EQ(s.size(), size_t(depth) * size);
		} catch (const std::bad_alloc&) {
		} catch (const std::length_error&) {
		}
	}
}

// texts of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto front = g.wide(17, 40);
	auto n = 1 + g.wide(17, 40);
	auto back = g.wide(17, 40);
	g.say([&] {
		return pbt::cat(front, " spaces, ", n, " characters, ", back, " spaces");
	});
	if (front + n + back > 5000) {
		g.nontrivial();
		g.label(front + n + back > 65535 ? "more than 65535 characters" : "more than 5000 characters");
	}
	auto space = g.pick<char>({' ', '\t', '\n'});
	std::string body(n, 'x');
	auto s = std::string(front, space) + body + std::string(back, space);
	pbt::exact<char> x{std::string_view(s)};
	std::string_view v(x.data(), x.size());
	auto check = [&](std::string_view r, size_t from, size_t to, const char* what) {
		CHECK(r.data() == v.data() + from && r.size() == to - from, what, " gives ", r.size(), " of ", v.size());
	};
	check(utki::trim_front(v), front, v.size(), "trim_front");
	check(utki::trim_back(v), 0, front + n, "trim_back");
	check(utki::trim(v), front, front + n, "trim");
	CHECK(utki::starts_with(v, v.substr(0, front + n)), "starts_with");
	CHECK(utki::ends_with(v, v.substr(front)), "ends_with");
	auto other = s;
	auto at = size_t(g.choice(s.size() - 1));
	other[at] = '!';
	CHECK(!utki::starts_with(std::string_view(other), v), "starts_with other at ", at);
	CHECK(!utki::ends_with(std::string_view(other), v), "ends_with other at ", at);
	CHECK(utki::cat(s, 1, s) == s + "1" + s, "cat");
	CHECK(utki::make_string(utki::make_span(v)) == s, "make_string");
}

// text which is larger than 32 bits can tell
PROPERTY("huge", 1)
{
	pbt::huge h;
	if (!h) {
		return;
	}
	auto n = h.size(g);
	auto front = size_t(g.choice(5));
	auto back = size_t(g.choice(5));
	for (size_t i = 0; i != front; ++i) {
		h.mark(i, ' ');
	}
	for (size_t i = 0; i != back; ++i) {
		h.mark(n - 1 - i, '\t');
	}
	g.say([&] {
		return pbt::cat(n, " characters, ", front, " spaces in front, ", back, " tabulators behind");
	});
	if (n >> 32) {
		g.nontrivial();
		g.label("more than 4 gigabytes");
	}
	auto b = reinterpret_cast<const char*>(h.data());
	std::string_view v(b, n);
	auto check = [&](std::string_view s, size_t from, size_t to, const char* what) {
		CHECK(s.data() == b + from && s.size() == to - from, what, " from ", s.data() - b, " size ", s.size());
	};
	check(utki::trim_front(v), front, n, "trim_front");
	check(utki::trim_back(v), 0, n - back, "trim_back");
	check(utki::trim(v), front, n - back, "trim");
	auto k = h.up_to(g, n);
	// texts which are compared completely are not too long
	if (k < 100) {
		CHECK(utki::starts_with(v, v.substr(0, k)), "starts with its first ", k);
		CHECK(utki::ends_with(v, v.substr(n - k)), "ends with its last ", k);
	}
	CHECK(!utki::starts_with(v.substr(0, k), std::string_view(b, n + 1 + size_t(g.choice(3)))), "shorter than the prefix");
	CHECK(!utki::ends_with(v.substr(0, k), std::string_view(b, n + 1 + size_t(g.choice(3)))), "shorter than the suffix");
	h.mark(0, 'p');
	CHECK(!utki::starts_with(v, std::string_view("x")), "x");
	CHECK(utki::starts_with(v, std::string_view("p")), "p");
	h.mark(n - 1, 'q');
	CHECK(utki::ends_with(v, std::string_view("q")), "q");
	CHECK(!utki::ends_with(v, std::string_view("y")), "y");
}
