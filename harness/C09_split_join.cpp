// C09: split and join
#include "num_ref.hpp"

#include <deque>
#include <list>

#include <utki/string.hpp>

const char* const pbt::rule = "at least one delimiter (or space) and at least one other character in the text";

namespace {
template <class C>
std::basic_string<C> make_text(pbt::gen& g, C delim, size_t max)
{
	std::basic_string<C> s;
	auto n = g.large(max, 2000, 300);
	for (size_t i = 0; i != n; ++i) {
		switch (g.choice(4)) {
			case 0:
				s += delim;
				break;
			case 1:
				s += C('a' + g.choice(2));
				break;
			case 2:
				s += C(' ');
				break;
			case 3:
				// any character, also zero
				s += C(g.bits(sizeof(C) * 8 < 31 ? sizeof(C) * 8 : 31));
				if constexpr (std::is_same_v<C, char16_t>) {
					// U+FFFF is not a character, std::char_traits uses it for eof() and streams replace it
					if (s.back() == 0xffff) {
						s.back() = 0xfffe;
					}
				}
				break;
			default:
				s += C('0' + g.choice(9));
				break;
		}
	}
	return s;
}

template <class C>
std::string show(const std::basic_string<C>& s)
{
	return pbt::str(std::vector<uint32_t>(s.begin(), s.end()));
}

template <class C>
std::vector<std::basic_string<C>> ref_split(const std::basic_string<C>& s, C d)
{
	std::vector<std::basic_string<C>> ret(1);
	for (auto c : s) {
		if (c == d) {
			ret.emplace_back();
		} else {
			ret.back() += c;
		}
	}
	return ret;
}

template <class C>
std::basic_string<C> ref_join(const std::vector<std::basic_string<C>>& v, C d)
{
	std::basic_string<C> ret;
	for (size_t i = 0; i != v.size(); ++i) {
		if (i != 0) {
			ret += d;
		}
		ret += v[i];
	}
	return ret;
}

template <class C>
void split_join(pbt::gen& g)
{
	C d = g.chance(1, 6) ? C(g.bits(7)) : C(g.pick<char>({',', ' ', '\n', 'a', ';'}));
	if (g.chance(1, 12)) {
		// not the value std::char_traits uses for eof()
		d = std::numeric_limits<C>::max() - (std::is_same_v<C, char> ? 0 : 1);
	}
	auto s = make_text<C>(g, d, 120);
	g.say([&] {
		return "delimiter " + std::to_string(uint32_t(d)) + " text " + show(s);
	});
	auto expected = ref_split(s, d);
	if (expected.size() > 1 && s.size() > expected.size() - 1) {
		g.nontrivial();
	}
	pbt::exact<C> e{std::basic_string_view<C>(s)};
	auto parts = utki::split(std::basic_string_view<C>(e.data(), e.size()), d);
	CHECK(parts == expected, "split of view");
	CHECK(utki::split(s, d) == expected, "split of string");
	if (s.find(C(0)) == std::basic_string<C>::npos) {
		CHECK(utki::split(s.c_str(), d) == expected, "split of zero-terminated");
	}
	CHECK(std::basic_string_view<C>(e.data(), e.size()) == s, "text changed");
	CHECK(utki::join(parts, d) == s, "join of parts");
}

template <class C>
void join(pbt::gen& g)
{
	C d = C(g.pick<char>({',', ' ', '\n', 'a', '\0'}));
	std::vector<std::basic_string<C>> v;
	auto n = g.large(20, 1200, 200);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(make_text<C>(g, d, 10));
	}
	if (n > 1) {
		g.nontrivial();
	}
	g.say([&] {
		std::string r = "delimiter " + std::to_string(uint32_t(d)) + " strings";
		for (auto& s : v) {
			r += " " + show(s);
		}
		return r;
	});
	auto expected = ref_join(v, d);
	CHECK(utki::join(v, d) == expected, "vector of strings");
	std::vector<std::basic_string_view<C>> views(v.begin(), v.end());
	CHECK(utki::join(views, d) == expected, "vector of views");
	std::list<std::basic_string<C>> l(v.begin(), v.end());
	CHECK(utki::join(l, d) == expected, "list of strings");
	std::deque<std::basic_string_view<C>> q(v.begin(), v.end());
	CHECK(utki::join(q, d) == expected, "deque of views");
	if (n == 3) {
		std::array<std::basic_string_view<C>, 3> a{v[0], v[1], v[2]};
		CHECK(utki::join(a, d) == expected, "array of views");
	}
	CHECK(std::vector<std::basic_string<C>>(l.begin(), l.end()) == v, "source changed");
}
} // namespace

PROPERTY("split_join_char", 3)
{
	split_join<char>(g);
}

PROPERTY("split_join_wide", 2)
{
	switch (g.choice(2)) {
		case 0:
			return split_join<wchar_t>(g);
		case 1:
			return split_join<char16_t>(g);
		default:
			return split_join<char32_t>(g);
	}
}

PROPERTY("join_char", 2)
{
	join<char>(g);
}

PROPERTY("join_wide", 2)
{
	switch (g.choice(2)) {
		case 0:
			return join<wchar_t>(g);
		case 1:
			return join<char16_t>(g);
		default:
			return join<char32_t>(g);
	}
}

PROPERTY("words", 3)
{
	std::string s;
	auto n = g.large(100, 3000, 200);
	for (size_t i = 0; i != n; ++i) {
		switch (g.choice(2)) {
			case 0:
				s += g.pick<char>({' ', '\t', '\n', '\r', '\v', '\f'});
				break;
			case 1:
				s += char('a' + g.choice(25));
				break;
			default:
				s += char(g.byte());
				break;
		}
	}
	g.say([&] {
		return "text " + pbt::quote(s);
	});
	std::vector<std::string> expected;
	bool in = false;
	for (char c : s) {
		if (ref::is_space(c)) {
			in = false;
			continue;
		}
		if (!in) {
			expected.emplace_back();
		}
		in = true;
		expected.back() += c;
	}
	if (!expected.empty() && expected[0].size() != s.size()) {
		g.nontrivial();
	}
	pbt::exact<char> e{std::string_view(s)};
	CHECK_EQ(utki::split(std::string_view(e.data(), e.size())), expected);
	// words joined with a space split to the same words
	CHECK_EQ(utki::split(std::string_view(utki::join(expected, ' '))), expected);
}

// any number of parts, of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(17, 60);
	auto size = g.wide(n > 1000 ? 3 : 15, 60);
	auto m = g.many();
	auto d = g.pick<char>({',', ' ', '\0', '\n'});
	g.say([&] {
		return pbt::cat(n, " parts of up to ", size, " characters, delimiter ", int(d));
	});
	if (n * size > 3000) {
		g.nontrivial();
		g.label(n > 65535 ? "more than 65535 parts" : "more than 3000 characters");
	}
	std::vector<std::string> parts(n);
	std::string all;
	for (size_t i = 0; i != n; ++i) {
		parts[i].assign(m.below(size + 1), char('a' + i % 26));
		if (i != 0) {
			all += d;
		}
		all += parts[i];
	}
	CHECK(utki::join(parts, d) == all, "join of ", n, " parts");
	if (!all.empty()) {
		pbt::exact<char> e{std::string_view(all)};
		auto s = utki::split(std::string_view(e.data(), e.size()), d);
		CHECK_EQ(s.size(), n, " parts of split");
		CHECK(s == parts, "split to ", n, " parts");
		if (d == ' ' || d == '\n') {
			std::vector<std::string> words;
			for (auto& p : parts) {
				if (!p.empty()) {
					words.push_back(p);
				}
			}
			CHECK(utki::split(std::string_view(e.data(), e.size())) == words, "split to ", words.size(), " words");
		}
	}
}
