// C10: word wrapping, checked by a validity predicate
#include "pbt.hpp"

#include <utki/string.hpp>

const char* const pbt::rule = "the width is not zero and the text was broken to at least two lines";

namespace {
struct aligner {
	const std::string& t;
	const std::vector<std::string>& lines;
	size_t width;
	std::set<std::pair<size_t, size_t>> bad;
	std::string why;

	bool is_word_char(size_t i) const
	{
		return i < t.size() && t[i] != ' ' && t[i] != '\n';
	}

	// Line k ends at e and started at s; the next line starts at n. Is the break allowed?
	bool break_ok(size_t s, size_t e, size_t n, bool newline)
	{
		if (newline) {
			return true;
		}
		if (e == n && e > 0 && e > s && is_word_char(e - 1) && is_word_char(e)) {
			// a word is broken
			if (e - s != width) {
				why = "word is broken before the line is full";
				return false;
			}
			// it is the only word of the line
			size_t i = s;
			while (i != e && t[i] == ' ') {
				++i;
			}
			for (; i != e; ++i) {
				if (t[i] == ' ') {
					why = "word is broken although another word is on the line";
					return false;
				}
			}
			return true;
		}
		if (e == n && (e == s || t[e - 1] == ' ')) {
			why = "line is ended after a space, but the space is not left out";
			return false;
		}
		// the line is ended before the next word: it would not fit
		size_t q = e;
		while (q != t.size() && t[q] == ' ') {
			++q;
		}
		size_t we = q;
		while (is_word_char(we)) {
			++we;
		}
		// a word followed by a space is counted together with the space
		if (we - s + (we != t.size() && t[we] == ' ' ? 1 : 0) <= width) {
			why = "line is ended although the next word fits";
			return false;
		}
		return true;
	}

	// lines from k on are found in text after position e (where line k - 1, which started at s, ended)
	bool match(size_t k, size_t s, size_t e)
	{
		// the gap: spaces, or spaces newline spaces
		if (k == lines.size()) {
			size_t i = e;
			bool nl = false;
			for (; i != t.size(); ++i) {
				if (t[i] == '\n' && !nl) {
					nl = true;
				} else if (t[i] != ' ') {
					if (why.empty()) {
						why = "text is lost at the end";
					}
					return false;
				}
			}
			return true;
		}
		if (bad.count({k, e * (size_t(1) << 24) + s})) {
			return false;
		}
		const auto& l = lines[k];
		bool nl = false;
		for (size_t n = e;; ++n) {
			// try line k at n
			if (t.compare(n, l.size(), l) == 0 && n + l.size() <= t.size()) {
				if ((k == 0 || break_ok(s, e, n, nl)) && match(k + 1, n, n + l.size())) {
					return true;
				}
			}
			if (n == t.size()) {
				break;
			}
			if (t[n] == '\n' && !nl && k != 0) {
				nl = true;
			} else if (t[n] != ' ') {
				break;
			}
		}
		if (why.empty()) {
			why = "lines are not the text with only spaces or a single newline left out between them";
		}
		bad.insert({k, e * (size_t(1) << 24) + s});
		return false;
	}
};
} // namespace

PROPERTY("valid_wrapping", 6)
{
	std::string t;
	auto n = g.large(30, 300, 60);
	auto style = g.choice(3);
	for (size_t i = 0; i != n; ++i) {
		switch (g.weighted({4, 3, style == 1 ? 3u : 1u, 1, 1})) {
			case 0:
				t += std::string(1 + g.choice(style == 2 ? 20 : 5), char('a' + g.choice(25)));
				break;
			case 1:
				t += std::string(1 + (style == 3 ? g.choice(6) : g.choice(1)), ' ');
				break;
			case 2:
				t += '\n';
				break;
			case 3:
				t += g.pick<char>({'\t', '.', '\r', '-', char(0xc3), '\0'});
				break;
			default:
				t += ' ';
				break;
		}
	}
	unsigned width;
	switch (g.choice(5)) {
		case 0:
			width = unsigned(g.choice(3));
			break;
		case 1:
			width = unsigned(t.size()) + unsigned(g.choice(4)) - std::min<unsigned>(unsigned(t.size()), 2);
			break;
		case 2:
			width = g.integer<unsigned>();
			break;
		case 3:
			width = g.pick<unsigned>({16, 31, 32, 33, 63, 64, 65, 80, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513});
			break;
		default:
			width = 1 + unsigned(g.choice(15));
			break;
	}
	g.say([&] {
		return pbt::cat("width ", width, " text ", t);
	});
	pbt::exact<char> e{std::string_view(t)};
	auto lines = utki::word_wrap(std::string_view(e.data(), e.size()), width);
	g.say([&] {
		return pbt::cat("lines ", lines);
	});
	CHECK(std::string_view(e.data(), e.size()) == t, "text changed");
	if (width == 0) {
		g.label("zero width");
		CHECK_EQ(lines, std::vector<std::string>{t});
		return;
	}
	if (lines.size() > 1) {
		g.nontrivial();
	}
	for (const auto& l : lines) {
		CHECK(l.size() <= width, "line ", l, " is longer than ", width, " text ", t);
		CHECK(l.find('\n') == std::string::npos, "newline within line ", l);
	}
	aligner a{t, lines, width, {}, {}};
	CHECK(a.match(0, 0, 0), a.why, "; width ", width, " text ", t, " lines ", lines);
	// every newline ends a line
	size_t newlines = size_t(std::count(t.begin(), t.end(), '\n'));
	CHECK(lines.size() >= newlines, "width ", width, " text ", t, " lines ", lines);
	// without need to break, the lines are the lines of the text
	if (std::all_of(lines.begin(), lines.end(), [](auto& l) { return l.find(' ') == std::string::npos; }) && t.find(' ') == std::string::npos) {
		bool fits = true;
		for (auto& p : utki::split(t, '\n')) {
			fits = fits && p.size() <= width;
		}
		if (fits) {
			CHECK_EQ(lines, utki::split(t, '\n'));
		}
	}
}

// texts, words and widths of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto m = g.many();
	auto total = g.wide(17, 60);
	auto word = 1 + g.wide(16, 10);
	std::string t;
	while (t.size() < total) {
		t += std::string(1 + m.below(word), char('a' + m.below(26)));
		t += m.below(8 + total / 100) == 0 ? '\n' : ' ';
	}
	auto width = unsigned(1 + t.size() / (1 + g.choice(400)) + g.choice(3));
	g.say([&] {
		return pbt::cat("width ", width, " text of ", t.size(), " words of up to ", word);
	});
	pbt::exact<char> e{std::string_view(t)};
	auto lines = utki::word_wrap(std::string_view(e.data(), e.size()), width);
	if (lines.size() > 1 && t.size() > 2000) {
		g.nontrivial();
		g.label(t.size() > 65535 ? "more than 65535 characters" : "more than 2000 characters");
	}
	CHECK(lines.size() <= t.size() + 1, "too many lines: ", lines.size());
	for (const auto& l : lines) {
		CHECK(l.size() <= width, "line of ", l.size(), " is longer than ", width);
		CHECK(l.find('\n') == std::string::npos, "newline within line");
	}
	aligner a{t, lines, width, {}, {}};
	CHECK(a.match(0, 0, 0), a.why, "; width ", width, ", ", lines.size(), " lines");
}
