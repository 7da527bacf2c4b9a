// C08: histories of parser operations against a position in the text
#include "num_ref.hpp"

#include <stdexcept>

#include <utki/string.hpp>

const char* const pbt::rule = "the text is not empty and at least three operations of the history consumed something";

namespace {
std::string make_text(pbt::gen& g)
{
	std::string s;
	auto n = g.large(24, 400, 200);
	for (size_t i = 0; i != n; ++i) {
		switch (g.choice(9)) {
			case 0:
				s += g.text(4, "abcxyz");
				break;
			case 1:
				s += g.pick<const char*>({" ", "  ", "\t", "\n", " \r\n", "\v", "\f "});
				break;
			case 2:
				s += g.pick<const char*>({",", ", ", " ,", ",,", " , , "});
				break;
			case 3:
				s += std::to_string(g.integer<int64_t>());
				break;
			case 4:
				s += g.pick<const char*>({"0x", "0b", "0", "00", "0x1F", "0xg", "0xG", "0x`", "0x@", "0x/", "0x:", "0xf", "0x9", "0b/", "0b:", "0/", "0:", "09", "0b101", "0b2", "017", "08", "0X1", "0xffffffffffffffffff", "0777777777777777777777777777", "0b1"});
				break;
			case 5:
				s += ref::real_text(g).substr(0, 40);
				break;
			case 6:
				s += char(g.byte());
				break;
			case 7:
				s += g.pick<const char*>({"-", "+", "--", "+1", "-0", "-x"});
				break;
			case 8:
				s += g.pick<const char*>({";", ":", "=", "\"", "(", ")"});
				break;
			default:
				s += g.text(3, "0123456789abcdefABCDEF");
				break;
		}
	}
	return s;
}

template <class T>
struct parsed {
	bool ok = false;
	T value = 0;
	size_t length = 0;
};

template <class T>
parsed<T> expected_number(std::string_view s)
{
	parsed<T> r;
	size_t i = 0;
	while (i < s.size() && ref::is_space(s[i])) {
		++i;
	}
	if constexpr (std::is_floating_point_v<T>) {
		auto f = ref::real_prefix(s.substr(i));
		if (f.length == 0) {
			return r;
		}
		r.ok = true;
		r.length = i + f.length;
		switch (f.k) {
			case ref::real::kind::nan:
				r.value = std::numeric_limits<T>::quiet_NaN();
				break;
			case ref::real::kind::inf:
				r.value = std::numeric_limits<T>::infinity() * T(f.negative ? -1 : 1);
				break;
			default:
				r.value = ref::strto<T>(std::string(s.substr(i, f.length)));
				if (std::isinf(r.value)) {
					r.value = 0;
				}
				break;
		}
		return r;
	} else {
		unsigned base = 10;
		bool neg = false;
		if constexpr (std::is_unsigned_v<T>) {
			if (i < s.size() && s[i] == '0') {
				// the zero is a number on its own unless more of the number follows
				r.ok = true;
				++i;
				r.length = i;
				if (i == s.size()) {
					return r;
				}
				bool has_next = i + 1 < s.size();
				if (s[i] == 'x') {
					if (!has_next || !ref::is_digit(s[i + 1], 16)) {
						return r;
					}
					base = 16;
					++i;
				} else if (s[i] == 'b') {
					if (!has_next || !ref::is_digit(s[i + 1], 2)) {
						return r;
					}
					base = 2;
					++i;
				} else if (ref::is_digit(s[i], 8)) {
					base = 8;
				} else if (!ref::is_digit(s[i], 10)) {
					return r;
				}
			}
		} else {
			if (i < s.size() && s[i] == '-') {
				neg = true;
				++i;
			}
		}
		uint64_t limit = uint64_t(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
		auto d = ref::digits(s.substr(i), base, limit);
		if (d.length == 0) {
			return {};
		}
		r.ok = true;
		r.length = i + d.length;
		r.value = d.in_range ? T(neg ? uint64_t(0) - d.magnitude : d.magnitude) : T(0);
		return r;
	}
}
} // namespace

PROPERTY("history", 4)
{
	auto text = make_text(g);
	pbt::exact<char> e{std::string_view(text)};
	utki::string_parser p(std::string_view(e.data(), e.size()));
	size_t pos = 0;
	unsigned consumed = 0;
	g.say([&] {
		return "text " + pbt::quote(text);
	});

	auto rest = [&] {
		return std::string_view(text).substr(pos);
	};

	auto check_state = [&](const utki::string_parser& p) {
		auto v = p.get_view();
		CHECK_EQ(v.size(), text.size() - pos);
		CHECK_EQ(p.size(), text.size() - pos);
		CHECK_EQ(p.empty(), pos == text.size());
		CHECK(v.empty() || v.data() == e.data() + pos, "rest is elsewhere");
	};

	auto check_piece = [&](std::string_view piece, size_t from, size_t n) {
		CHECK_EQ(std::string(piece), text.substr(from, n));
		CHECK(n == 0 || piece.data() == e.data() + from, "piece is elsewhere");
	};

	auto any_char = [&]() -> char {
		if (!rest().empty() && g.boolean()) {
			return rest()[size_t(g.choice(std::min<size_t>(rest().size() - 1, 12)))];
		}
		return g.boolean() ? char(g.byte()) : g.pick<char>({' ', ',', ';', '\n', '0', 'a', '\0'});
	};

	auto number = [&](auto zero) {
		using T = decltype(zero);
		auto x = expected_number<T>(rest());
		T v = 0;
		try {
			v = p.template read_number<T>();
		} catch (const std::invalid_argument&) {
			CHECK(!x.ok, "number rejected");
			// at most leading whitespace is consumed
			size_t ws = 0;
			while (ws < rest().size() && ref::is_space(rest()[ws])) {
				++ws;
			}
			auto got = text.size() - pos - p.size();
			CHECK(got == 0 || got == ws, "failed number consumed ", got);
			pos += got;
			return;
		}
		CHECK(x.ok, "number accepted in ", rest());
		if constexpr (std::is_floating_point_v<T>) {
			CHECK(v == x.value || (std::isnan(v) && std::isnan(x.value)), "got ", v, " expected ", x.value, " in ", rest());
		} else {
			CHECK_EQ(v, x.value, " in ", rest());
		}
		pos += x.length;
	};

	check_state(p);
	auto num_ops = 1 + g.large(40, 400, 200);
	for (size_t i = 0; i != num_ops; ++i) {
		auto op = g.choice(22);
		auto before = pos;
		g.say([&] {
			return pbt::cat("  op ", op, " at ", pos);
		});
		switch (op) {
			case 0:
				{
					p.skip_whitespaces();
					while (pos < text.size() && ref::is_space(text[pos])) {
						++pos;
					}
				}
				break;
			case 1:
				{
					p.skip_whitespaces_and_comma();
					bool comma = false;
					while (pos < text.size() && (ref::is_space(text[pos]) || (text[pos] == ',' && !comma))) {
						comma = comma || text[pos] == ',';
						++pos;
					}
				}
				break;
			case 2:
				{
					auto c = any_char();
					p.skip_inclusive_until(c);
					auto f = text.find(c, pos);
					pos = f == std::string::npos ? text.size() : f + 1;
				}
				break;
			case 3:
				{
					std::string set;
					auto n = g.choice(3);
					for (size_t k = 0; k != n; ++k) {
						set += any_char();
					}
					pbt::exact<char> es{std::string_view(set)};
					auto c = p.skip_inclusive_until_one_of(utki::make_span(static_cast<const char*>(es.data()), es.size()));
					auto f = set.empty() ? std::string::npos : text.find_first_of(set, pos);
					if (f == std::string::npos) {
						pos = text.size();
						CHECK_EQ(c, '\0');
					} else {
						CHECK_EQ(c, text[f]);
						pos = f + 1;
					}
				}
				break;
			case 4:
				{
					auto w = p.read_word();
					while (pos < text.size() && !ref::is_space(text[pos])) {
						++pos;
					}
					check_piece(w, before, pos - before);
				}
				break;
			case 5:
				{
					auto c = any_char();
					auto w = p.read_word_until(c);
					while (pos < text.size() && !ref::is_space(text[pos]) && text[pos] != c) {
						++pos;
					}
					check_piece(w, before, pos - before);
				}
				break;
			case 6:
				number(int8_t(0));
				break;
			case 7:
				number(uint8_t(0));
				break;
			case 8:
				number(int32_t(0));
				break;
			case 9:
				number(uint32_t(0));
				break;
			case 10:
				number(int64_t(0));
				break;
			case 11:
				number(uint64_t(0));
				break;
			case 12:
				number(uint16_t(0));
				break;
			case 13:
				number(float(0));
				break;
			case 14:
				number(double(0));
				break;
			case 15:
			case 16:
				if (pos == text.size()) {
					CHECK(pbt::throws<std::invalid_argument>([&] {
						p.read_char();
					}));
				} else {
					CHECK_EQ(p.read_char(), text[pos]);
					++pos;
				}
				break;
			case 17:
				if (pos == text.size()) {
					CHECK(pbt::throws<std::invalid_argument>([&] {
						p.peek_char();
					}));
				} else {
					CHECK_EQ(p.peek_char(), text[pos]);
				}
				break;
			case 18:
				{
					auto left = text.size() - pos;
					size_t n;
					switch (g.choice(3)) {
						case 0:
							n = left;
							break;
						case 1:
							n = left + size_t(g.choice(3));
							break;
						case 2:
							n = g.beyond(left);
							break;
						default:
							n = size_t(g.choice(left));
							break;
					}
					if (n >= left) {
						CHECK(pbt::throws<std::invalid_argument>([&] {
							p.peek_char(n);
						}));
					} else {
						CHECK_EQ(p.peek_char(n), text[pos + n]);
					}
				}
				break;
			case 19:
				{
					size_t n = g.chance(1, 8) ? g.beyond(text.size() - pos) : size_t(g.choice(6));
					auto w = p.read_chars(n);
					n = std::min(n, text.size() - pos);
					check_piece(w, pos, n);
					pos += n;
				}
				break;
			case 20:
				{
					auto c = any_char();
					auto w = p.read_chars_until(c);
					auto f = text.find(c, pos);
					pos = f == std::string::npos ? text.size() : f;
					check_piece(w, before, pos - before);
				}
				break;
			case 21:
				{
					// copy is independent
					auto c = p;
					c.read_chars(1 + size_t(g.choice(3)));
					check_state(p);
				}
				break;
			default:
				{
					auto c = char(g.byte());
					CHECK_EQ(utki::string_parser::is_space(c), ref::is_space(c));
				}
				break;
		}
		check_state(p);
		if (pos != before) {
			++consumed;
		}
	}
	CHECK(std::string_view(e.data(), e.size()) == text, "text changed");
	if (consumed >= 3) {
		g.nontrivial();
	}
}

// texts whose parts are of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	struct part {
		size_t spaces;
		size_t size;
		char fill;
	};
	std::vector<part> parts(1 + g.choice(5));
	std::string t;
	for (auto& p : parts) {
		p.spaces = 1 + g.wide(17, 60);
		p.size = 1 + g.wide(17, 60);
		p.fill = g.pick<char>({'a', ';', '9', '-', '\x80'});
		t += std::string(p.spaces, g.pick<char>({' ', '\t', '\n', '\r'}));
		t += std::string(p.size, p.fill);
		g.say([&] {
			return pbt::cat(p.spaces, " spaces and ", p.size, " of ", pbt::quote(std::string(1, p.fill)));
		});
	}
	if (t.size() > 400) {
		g.nontrivial();
		g.label(t.size() > 65535 ? "more than 65535 characters" : "more than 400 characters");
	}
	pbt::exact<char> e{std::string_view(t)};
	utki::string_parser p(std::string_view(e.data(), e.size()));
	size_t pos = 0;
	auto state = [&](const char* what) {
		CHECK_EQ(p.size(), t.size() - pos, " size after ", what);
		CHECK(p.empty() || p.get_view().data() == e.data() + pos, "view after ", what);
	};
	auto view = [&](std::string_view v, size_t n, const char* what) {
		CHECK_EQ(v.size(), n, " characters of ", what);
		CHECK(n == 0 || v.data() == e.data() + pos, "position of ", what);
		pos += n;
		state(what);
	};
	for (auto& q : parts) {
		switch (g.choice(2)) {
			case 0:
				p.skip_whitespaces();
				pos += q.spaces;
				state("skip_whitespaces");
				break;
			case 1:
				view(p.read_chars(q.spaces), q.spaces, "read_chars");
				break;
			default:
				view(p.read_chars_until(q.fill), q.spaces, "read_chars_until");
				break;
		}
		switch (g.choice(2)) {
			case 0:
				view(p.read_word(), q.size, "read_word");
				break;
			case 1:
				{
					auto n = size_t(g.choice(q.size - 1));
					CHECK_EQ(p.peek_char(n), q.fill, " character ahead ", n);
					view(p.read_chars(n), n, "read_chars");
					view(p.read_word(), q.size - n, "read_word");
				}
				break;
			default:
				{
					auto n = size_t(g.choice(q.size - 1));
					view(p.read_chars(n), n, "read_chars");
					p.skip_inclusive_until(q.fill);
					++pos;
					state("skip_inclusive_until");
					view(p.read_chars(q.size - n - 1), q.size - n - 1, "read_chars");
				}
				break;
		}
	}
	CHECK(p.empty(), "not everything is read");
}

// text which is larger than 32 bits can tell
PROPERTY("huge", 1)
{
	pbt::huge h;
	if (!h) {
		return;
	}
	auto n = h.size(g);
	utki::string_parser p(std::string_view(reinterpret_cast<const char*>(h.data()), n));
	g.say([&] {
		return pbt::cat(n, " characters");
	});
	if (n >> 32) {
		g.nontrivial();
		g.label("more than 4 gigabytes");
	}
	size_t pos = 0;
	auto steps = 1 + g.choice(6);
	for (size_t i = 0; i != steps; ++i) {
		auto left = n - pos;
		CHECK_EQ(p.size(), left, " characters left");
		CHECK_EQ(p.empty(), left == 0, " empty");
		CHECK_EQ(p.get_view().size(), left, " characters in the view");
		CHECK(static_cast<const void*>(p.get_view().data()) == h.data() + pos, "place of the view");
		auto what = g.choice(3);
		auto len = g.chance(1, 6) ? g.beyond(left + 1) : h.up_to(g, left);
		bool threw = false;
		bool fits = true;
		auto c = char('a' + g.choice(25));
		size_t advance = 0;
		g.say([&] {
			return pbt::cat("operation ", what, " of ", len, " at ", pos);
		});
		try {
			switch (what) {
				case 0:
					{
						len = std::min(len, left); // there can be less
						auto s = p.read_chars(g.boolean() && len == left ? len + 1 : len);
						CHECK(static_cast<const void*>(s.data()) == h.data() + pos && s.size() == len, "characters at ", pos);
						advance = len;
						break;
					}
				case 1:
					fits = len < left;
					if (fits) {
						h.mark(pos + len, uint8_t(c));
					}
					CHECK_EQ(p.peek_char(len), c, " character at ", pos, " + ", len);
					break;
				case 2:
					fits = left != 0;
					if (fits) {
						h.mark(pos, uint8_t(c));
					}
					CHECK_EQ(p.read_char(), c, " character at ", pos);
					advance = 1;
					break;
				default:
					p.skip_whitespaces(); // there are none
					break;
			}
		} catch (const std::invalid_argument&) {
			threw = true;
		}
		CHECK_EQ(threw, !fits, " error, ", len, " of ", left);
		if (!threw) {
			pos += advance;
		}
	}
	CHECK_EQ(p.size(), n - pos, " characters left");
}
