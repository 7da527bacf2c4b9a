// C06: integers <-> text
#include "num_ref.hpp"
#include "locale_env.hpp"

#include <utki/string.hpp>

const char* const pbt::rule =
	"round trip: the value has more than one digit; out of range: the value does not fit the requested type";

namespace {
constexpr unsigned base_of[] = {2, 8, 10, 16};
constexpr utki::integer_base enum_of[] =
	{utki::integer_base::bin, utki::integer_base::oct, utki::integer_base::dec, utki::integer_base::hex};

std::string digits_of(uint64_t v, unsigned base)
{
	std::string s;
	do {
		s.insert(s.begin(), "0123456789abcdef"[v % base]);
		v /= base;
	} while (v != 0);
	return s;
}

const char* const prefixes[] = {"0b", "0", "", "0x"};

// text which may follow a number and is not a part of it
std::string follower(pbt::gen& g, unsigned base)
{
	switch (g.choice(3)) {
		case 0:
			return {};
		case 1:
			return g.pick<const char*>({" ", ",", ".", "-", "+", "g", "_", "\n", "z"});
		default:
			{
				std::string s(1, char(g.byte()));
				if (ref::is_digit(s[0], base)) {
					s = "~";
				}
				return s;
			}
	}
}

template <class T>
void round_trip(pbt::gen& g)
{
	auto v = g.integer<T>();
	size_t b = size_t(g.choice(3));
	env::scoped_locale loc(g.chance(1, 8), g.chance(1, 4));
	uint64_t mag = uint64_t(v);
	bool neg = false;
	if constexpr (std::is_signed_v<T>) {
		if (v < 0) {
			neg = true;
			mag = uint64_t(0) - uint64_t(int64_t(v));
		}
	}
	auto d = digits_of(mag, base_of[b]);
	if (d.size() > 1) {
		g.nontrivial();
	}
	std::string expected = (neg ? "-" : "") + (std::is_unsigned_v<T> ? std::string(prefixes[b]) : std::string()) + d;
	g.say([&] {
		return pbt::cat("width ", sizeof(T), std::is_signed_v<T> ? " signed " : " unsigned ", v, " base ", base_of[b], " text ", expected);
	});
	auto t = utki::to_string(v, enum_of[b]);
	CHECK_EQ(t, expected);
	if (base_of[b] == 10) {
		CHECK_EQ(utki::to_string(v), expected);
	}
	if (std::is_unsigned_v<T> || base_of[b] == 10) {
		auto ws = g.text(3, " \t\n\r\v\f");
		auto f = follower(g, base_of[b]);
		if (expected == "0" && !f.empty() && (ref::is_digit(f[0], 10) || f[0] == 'x' || f[0] == 'b')) {
			f = ";";
		}
		auto whole = ws + t + f;
		pbt::exact<char> e{std::string_view(whole)};
		utki::string_parser p(std::string_view(e.data(), e.size()));
		auto r = p.template read_number<T>();
		CHECK_EQ(r, v, " text ", whole);
		CHECK_EQ(std::string(p.get_view()), f, " text ", whole);
	}
}

template <class T>
void parse_text(pbt::gen& g)
{
	// digits in any base, also with leading zeros, in and out of range
	size_t b = std::is_unsigned_v<T> ? size_t(g.choice(3)) : 2;
	unsigned base = base_of[b];
	bool neg = std::is_signed_v<T> && g.boolean();
	uint64_t limit = uint64_t(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
	std::string d;
	switch (g.choice(3)) {
		case 0:
			{
				// around the limit
				unsigned __int128 v = static_cast<unsigned __int128>(limit) + g.choice(8);
				v -= 4;
				while (v != 0) {
					d.insert(d.begin(), "0123456789abcdef"[unsigned(v % base)]);
					v /= base;
				}
			}
			break;
		case 1:
			{
				auto n = 1 + g.size(90);
				for (size_t i = 0; i != n; ++i) {
					d += "0123456789abcdef"[g.choice(base - 1)];
				}
			}
			break;
		case 2:
			// one digit more than fits
			d = digits_of(limit, base) + "0123456789abcdef"[g.choice(base - 1)];
			break;
		default:
			d = digits_of(g.integer<uint64_t>(), base);
			break;
	}
	if (base == 16 && g.boolean()) {
		for (auto& c : d) {
			if (c >= 'a') {
				c = char(c - 'a' + 'A');
			}
		}
	}
	if (base == 10 && std::is_unsigned_v<T>) {
		// leading zero would mean another base
		while (d.size() > 1 && d[0] == '0') {
			d.erase(d.begin());
		}
	} else if (g.chance(1, 3)) {
		d = std::string(g.choice(70), '0') + d;
	}
	auto m = ref::digits(d, base, limit);
	if (!m.in_range) {
		g.nontrivial();
		g.label("out of range");
	}
	auto f = follower(g, base);
	if (d == "0" && base == 10 && !f.empty() && (f[0] == 'x' || f[0] == 'b')) {
		f = ";";
	}
	std::string text = std::string(neg ? "-" : "") + (std::is_unsigned_v<T> ? prefixes[b] : "") + d;
	g.say([&] {
		return pbt::cat("width ", sizeof(T), std::is_signed_v<T> ? " signed" : " unsigned", " text ", text + f, m.in_range ? "" : " (out of range)");
	});
	env::scoped_locale loc(false, g.chance(1, 8));
	auto whole = text + f;
	pbt::exact<char> e{std::string_view(whole)};
	utki::string_parser p(std::string_view(e.data(), e.size()));
	auto r = p.template read_number<T>();
	T expected = m.in_range ? T(neg ? uint64_t(0) - m.magnitude : m.magnitude) : T(0);
	CHECK_EQ(r, expected, " text ", whole);
	CHECK_EQ(std::string(p.get_view()), f, " text ", whole);
}
} // namespace

#define FOR_TYPES(what) \
	switch (g.choice(9)) { \
		case 0: \
			return what<uint8_t>(g); \
		case 1: \
			return what<uint16_t>(g); \
		case 2: \
			return what<uint32_t>(g); \
		case 3: \
			return what<uint64_t>(g); \
		case 4: \
			return what<int8_t>(g); \
		case 5: \
			return what<int16_t>(g); \
		case 6: \
			return what<int32_t>(g); \
		case 7: \
			return what<int64_t>(g); \
		case 8: \
			return what<long long>(g); \
		default: \
			return what<unsigned long long>(g); \
	}

PROPERTY("round_trip", 3)
{
	FOR_TYPES(round_trip)
}

PROPERTY("parse_text", 3)
{
	FOR_TYPES(parse_text)
}

PROPERTY("base_names", 1)
{
	auto i = g.choice(3);
	g.say([&] {
		return pbt::cat("base ", base_of[i]);
	});
	CHECK_EQ(utki::to_int(enum_of[i]), int(base_of[i]));
}
