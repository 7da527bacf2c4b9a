#pragma once
// reference grammar and values of numbers
#include "pbt.hpp"

#include <cmath>
#include <cstdlib>
#include <locale.h>

namespace ref {

inline bool is_digit(char c, unsigned base)
{
	unsigned v;
	if (c >= '0' && c <= '9') {
		v = unsigned(c - '0');
	} else if (c >= 'a' && c <= 'z') {
		v = unsigned(c - 'a') + 10;
	} else if (c >= 'A' && c <= 'Z') {
		v = unsigned(c - 'A') + 10;
	} else {
		return false;
	}
	return v < base;
}

inline bool is_space(char c)
{
	return c == ' ' || (c >= '\t' && c <= '\r');
}

// number parsing result: length of consumed prefix, 0 = not a number
struct integer {
	size_t length = 0;
	bool in_range = true;
	bool negative = false;
	uint64_t magnitude = 0;
};

// digits of the base at the start of s; limit = biggest allowed magnitude
inline integer digits(std::string_view s, unsigned base, uint64_t limit)
{
	integer r;
	unsigned __int128 v = 0;
	for (char c : s) {
		if (!is_digit(c, base)) {
			break;
		}
		unsigned d = c <= '9' ? unsigned(c - '0') : unsigned(c | 0x20) - 'a' + 10;
		if (r.in_range) {
			v = v * base + d;
			if (v > limit) {
				r.in_range = false;
			}
		}
		++r.length;
	}
	r.magnitude = r.in_range ? uint64_t(v) : 0;
	return r;
}

inline size_t ci_prefix(std::string_view s, std::string_view p)
{
	if (s.size() < p.size()) {
		return 0;
	}
	for (size_t i = 0; i != p.size(); ++i) {
		if ((s[i] | 0x20) != p[i] || !((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) {
			return 0;
		}
	}
	return p.size();
}

enum class format {
	general,
	fixed,
	scientific
};

struct real {
	size_t length = 0; // 0 = not a number
	bool negative = false;
	enum class kind {
		finite,
		inf,
		nan
	} k = kind::finite;
};

// longest prefix which is a real number
inline real real_prefix(std::string_view s, format f = format::general)
{
	real r;
	size_t i = 0;
	if (i < s.size() && s[i] == '-') {
		r.negative = true;
		++i;
	}
	size_t n = 0;
	auto start = i;
	while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
		++i;
		++n;
	}
	if (i < s.size() && s[i] == '.') {
		++i;
		while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
			++i;
			++n;
		}
	}
	if (n != 0) {
		r.length = i;
		bool has_exp = false;
		if (f != format::fixed && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
			auto j = i + 1;
			if (j < s.size() && (s[j] == '+' || s[j] == '-')) {
				++j;
			}
			if (j < s.size() && s[j] >= '0' && s[j] <= '9') {
				while (j < s.size() && s[j] >= '0' && s[j] <= '9') {
					++j;
				}
				r.length = j;
				has_exp = true;
			}
		}
		if (f == format::scientific && !has_exp) {
			return {};
		}
		return r;
	}
	auto rest = s.substr(start);
	if (ci_prefix(rest, "nan")) {
		r.k = real::kind::nan;
		r.length = start + 3;
		if (rest.size() > 3 && rest[3] == '(') {
			for (size_t j = 4; j < rest.size(); ++j) {
				char c = rest[j];
				if (c == ')') {
					r.length = start + j + 1;
					break;
				}
				if (!is_digit(c, 36) && c != '_') {
					break;
				}
			}
		}
		return r;
	}
	if (ci_prefix(rest, "infinity")) {
		r.k = real::kind::inf;
		r.length = start + 8;
		return r;
	}
	if (ci_prefix(rest, "inf")) {
		r.k = real::kind::inf;
		r.length = start + 3;
		return r;
	}
	return {};
}

inline locale_t c_locale()
{
	static locale_t l = newlocale(LC_ALL_MASK, "C", nullptr);
	return l;
}

// correctly rounded value of finite decimal text by the C library
template <class T>
T strto(const std::string& s)
{
	if constexpr (std::is_same_v<T, float>) {
		return strtof_l(s.c_str(), nullptr, c_locale());
	} else {
		return T(strtod_l(s.c_str(), nullptr, c_locale()));
	}
}

// decimal text of a real number, many shapes
inline std::string real_text(pbt::gen& g)
{
	std::string s;
	if (g.chance(1, 3)) {
		s += '-';
	}
	auto digits = [&](size_t n) {
		std::string d;
		auto kind = g.choice(3);
		for (size_t i = 0; i != n; ++i) {
			d += kind == 0 ? '0' : kind == 1 ? '9' : char('0' + g.choice(9));
		}
		return d;
	};
	switch (g.choice(9)) {
		case 0:
			s += digits(1 + g.choice(4));
			break;
		case 1:
			s += digits(g.choice(4)) + "." + digits(1 + g.choice(8));
			break;
		case 2:
			s += digits(1 + g.choice(20)) + ".";
			break;
		case 3:
			s += digits(g.choice(25)) + "." + digits(1 + g.choice(30)) + "e" + g.pick<const char*>({"", "+", "-"}) + std::to_string(g.choice(330));
			break;
		case 4:
			{
				// exactly a double or the middle of two doubles, all digits
				auto bits = g.bits(64);
				double d;
				memcpy(&d, &bits, 8);
				if (!std::isfinite(d)) {
					d = 1.5;
				}
				d = std::fabs(d);
				char b[1600];
				if (g.boolean()) {
					snprintf(b, sizeof(b), "%.*e", int(g.choice(800)), d);
				} else {
					// midpoint in extended precision
					auto m = (static_cast<long double>(d) + static_cast<long double>(std::nextafter(d, HUGE_VAL))) / 2;
					snprintf(b, sizeof(b), "%.*Le", int(20 + g.choice(780)), m);
				}
				s += b;
			}
			break;
		case 5:
			{
				// exactly a float or the middle of two floats
				auto bits = uint32_t(g.bits(31));
				float f;
				memcpy(&f, &bits, 4);
				if (!std::isfinite(f)) {
					f = 1.5f;
				}
				double m = g.boolean() ? double(f) : (double(f) + double(std::nextafterf(f, HUGE_VALF))) / 2;
				char b[400];
				snprintf(b, sizeof(b), "%.*e", int(6 + g.choice(150)), m);
				s += b;
				if (g.boolean()) {
					// a bit off of the middle, far behind
					auto e = s.find('e');
					if (e != std::string::npos) {
						s.insert(e, std::string(g.choice(20), '0') + char('0' + g.choice(9)));
					}
				}
			}
			break;
		case 6:
			// small, subnormal, underflow; big, overflow
			s += digits(1) + "." + digits(g.choice(20)) + "e" + g.pick<const char*>({"-", ""}) + std::to_string(g.pick<int>({36, 37, 38, 39, 43, 44, 45, 46, 47, 306, 307, 308, 309, 322, 323, 324, 325, 326, 400, 100000}));
			break;
		case 7:
			s += digits(1 + g.choice(60));
			break;
		case 8:
			{
				// big integers around powers of two
				auto v = (uint64_t(1) << g.choice(63)) + g.choice(4) - 2;
				s += std::to_string(v);
				if (g.boolean()) {
					s += ".5";
				}
				if (g.boolean()) {
					s += "e" + std::to_string(int(g.choice(60)) - 30);
				}
			}
			break;
		default:
			s += g.pick<const char*>({"inf", "nan", "INF", "NaN", "infinity", "iNfInItY", "nan(1_aZ)", "nan(", "nan(-)", "infinit", "0", "-0", "0.0", "-0.0e5"});
			break;
	}
	return s;
}

} // namespace ref
