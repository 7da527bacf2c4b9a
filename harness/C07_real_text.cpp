// C07: parsing of real numbers
#include "num_ref.hpp"
#include "locale_env.hpp"

#include <stdexcept>

#include <utki/string.hpp>

const char* const pbt::rule = "the number has a fraction or an exponent or at least 16 digits";

namespace {
template <class T>
bool same(T a, T b)
{
	if (std::isnan(a) || std::isnan(b)) {
		return std::isnan(a) && std::isnan(b);
	}
	return a == b && std::signbit(a) == std::signbit(b);
}

template <class T>
struct expectation {
	ref::real r;
	T value = 0;
	bool out_of_range = false;
};

template <class T>
expectation<T> expect(std::string_view s, ref::format f)
{
	expectation<T> e;
	e.r = ref::real_prefix(s, f);
	if (e.r.length == 0) {
		return e;
	}
	// long double is parsed with the precision of double
	using base = std::conditional_t<std::is_same_v<T, float>, float, double>;
	switch (e.r.k) {
		case ref::real::kind::nan:
			e.value = std::numeric_limits<T>::quiet_NaN();
			break;
		case ref::real::kind::inf:
			e.value = std::numeric_limits<T>::infinity() * T(e.r.negative ? -1 : 1);
			break;
		case ref::real::kind::finite:
			{
				std::string t(s.substr(0, e.r.length));
				auto v = ref::strto<base>(t);
				bool mantissa_zero = true;
				for (char c : t) {
					if (c == 'e' || c == 'E') {
						break;
					}
					if (c >= '1' && c <= '9') {
						mantissa_zero = false;
					}
				}
				e.out_of_range = std::isinf(v) || (v == 0 && !mantissa_zero);
				e.value = T(v);
			}
			break;
	}
	return e;
}

template <class T>
void parse(pbt::gen& g, const std::string& text, const std::string& follow)
{
	auto ws = g.text(3, " \t\n\r\v\f");
	env::scoped_locale loc(g.chance(1, 6), g.chance(1, 4));
	auto whole = ws + text + follow;
	auto body = text + follow;
	if (loc.c_switched) {
		g.label("decimal comma locale");
	}
	pbt::exact<char> e{std::string_view(whole)};
	utki::string_parser p(std::string_view(e.data(), e.size()));
	auto x = expect<T>(body, ref::format::general);
	g.label(x.r.length == 0 ? "not a number" : x.out_of_range ? "out of range" : "number");
	T v = 0;
	bool rejected = false;
	try {
		v = p.template read_number<T>();
	} catch (const std::invalid_argument&) {
		rejected = true;
	}
	CHECK_EQ(rejected, x.r.length == 0, " text ", whole);
	if (rejected) {
		return;
	}
	CHECK_EQ(std::string(p.get_view()), body.substr(x.r.length), " text ", whole);
	if (x.out_of_range) {
		CHECK(v == 0, "text ", whole, " got ", v);
	} else {
		CHECK(same(v, x.value), "text ", whole, " got ", v, " expected ", x.value);
	}
}

template <class T>
void convert(pbt::gen& g, const std::string& text)
{
	auto k = size_t(g.choice(3));
	static const ref::format rf[] = {ref::format::general, ref::format::fixed, ref::format::scientific, ref::format::general};
	static const utki::chars_format uf[] = {utki::chars_format::general, utki::chars_format::fixed, utki::chars_format::scientific, utki::chars_format::general};
	env::scoped_locale loc(g.chance(1, 6), g.chance(1, 4));
	auto x = expect<T>(text, rf[k]);
	pbt::exact<char> e{std::string_view(text)};
	T v = T(12345);
	auto first = static_cast<const char*>(e.data());
	auto r = k == 3 ? utki::from_chars(first, first + e.size(), v) : utki::from_chars(first, first + e.size(), v, uf[k]);
	if (x.r.length == 0) {
		CHECK(r.ec == std::errc::invalid_argument, "text ", text);
		CHECK(r.ptr == first, "text ", text);
		CHECK(v == T(12345), "text ", text);
		return;
	}
	CHECK_EQ(size_t(r.ptr - first), x.r.length, " text ", text);
	if (x.out_of_range) {
		CHECK(r.ec == std::errc::result_out_of_range, "text ", text);
	} else {
		CHECK(r.ec == std::errc(), "text ", text);
		CHECK(same(v, x.value), "text ", text, " got ", v, " expected ", x.value);
	}
}

std::string follower(pbt::gen& g)
{
	switch (g.choice(3)) {
		case 0:
			return {};
		case 1:
			return g.pick<const char*>({" ", ",5", ".", "e", "e+", "E-", "f", "-1", "\n", "..", "p3"});
		case 2:
			return g.text(4, "0123.,eE+-xXnaif()");
		default:
			return std::string(1, char(g.byte()));
	}
}

void classify(pbt::gen& g, const std::string& t)
{
	if (t.find_first_of(".eE") != std::string::npos || t.size() >= 16) {
		g.nontrivial();
	}
	g.say([&] {
		return "text " + pbt::quote(t);
	});
}
} // namespace

PROPERTY("read_number", 4)
{
	auto t = ref::real_text(g);
	classify(g, t);
	auto f = follower(g);
	switch (g.choice(2)) {
		case 0:
			return parse<double>(g, t, f);
		case 1:
			return parse<float>(g, t, f);
		default:
			return parse<long double>(g, t, f);
	}
}

PROPERTY("from_chars", 3)
{
	auto t = ref::real_text(g) + follower(g);
	classify(g, t);
	switch (g.choice(2)) {
		case 0:
			return convert<double>(g, t);
		case 1:
			return convert<float>(g, t);
		default:
			return convert<long double>(g, t);
	}
}

PROPERTY("arbitrary_text", 2)
{
	auto t = g.text(30, "0123456789.eE+-nNaAiIfFtTyY()_ ,x");
	// no leading whitespace: it is skipped by one and rejected by the other interface
	while (!t.empty() && t[0] == ' ') {
		t.erase(t.begin());
	}
	classify(g, t);
	switch (g.choice(3)) {
		case 0:
			return parse<double>(g, t, {});
		case 1:
			return parse<float>(g, t, {});
		case 2:
			return convert<double>(g, t);
		default:
			return convert<float>(g, t);
	}
}

PROPERTY("shortest_round_trip", 2)
{
	// text with enough digits gives back the same value bit by bit
	if (g.boolean()) {
		auto b = g.bits(64);
		double d;
		memcpy(&d, &b, 8);
		if (!std::isfinite(d)) {
			d = 0;
		}
		char buf[64];
		snprintf(buf, sizeof(buf), "%.17g", d);
		classify(g, buf);
		utki::string_parser p{std::string_view(buf)};
		auto r = p.read_number<double>();
		CHECK(same(r, d), "text ", buf, " got ", r);
		CHECK(p.empty());
	} else {
		auto b = uint32_t(g.bits(32));
		float d;
		memcpy(&d, &b, 4);
		if (!std::isfinite(d)) {
			d = 0;
		}
		char buf[64];
		snprintf(buf, sizeof(buf), "%.9g", double(d));
		classify(g, buf);
		utki::string_parser p{std::string_view(buf)};
		auto r = p.read_number<float>();
		CHECK(same(r, d), "text ", buf, " got ", r);
		CHECK(p.empty());
	}
}
