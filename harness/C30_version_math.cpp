// C30: versions and math helpers
#include "pbt.hpp"

#include <cmath>
#include <limits>
#include <sstream>

#include <utki/math.hpp>
#include <utki/utility.hpp>
#include <utki/version.hpp>

const char* const pbt::rule = "versions which share a number or have a number over 255; arguments other than 0 and 1";

namespace {
uint16_t number(pbt::gen& g)
{
	switch (g.choice(4)) {
		case 0:
			return uint16_t(g.choice(2));
		case 1:
			return uint16_t(0xffff - g.choice(2));
		case 2:
			return uint16_t(0x7ffe + g.choice(3));
		case 3:
			return uint16_t(0xfe + g.choice(3));
		default:
			return uint16_t(g.bits(16));
	}
}
} // namespace

PROPERTY("version", 2)
{
	utki::version_duplet a{number(g), number(g)};
	utki::version_duplet b{g.boolean() ? a.major : number(g), g.boolean() ? a.minor : number(g)};
	if (a.major == b.major || a.minor == b.minor || a.major > 255 || a.minor > 255) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat(a.major, ".", a.minor, " and ", b.major, ".", b.minor);
	});
	auto pa = std::make_pair(a.major, a.minor);
	auto pb = std::make_pair(b.major, b.minor);
	CHECK_EQ(a < b, pa < pb, " <");
	CHECK_EQ(a >= b, pa >= pb, " >=");
	CHECK_EQ(b < a, pb < pa, " < swapped");
	CHECK_EQ(b >= a, pb >= pa, " >= swapped");
	CHECK(!(a < a) && a >= a, "compared to itself");
	CHECK_EQ(a.to_uint32_t(), uint32_t(a.major) * 65536u + a.minor, " as number");
	CHECK_EQ(a.to_uint32_t() < b.to_uint32_t(), pa < pb, " order of numbers");
	std::ostringstream ss;
	ss << a << "|" << b;
	CHECK_EQ(ss.str(), std::to_string(a.major) + "." + std::to_string(a.minor) + "|" + std::to_string(b.major) + "." + std::to_string(b.minor), " text");
}

namespace {
template <typename T>
void integer_case(pbt::gen& g)
{
	T x = g.integer<T>();
	g.say([&] {
		return pbt::cat("integer of ", sizeof(T), std::is_signed_v<T> ? " signed bytes " : " unsigned bytes ", +x);
	});
	if (x != 0 && x != 1) {
		g.nontrivial();
	}
	CHECK_EQ(+utki::sign(x), +(x < 0 ? T(-1) : T(1)), " sign");
	__int128 limit_hi = std::numeric_limits<T>::max();
	__int128 limit_lo = std::numeric_limits<T>::min();
	auto check = [&](int n, auto f) {
		__int128 r = 1;
		bool fits = true;
		for (int i = 0; i != n; ++i) {
			__int128 next;
			if (__builtin_mul_overflow(r, __int128(x), &next)) {
				fits = false;
				break;
			}
			r = next;
		}
		if (fits && r <= limit_hi && r >= limit_lo) {
			CHECK(__int128(f(x)) == r, "power ", n, " of ", +x, " is ", +f(x));
			g.label("power fits");
		}
	};
	// small bases, so that higher powers fit
	if (g.chance(2, 3)) {
		T small = T(g.range(0, 2000));
		x = small;
		if (std::is_signed_v<T> && g.boolean()) {
			x = T(-x);
		}
	}
	check(2, [](T v) { return utki::pow2(v); });
	check(3, [](T v) { return utki::pow3(v); });
	check(4, [](T v) { return utki::pow4(v); });
	check(5, [](T v) { return utki::pow5(v); });
	check(6, [](T v) { return utki::pow6(v); });
}

template <typename T>
T real(pbt::gen& g)
{
	switch (g.choice(4)) {
		case 0:
			return T(int(g.choice(400)) - 200);
		case 1:
			return T(int(g.choice(4000)) - 2000) / T(8);
		case 2:
			return std::ldexp(T(1) + T(g.bits(20)) / T(1 << 20), int(g.choice(40)) - 20) * (g.boolean() ? -1 : 1);
		default:
			return std::ldexp(T(1) + T(g.bits(52)) / T(uint64_t(1) << 52), int(g.choice(12)) - 6) * (g.boolean() ? -1 : 1);
	}
}

template <typename T>
void real_case(pbt::gen& g)
{
	T x = real<T>(g);
	g.say([&] {
		return pbt::cat("real of ", sizeof(T), " bytes ", x);
	});
	if (x != 0 && x != 1) {
		g.nontrivial();
	}
	const long double eps = std::numeric_limits<T>::epsilon();
	auto near = [&](T got, long double want, int ulps) {
		return std::fabs((long double)(got) - want) <= eps * ulps * std::fabs(want);
	};
	// a double constant is all the library has for pi
	const long double pi = 3.14159265358979323846264338327950288L;
	auto pi_ulps = 4 + int(std::ceil((long double)(std::numeric_limits<double>::epsilon()) / eps));
	CHECK(near(utki::deg_to_rad(x), (long double)(x) * pi / 180, pi_ulps), "deg_to_rad gives ", utki::deg_to_rad(x));
	CHECK(near(utki::rad_to_deg(x), (long double)(x) * 180 / pi, pi_ulps), "rad_to_deg gives ", utki::rad_to_deg(x));
	CHECK(near(utki::rad_to_deg(utki::deg_to_rad(x)), x, 2 * pi_ulps), "degrees to radians to degrees");
	long double l = x;
	CHECK(near(utki::pow2(x), l * l, 8), "pow2");
	CHECK(near(utki::pow3(x), l * l * l, 8), "pow3");
	CHECK(near(utki::pow4(x), l * l * l * l, 8), "pow4");
	CHECK(near(utki::pow5(x), l * l * l * l * l, 8), "pow5");
	CHECK(near(utki::pow6(x), l * l * l * l * l * l, 8), "pow6");
	CHECK(utki::sign(x) == (x < 0 ? T(-1) : T(1)), "sign");
	CHECK(utki::sign(std::numeric_limits<T>::infinity()) == 1 && utki::sign(-std::numeric_limits<T>::infinity()) == -1, "sign of infinity");
	CHECK(utki::sign(std::numeric_limits<T>::denorm_min()) == 1 && utki::sign(-std::numeric_limits<T>::denorm_min()) == -1, "sign of smallest");
}
} // namespace

PROPERTY("integers", 2)
{
	switch (g.choice(7)) {
		case 0:
			return integer_case<int8_t>(g);
		case 1:
			return integer_case<uint8_t>(g);
		case 2:
			return integer_case<int16_t>(g);
		case 3:
			return integer_case<uint16_t>(g);
		case 4:
			return integer_case<int32_t>(g);
		case 5:
			return integer_case<uint32_t>(g);
		case 6:
			return integer_case<int64_t>(g);
		default:
			return integer_case<uint64_t>(g);
	}
}

PROPERTY("reals", 2)
{
	CHECK(std::fabs((long double)(utki::pi) - 3.14159265358979323846264338327950288L) < 1e-15L, "pi");
	CHECK(std::fabs((long double)(utki::two_pi) - 6.28318530717958647692528676655900576L) < 2e-15L, "two_pi");
	CHECK(std::fabs((long double)(utki::log_2) - 0.693147180559945309417232121458176568L) < 2e-16L, "log_2");
	CHECK_EQ(utki::kilobyte, 1024, " kilobyte");
	CHECK(std::fabs(utki::cm_per_inch - 2.54) < 1e-14 && std::fabs(utki::mm_per_inch - 25.4) < 1e-13, "inch");
	switch (g.choice(2)) {
		case 0:
			return real_case<float>(g);
		case 1:
			return real_case<double>(g);
		default:
			return real_case<long double>(g);
	}
}
