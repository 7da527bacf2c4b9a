// C16: spans
#include "pbt.hpp"

#include <utki/span.hpp>
#include <utki/utility.hpp>

const char* const pbt::rule = "the span is not empty, and for sub-spans and comparisons not everything is the same";

namespace {
template <class T>
T value(pbt::gen& g)
{
	if constexpr (std::is_same_v<T, std::string>) {
		return g.text(20, "ab");
	} else {
		return g.boolean() ? T(g.choice(2)) : g.integer<T>();
	}
}

template <class T>
std::vector<T> values(pbt::gen& g, size_t max)
{
	std::vector<T> v;
	auto n = g.size(max);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(value<T>(g));
	}
	return v;
}

// the span addresses exactly n elements from p
template <class Span, class T>
void check_window(pbt::gen& g, Span s, T* p, size_t n, const char* what)
{
	using E = typename Span::value_type;
	CHECK_EQ(s.size(), n, " size of ", what);
	CHECK_EQ(s.empty(), n == 0, " empty ", what);
	CHECK_EQ(s.size_bytes(), n * sizeof(E), " bytes of ", what);
	CHECK_EQ(size_t(s.end() - s.begin()), n, " end - begin of ", what);
	CHECK_EQ(size_t(std::distance(s.rbegin(), s.rend())), n, " reverse size of ", what);
	CHECK_EQ(size_t(std::distance(s.crbegin(), s.crend())), n, " reverse size of ", what);
	CHECK_EQ(size_t(s.cend() - s.cbegin()), n, " cend - cbegin of ", what);
	const auto& cs = s;
	if (n != 0) {
		CHECK(s.data() == p, "data of ", what);
		CHECK(&*s.begin() == p && &*s.cbegin() == p, "begin of ", what);
		CHECK(&s.front() == p && &cs.front() == p, "front of ", what);
		CHECK(&s.back() == p + (n - 1) && &cs.back() == p + (n - 1), "back of ", what);
		CHECK(&*s.rbegin() == p + (n - 1) && &*s.crbegin() == p + (n - 1), "rbegin of ", what);
		CHECK(&*std::prev(s.rend()) == p && &*std::prev(s.crend()) == p, "rend of ", what);
		CHECK(utki::end_pointer(s) == p + n, "end_pointer of ", what);
#if CFG_CPP < 26
		CHECK(s.end_pointer() == p + n, "member end_pointer of ", what);
#endif
		auto check_index = [&](size_t i) {
			CHECK(&s[i] == p + i && &cs[i] == p + i, "operator[] of ", what);
			CHECK(&s.at(i) == p + i && &cs.at(i) == p + i, "at of ", what);
		};
		if (n <= 16) {
			for (size_t i = 0; i != n; ++i) {
				check_index(i);
			}
		} else {
			check_index(size_t(g.choice(n - 1)));
			check_index(n - 1);
		}
	}
	size_t k = 0;
	for (auto& e : s) {
		CHECK(k < n && &e == p + k, "iteration of ", what, " at ", k);
		++k;
	}
	CHECK_EQ(k, n, " iteration of ", what);
}

template <class T, size_t N>
void array_window(pbt::gen& g, const std::vector<T>& v)
{
	std::array<T, N> a{};
	for (size_t i = 0; i != std::min<size_t>(v.size(), N); ++i) {
		a[i] = v[i];
	}
	auto orig = a;
	const auto& ca = a;
	check_window(g, utki::span<T>(a), a.data(), N, "span of array");
	check_window(g, utki::span<const T>(a), a.data(), N, "constant span of array");
	check_window(g, utki::span<const T>(ca), a.data(), N, "span of constant array");
	check_window(g, utki::make_span(a), a.data(), N, "make_span of array");
	check_window(g, utki::make_span(ca), a.data(), N, "make_span of constant array");
	CHECK((std::is_same_v<decltype(utki::make_span(a)), utki::span<T>>), "type");
	CHECK((std::is_same_v<decltype(utki::make_span(ca)), utki::span<const T>>), "type");
	CHECK(a == orig, "elements changed");
}

template <class T>
void window(pbt::gen& g)
{
	auto v = values<T>(g, 40);
	auto n = v.size();
	g.say([&] {
		return pbt::cat("elements ", v);
	});
	if (n) {
		g.nontrivial();
	}
	auto orig = v;
	const auto& cv = v;
	check_window(g, utki::span<T>(v), v.data(), n, "span of vector");
	check_window(g, utki::span<const T>(v), v.data(), n, "constant span of vector");
	check_window(g, utki::span<const T>(cv), v.data(), n, "constant span of constant vector");
	check_window(g, utki::make_span(v), v.data(), n, "make_span of vector");
	check_window(g, utki::make_span(cv), v.data(), n, "make_span of constant vector");
	check_window(g, utki::make_span(v.data(), n), v.data(), n, "make_span of pointer");
	check_window(g, utki::span<T>(v.data(), n), v.data(), n, "span of pointer");
	check_window(g, utki::span<const T>(utki::make_span(v)), v.data(), n, "constant span of span");
	CHECK((std::is_same_v<decltype(utki::make_span(v)), utki::span<T>>), "type");
	CHECK((std::is_same_v<decltype(utki::make_span(cv)), utki::span<const T>>), "type");
	check_window(g, utki::span<T>(), static_cast<T*>(nullptr), 0, "default span");
	{
		switch (g.choice(9)) {
			case 0:
				array_window<T, 1>(g, v);
				break;
			case 1:
				array_window<T, 2>(g, v);
				break;
			case 2:
				array_window<T, 3>(g, v);
				break;
			case 3:
				array_window<T, 4>(g, v);
				break;
			case 4:
				array_window<T, 8>(g, v);
				break;
			case 5:
				array_window<T, 16>(g, v);
				break;
			case 6:
				array_window<T, 33>(g, v);
				break;
			case 7:
				array_window<T, 7>(g, v);
				break;
			default:
				array_window<T, 5>(g, v);
				break;
		}
		std::array<T, 0> z{};
		const auto& cz = z;
		check_window(g, utki::make_span(z), static_cast<T*>(nullptr), 0, "make_span of empty array");
		check_window(g, utki::make_span(cz), static_cast<const T*>(nullptr), 0, "make_span of constant empty array");
		check_window(g, utki::span<T>(z), static_cast<T*>(nullptr), 0, "span of empty array");
	}
	{
		auto a = value<T>(g);
		std::initializer_list<T> l1 = {a};
		check_window(g, utki::make_span(l1), l1.begin(), 1, "make_span of list of one");
		std::initializer_list<T> l0;
		check_window(g, utki::make_span(l0), static_cast<const T*>(nullptr), 0, "make_span of empty list");
	}
	{
		auto a = value<T>(g);
		auto b = value<T>(g);
		auto il = {a, b, a};
		check_window(g, utki::make_span(il), il.begin(), 3, "make_span of list");
		check_window(g, utki::span<const T>(il), il.begin(), 3, "span of list");
	}
	// copies and assignment of the span do not touch the elements
	{
		auto s = utki::make_span(v);
		auto c = s;
		utki::span<T> d;
		d = c;
		check_window(g, d, v.data(), n, "assigned span");
		auto m = std::move(c);
		check_window(g, m, v.data(), n, "moved span");
		CHECK(v == orig, "elements changed");
	}
	// writes go to the elements
	if (n) {
		auto s = utki::make_span(v);
		auto i = g.choice(n - 1);
		auto nv = value<T>(g);
		switch (g.choice(4)) {
			case 0:
				s[i] = nv;
				break;
			case 1:
				s.at(i) = nv;
				break;
			case 2:
				*std::next(s.begin(), std::ptrdiff_t(i)) = nv;
				break;
			case 3:
				i = 0;
				s.front() = nv;
				break;
			default:
				i = n - 1;
				s.back() = nv;
				break;
		}
		orig[i] = nv;
		CHECK(v == orig, "after write at ", i, ": ", v);
	}
	CHECK(utki::make_vector(utki::make_span(v)) == orig, "make_vector");
	CHECK(utki::make_vector(utki::make_span(cv)) == orig, "make_vector of constant span");
}

template <class T>
void bounds(pbt::gen& g)
{
	auto v = values<T>(g, 12);
	pbt::exact<T> e(v);
	auto s = utki::make_span(e.data(), e.size());
	const auto& cs = s;
	for (unsigned k = 0; k != 4; ++k) {
		size_t i = g.boolean() ? g.choice(v.size() + 2) : g.beyond(v.size());
		g.say([&] {
			return pbt::cat("size ", v.size(), " at(", i, ")");
		});
		g.nontrivial();
		bool out = i >= v.size();
		g.label(out ? "index out of range" : "index in range");
		CHECK_EQ(pbt::throws<std::out_of_range>([&] { CHECK(s.at(i) == v[i], "element"); }), out, " at(", i, ") of size ", v.size());
		CHECK_EQ(pbt::throws<std::out_of_range>([&] { CHECK(cs.at(i) == v[i], "element"); }), out, " at(", i, ") const of size ", v.size());
	}
}

template <class T>
void sub(pbt::gen& g)
{
	auto v = values<T>(g, 60);
	pbt::exact<T> e(v);
	utki::span<T> s(e.data(), e.size());
	utki::span<const T> cs(s);
	size_t off = 0;
	auto depth = 1 + g.choice(3);
	for (size_t i = 0; i != depth; ++i) {
		auto n = s.size();
		auto o = size_t(g.choice(n));
		bool rest = g.chance(1, 3);
		auto c = rest ? n - o : size_t(g.choice(n - o));
		g.say([&] {
			return pbt::cat("subspan of ", n, " offset ", o, rest ? " to the end" : " count ", c);
		});
		if (n && c && c != n) {
			g.nontrivial();
		}
		s = rest ? (g.boolean() ? s.subspan(o) : s.subspan(o, std::numeric_limits<size_t>::max())) : s.subspan(o, c);
		cs = rest ? cs.subspan(o) : cs.subspan(o, c);
		off += o;
		check_window(g, s, e.data() + off, c, "sub-span");
		check_window(g, cs, e.data() + off, c, "constant sub-span");
	}
	CHECK(std::equal(v.begin(), v.end(), e.begin()), "elements changed");
	// pointers
	if (v.empty()) {
		return;
	}
	for (unsigned k = 0; k != 3; ++k) {
		auto i = size_t(g.choice(v.size()));
		bool in = i >= off && i < off + s.size();
		CHECK_EQ(utki::overlaps(s, e.data() + i), in, " pointer to element ", i, " of sub-span at ", off, " size ", s.size());
		CHECK_EQ(utki::overlaps(cs, e.data() + i), in, " pointer to element ", i, " of sub-span at ", off, " size ", s.size());
	}
	CHECK_EQ(utki::overlaps(s, static_cast<T*>(nullptr)), false, " null pointer");
	CHECK_EQ(utki::overlaps(utki::span<T>(), static_cast<T*>(nullptr)), false, " null pointer in empty span");
	CHECK_EQ(utki::overlaps(utki::span<T>(), e.data()), false, " pointer in empty span");
}

template <class A, class B>
void compare(pbt::gen& g)
{
	auto a = values<A>(g, 20);
	std::vector<B> b;
	if (g.choice(2)) {
		// share a prefix
		b.assign(a.begin(), a.begin() + std::ptrdiff_t(g.choice(a.size())));
		auto n = g.choice(2);
		for (size_t i = 0; i != n; ++i) {
			b.push_back(value<B>(g));
		}
		if (!b.empty() && g.boolean()) {
			b[g.choice(b.size() - 1)] = value<B>(g);
		}
	} else {
		b = values<B>(g, 20);
	}
	g.say([&] {
		return pbt::cat("compare ", a, " with ", b);
	});
	bool eq = a.size() == b.size();
	bool lt = false;
	bool gt = false;
	size_t i = 0;
	for (;; ++i) {
		if (i == a.size() || i == b.size()) {
			lt = a.size() < b.size();
			gt = a.size() > b.size();
			break;
		}
		if (a[i] < b[i]) {
			lt = true;
			eq = false;
			break;
		}
		if (b[i] < a[i]) {
			gt = true;
			eq = false;
			break;
		}
	}
	if (!a.empty() && !b.empty() && i != 0) {
		g.nontrivial();
	}
	g.label(eq ? "equal" : lt ? "less" : "greater");
	auto run = [&](auto sa, auto sb) {
		CHECK_EQ(utki::deep_equals(sa, sb), eq, " equals");
		CHECK_EQ(utki::deep_not_equals(sa, sb), !eq, " not equals");
		CHECK_EQ(utki::deep_less_than(sa, sb), lt, " less");
		CHECK_EQ(utki::deep_greater_than(sa, sb), gt, " greater");
		CHECK_EQ(utki::deep_less_or_equals(sa, sb), !gt, " less or equal");
		CHECK_EQ(utki::deep_greater_or_equals(sa, sb), !lt, " greater or equal");
	};
	if (g.boolean()) {
		run(utki::make_span(a), utki::make_span(std::as_const(b)));
	} else {
		run(utki::make_span(std::as_const(a)), utki::make_span(b));
	}
}
} // namespace

PROPERTY("window", 3)
{
	switch (g.choice(3)) {
		case 0:
			return window<uint8_t>(g);
		case 1:
			return window<int32_t>(g);
		case 2:
			return window<uint64_t>(g);
		default:
			return window<std::string>(g);
	}
}

PROPERTY("bounds", 1)
{
	g.boolean() ? bounds<uint8_t>(g) : bounds<int32_t>(g);
}

PROPERTY("sub_span", 3)
{
	switch (g.choice(2)) {
		case 0:
			return sub<uint8_t>(g);
		case 1:
			return sub<uint16_t>(g);
		default:
			return sub<int64_t>(g);
	}
}

PROPERTY("compare", 3)
{
	switch (g.choice(3)) {
		case 0:
			return compare<uint8_t, uint8_t>(g);
		case 1:
			return compare<int32_t, int32_t>(g);
		case 2:
			return compare<char, char>(g);
		default:
			return compare<std::string, std::string>(g);
	}
}

template <class C>
void text(pbt::gen& g)
{
	std::basic_string<C> s;
	auto n = g.large(80, 3000);
	for (size_t i = 0; i != n; ++i) {
		s += C(g.bits(sizeof(C) == 1 ? 8 : 16));
	}
	if (n) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("text of ", n, " characters of ", sizeof(C), " bytes");
	});
	const auto cs = s;
	std::basic_string_view<C> v(cs);
	check_window(g, utki::span<C>(s), s.data(), n, "span of string");
	check_window(g, utki::make_span(s), s.data(), n, "make_span of string");
	check_window(g, utki::span<const C>(cs), cs.data(), n, "span of constant string");
	check_window(g, utki::make_span(cs), cs.data(), n, "make_span of constant string");
	check_window(g, utki::span<const C>(v), v.data(), n, "span of view");
	check_window(g, utki::make_span(v), v.data(), n, "make_span of view");
	CHECK(utki::make_vector(utki::make_span(cs)) == std::vector<C>(cs.begin(), cs.end()), "make_vector of text");
	CHECK((std::is_same_v<decltype(utki::make_span(s)), utki::span<C>>), "type");
	CHECK((std::is_same_v<decltype(utki::make_span(cs)), utki::span<const C>>), "type");
}

PROPERTY("text", 1)
{
	switch (g.choice(3)) {
		case 0:
			return text<char>(g);
		case 1:
			return text<wchar_t>(g);
		case 2:
			return text<char16_t>(g);
		default:
			return text<char32_t>(g);
	}
}

PROPERTY("bytes", 2)
{
	auto v = g.bytes(200);
	auto n = v.size();
	g.say([&] {
		return "bytes " + pbt::hex(v.data(), n);
	});
	if (n) {
		g.nontrivial();
	}
	auto s = utki::make_span(v);
	auto cs = utki::make_span(std::as_const(v));
	auto c = utki::to_char(s);
	auto cc = utki::to_char(cs);
	CHECK((std::is_same_v<decltype(c), utki::span<char>>), "type");
	CHECK((std::is_same_v<decltype(cc), utki::span<const char>>), "type");
	check_window(g, c, reinterpret_cast<char*>(v.data()), n, "to_char");
	check_window(g, cc, reinterpret_cast<const char*>(v.data()), n, "to_char const");
	check_window(g, utki::to_uint8_t(c), v.data(), n, "to_uint8_t");
	check_window(g, utki::to_uint8_t(cc), std::as_const(v).data(), n, "to_uint8_t const");
	// output
	std::ostringstream ss;
	ss << c;
	CHECK(ss.str() == std::string(v.begin(), v.end()), "output of characters");
	std::vector<int> ints(v.begin(), v.end());
	std::ostringstream si;
	si << utki::make_span(ints);
	std::string expected;
	for (auto i : ints) {
		expected += std::to_string(i);
	}
	CHECK_EQ(si.str(), expected, " output of integers");
	// zero-terminated text
	std::string z(v.begin(), std::find(v.begin(), v.end(), 0));
	pbt::exact<char> e(z.c_str(), z.size() + 1);
	check_window(g, utki::make_span(static_cast<const char*>(e.data())), static_cast<const char*>(e.data()), z.size(), "make_span of zero-terminated");
	check_window(g, utki::span<const char>(static_cast<const char*>(e.data())), static_cast<const char*>(e.data()), z.size(), "span of zero-terminated");
}

// spans of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(18, 40);
	std::vector<uint32_t> v(n);
	auto m = g.many();
	for (auto& x : v) {
		x = uint32_t(m.next());
	}
	auto off = size_t(g.choice(n));
	auto len = size_t(g.choice(n - off));
	g.say([&] {
		return pbt::cat(n, " elements, ", len, " at ", off);
	});
	if (n > 3000) {
		g.nontrivial();
		g.label(n > 65535 ? "more than 65535 elements" : "more than 3000 elements");
	}
	utki::span<uint32_t> s(v);
	auto is = [&](utki::span<const uint32_t> x, size_t from, size_t size, const char* what) {
		CHECK(x.size() == size && (size == 0 || x.data() == v.data() + from), what, " has ", x.size(), " elements, expected ", size);
		CHECK_EQ(x.size_bytes(), size * sizeof(uint32_t), " bytes of ", what);
		CHECK_EQ(size_t(std::distance(x.begin(), x.end())), size, " elements of ", what);
	};
	is(s, 0, n, "span");
	is(s.subspan(off), off, n - off, "subspan to the end");
	is(s.subspan(off, len), off, len, "subspan");
	CHECK(utki::make_vector(s) == v, "make_vector");
	auto w = v;
	CHECK(utki::deep_equals(s, utki::make_span(w)), "equal spans");
	if (n != 0) {
		auto at = size_t(g.choice(n - 1));
		CHECK(utki::overlaps(s, v.data() + at), "pointer to ", at);
		w[at] ^= 1;
		CHECK(!utki::deep_equals(s, utki::make_span(w)), "different at ", at);
		CHECK_EQ(utki::deep_less_than(s, utki::make_span(w)), v[at] < w[at], " different at ", at);
		CHECK_EQ(utki::deep_greater_than(s, utki::make_span(w)), v[at] > w[at], " different at ", at);
	}
}

namespace {
template <class T>
void huge_span(pbt::gen& g, pbt::huge& h)
{
	auto bytes = h.size(g);
	auto n = bytes / sizeof(T);
	auto p = reinterpret_cast<const T*>(h.data());
	auto s = utki::make_span(p, n);
	if (bytes >> 32) {
		g.nontrivial();
		g.label("more than 4 gigabytes");
	}
	g.say([&] {
		return pbt::cat(n, " elements of size ", sizeof(T));
	});
	auto check = [&](utki::span<const T> s, const T* b, size_t n, const char* what) {
		CHECK(s.data() == b && s.begin() == b, what, " begins at ", s.data() - p);
		CHECK_EQ(s.size(), n, " size of ", what);
		CHECK_EQ(s.size_bytes(), n * sizeof(T), " bytes of ", what);
		CHECK(s.end() == b + n, what, " ends at ", s.end() - p);
		CHECK_EQ(s.empty(), n == 0, " empty ", what);
		CHECK_EQ(size_t(s.rend() - s.rbegin()), n, " elements backwards of ", what);
		if (n != 0) {
			CHECK(&s.front() == b && &s.back() == b + (n - 1), what, " front and back");
			CHECK(&*s.rbegin() == b + (n - 1), what, " last");
			auto i = h.up_to(g, n - 1);
			CHECK(&s[i] == b + i, what, " element ", i);
		}
	};
	check(s, p, n, "span");
	auto o = h.up_to(g, n);
	auto c = h.up_to(g, n - o);
	g.say([&] {
		return pbt::cat(c, " of them from ", o);
	});
	check(s.subspan(o, c), p + o, c, "part");
	check(s.subspan(o), p + o, n - o, "rest");
	utki::span<const T> copy = s;
	check(copy, p, n, "copy");
	if constexpr (sizeof(T) == 1) {
		std::basic_string_view<char> v(reinterpret_cast<const char*>(p), n);
		auto sv = utki::make_span(v);
		CHECK(static_cast<const void*>(sv.data()) == p && sv.size() == n, "span of text");
	}
}
} // namespace

PROPERTY("huge", 1)
{
	pbt::huge h;
	if (!h) {
		return;
	}
	switch (g.choice(2)) {
		case 0:
			return huge_span<uint8_t>(g, h);
		case 1:
			return huge_span<uint16_t>(g, h);
		default:
			return huge_span<uint64_t>(g, h);
	}
}
