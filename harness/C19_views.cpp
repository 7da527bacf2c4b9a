// C19: zip, reverse, skip_front
#include "pbt.hpp"

#include <deque>
#include <list>

#include <utki/views.hpp>

const char* const pbt::rule = "at least one of the ranges has at least two elements";

namespace {
template <class C>
C make(pbt::gen& g, size_t n)
{
	C c;
	for (size_t i = 0; i != n; ++i) {
		if constexpr (std::is_same_v<typename C::value_type, std::string>) {
			c.insert(c.end(), g.text(18, "abc"));
		} else if constexpr (std::is_same_v<typename C::value_type, std::pair<const int, std::string>>) {
			c.insert(c.end(), {int(i) * 3 + int(g.choice(2)), g.text(3, "ab")});
		} else {
			c.insert(c.end(), typename C::value_type(g.integer<int>()));
		}
	}
	return c;
}

template <class C>
auto addresses(C& c)
{
	std::vector<decltype(&*c.begin())> ret;
	for (auto& e : c) {
		ret.push_back(&e);
	}
	return ret;
}

template <class T>
bool same(const T* a, const T* b)
{
	return a == b;
}

template <class A, class B>
void zip2(pbt::gen& g, A& a, B& b)
{
	auto pa = addresses(a);
	auto pb = addresses(b);
	auto n = std::min(pa.size(), pb.size());
	auto z = utki::views::zip(a, b);
	// can be traversed more than once
	for (unsigned round = 0; round != 2; ++round) {
		size_t k = 0;
		for (auto t : z) {
			CHECK(k < n, "zip of ", pa.size(), " and ", pb.size(), " elements goes beyond the shorter");
			CHECK((std::tuple_size_v<decltype(t)> == 2), "type");
			CHECK((std::is_same_v<std::tuple_element_t<0, decltype(t)>, decltype(*pa[0])>), "type");
			CHECK((std::is_same_v<std::tuple_element_t<1, decltype(t)>, decltype(*pb[0])>), "type");
			CHECK(same(&std::get<0>(t), pa[k]), "first element of tuple ", k, " is another");
			CHECK(same(&std::get<1>(t), pb[k]), "second element of tuple ", k, " is another");
			++k;
		}
		CHECK_EQ(k, n, " tuples of zip of ", pa.size(), " and ", pb.size(), " elements");
	}
	// step by step
	auto i = z.begin();
	auto e = z.end();
	CHECK_EQ(i != e, n != 0, " begin is end");
	for (size_t k = 0; k != n; ++k) {
		CHECK(i != e, "end is reached too early");
		auto j = i;
		CHECK(!(j != i), "copy of iterator differs");
		auto& r = ++i;
		CHECK(&r == &i, "++ returns itself");
		CHECK(same(&std::get<0>(*j), pa[k]) && same(&std::get<1>(*j), pb[k]), "copy of iterator moved");
	}
	CHECK(!(i != e), "end is not reached");
}

template <class A, class B, class C>
void zip3(pbt::gen& g, A& a, B& b, C& c)
{
	auto pa = addresses(a);
	auto pb = addresses(b);
	auto pc = addresses(c);
	auto n = std::min({pa.size(), pb.size(), pc.size()});
	size_t k = 0;
	for (auto t : utki::views::zip(a, b, c)) {
		CHECK(k < n, "zip goes beyond the shortest");
		CHECK(same(&std::get<0>(t), pa[k]) && same(&std::get<1>(t), pb[k]) && same(&std::get<2>(t), pc[k]), "tuple ", k);
		++k;
	}
	CHECK_EQ(k, n, " tuples of zip of ", pa.size(), ", ", pb.size(), " and ", pc.size(), " elements");
}

// the reference to a constant or mutable range, by choice
template <class C, class F>
void maybe_const(pbt::gen& g, C& c, F f)
{
	if (g.boolean()) {
		f(std::as_const(c));
	} else {
		f(c);
	}
}

template <class A, class B>
void zip_kinds(pbt::gen& g)
{
	auto na = g.large(24, 700);
	auto nb = g.chance(1, 3) ? na : g.large(24, 700);
	g.say([&] {
		return pbt::cat("zip of ", na, " and ", nb, " elements");
	});
	g.label(na == nb ? "equal sizes" : na < nb ? "first is shorter" : "second is shorter");
	auto a = make<A>(g, na);
	auto b = make<B>(g, nb);
	auto a0 = a;
	auto b0 = b;
	if (std::max(na, nb) > 1) {
		g.nontrivial();
	}
	maybe_const(g, a, [&](auto& x) {
		maybe_const(g, b, [&](auto& y) {
			zip2(g, x, y);
		});
	});
	CHECK(a == a0 && b == b0, "ranges changed by zip");
	// writes
	size_t k = 0;
	auto n = std::min(na, nb);
	for (auto [x, y] : utki::views::zip(a, std::as_const(b))) {
		if (k++ % 2 == 0) {
			if constexpr (std::is_same_v<typename A::value_type, std::string>) {
				x += "!";
			} else {
				x = ~x;
			}
		}
		CHECK(k <= n, "zip goes beyond the shorter");
	}
	k = 0;
	auto i = a.begin();
	auto j = a0.begin();
	for (; i != a.end(); ++i, ++j, ++k) {
		auto e = *j;
		if (k < n && k % 2 == 0) {
			if constexpr (std::is_same_v<typename A::value_type, std::string>) {
				e += "!";
			} else {
				e = ~e;
			}
		}
		CHECK(*i == e, "element ", k, " after write through zip");
	}
	CHECK(b == b0, "range changed by write to another");
}
} // namespace

PROPERTY("zip", 4)
{
	using V = std::vector<int>;
	using S = std::vector<std::string>;
	using L = std::list<std::string>;
	using D = std::deque<int>;
	using LI = std::list<int>;
	switch (g.choice(6)) {
		case 0:
			return zip_kinds<V, V>(g);
		case 1:
			return zip_kinds<V, L>(g);
		case 2:
			return zip_kinds<L, V>(g);
		case 3:
			return zip_kinds<D, L>(g);
		case 4:
			return zip_kinds<LI, LI>(g);
		case 5:
			return zip_kinds<S, std::map<int, std::string>>(g);
		default:
			return zip_kinds<std::string, D>(g);
	}
}

PROPERTY("zip_many", 2)
{
	auto a = make<std::vector<int>>(g, g.large(20, 700));
	auto b = make<std::list<std::string>>(g, g.large(20, 700));
	auto c = make<std::map<int, std::string>>(g, g.large(20, 700));
	auto d = make<std::deque<int>>(g, g.large(20, 700));
	g.say([&] {
		return pbt::cat("zip of ", a.size(), ", ", b.size(), " and ", c.size(), " elements");
	});
	if (std::max({a.size(), b.size(), c.size()}) > 1) {
		g.nontrivial();
	}
	switch (g.choice(3)) {
		case 0:
			zip3(g, a, b, c);
			break;
		case 1:
			zip3(g, b, std::as_const(c), a);
			break;
		case 2:
			zip3(g, std::as_const(c), std::as_const(a), std::as_const(b));
			break;
		default:
			zip3(g, d, a, b);
			break;
	}
	// one range
	size_t k = 0;
	auto pb = addresses(b);
	for (auto t : utki::views::zip(b)) {
		CHECK(k < pb.size() && &std::get<0>(t) == pb[k], "zip of one range at ", k);
		++k;
	}
	CHECK_EQ(k, pb.size(), " zip of one range");
	// four ranges, one of them twice
	k = 0;
	auto n = std::min({a.size(), b.size(), d.size()});
	for (auto [w, x, y, z] : utki::views::zip(a, b, a, d)) {
		CHECK(k < n, "zip goes beyond the shortest");
		CHECK(&w == &a[k] && &y == &a[k] && &z == &d[k] && &x == pb[k], "tuple ", k);
		++k;
	}
	CHECK_EQ(k, n, " tuples of four ranges");
}

template <class C>
void reversed(pbt::gen& g)
{
	auto c = make<C>(g, g.large(40, 700));
	auto c0 = c;
	g.say([&] {
		return pbt::cat("reverse of ", c.size(), " elements");
	});
	if (c.size() > 1) {
		g.nontrivial();
	}
	maybe_const(g, c, [&](auto& x) {
		auto p = addresses(x);
		auto k = p.size();
		auto r = utki::views::reverse(x);
		for (unsigned round = 0; round != 2; ++round) {
			k = p.size();
			for (auto& e : r) {
				CHECK(k > 0 && &e == p[k - 1], "reversed element ", k);
				--k;
			}
			CHECK_EQ(k, size_t(0), " elements left out by reverse");
		}
	});
	CHECK(c == c0, "range changed by reverse");
}

PROPERTY("reverse", 1)
{
	switch (g.choice(4)) {
		case 0:
			return reversed<std::vector<int>>(g);
		case 1:
			return reversed<std::list<std::string>>(g);
		case 2:
			return reversed<std::deque<int>>(g);
		case 3:
			return reversed<std::map<int, std::string>>(g);
		default:
			return reversed<std::string>(g);
	}
}

template <size_t N, class C>
void skip(pbt::gen& g)
{
	auto c = make<C>(g, N + g.large(30, 700));
	auto c0 = c;
	g.say([&] {
		return pbt::cat("skip ", N, " of ", c.size(), " elements");
	});
	if (c.size() > 1) {
		g.nontrivial();
	}
	maybe_const(g, c, [&](auto& x) {
		auto p = addresses(x);
		auto s = utki::skip_front<N>(x);
		for (unsigned round = 0; round != 2; ++round) {
			size_t k = N;
			for (auto& e : s) {
				CHECK(k < p.size() && &e == p[k], "element ", k, " after skipping ", N);
				++k;
			}
			CHECK_EQ(k, p.size(), " elements after skipping ", N);
		}
	});
	CHECK(c == c0, "range changed by skip_front");
}

template <class C>
void skips(pbt::gen& g)
{
	switch (g.choice(4)) {
		case 0:
			return skip<1, C>(g);
		case 1:
			return skip<0, C>(g);
		case 2:
			return skip<2, C>(g);
		case 3:
			return skip<7, C>(g);
		default:
			return skip<32, C>(g);
	}
}

PROPERTY("skip_front", 1)
{
	switch (g.choice(3)) {
		case 0:
			return skips<std::vector<int>>(g);
		case 1:
			return skips<std::list<std::string>>(g);
		case 2:
			return skips<std::map<int, std::string>>(g);
		default:
			return skips<std::deque<int>>(g);
	}
}

// ranges of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto na = g.wide(18, 60);
	auto nb = g.boolean() ? na : g.wide(18, 60);
	std::vector<int> a(na);
	std::string b(nb, 'b');
	std::list<char> c(std::min(na, nb) + g.choice(1));
	g.say([&] {
		return pbt::cat("ranges of ", na, ", ", nb, " and ", c.size(), " elements");
	});
	if (std::min(na, nb) > 700) {
		g.nontrivial();
		g.label(std::min(na, nb) >= 65536 ? "65536 elements or more" : "more than 700 elements");
	}
	size_t k = 0;
	for (auto [x, y] : utki::views::zip(a, b)) {
		CHECK(&x == &a[0] + k && &y == &b[0] + k, "tuple ", k);
		++k;
	}
	CHECK_EQ(k, std::min(na, nb), " tuples of zip of ", na, " and ", nb, " elements");
	k = 0;
	auto i = c.begin();
	for (auto [x, y, z] : utki::views::zip(c, a, b)) {
		CHECK(&x == &*i && &y == &a[0] + k && &z == &b[0] + k, "tuple ", k);
		++k;
		++i;
	}
	CHECK_EQ(k, std::min(na, nb), " tuples of zip of ", c.size(), ", ", na, " and ", nb, " elements");
	k = na;
	for (auto& x : utki::views::reverse(a)) {
		CHECK(k > 0 && &x == &a[0] + (k - 1), "reversed element ", k);
		--k;
	}
	CHECK_EQ(k, size_t(0), " elements left out by reverse");
	if (nb > 0) {
		k = 1;
		for (auto& x : utki::skip_front<1>(b)) {
			CHECK(&x == &b[0] + k, "element ", k, " after skipping");
			++k;
		}
		CHECK_EQ(k, nb, " elements after skipping one");
	}
}
