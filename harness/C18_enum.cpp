// C18: iteration over enumerations, arrays indexed by enumeration
#include "pbt.hpp"

#include <memory>

#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>

const char* const pbt::rule = "the enumeration has at least two items";

namespace {
template <class U, size_t N>
struct holder {
	enum class e : U {
		enum_size = U(N)
	};
};

template <class T>
T value(pbt::gen& g)
{
	if constexpr (std::is_same_v<T, std::string>) {
		return g.text(24, "abc");
	} else {
		return g.integer<T>();
	}
}

// evaluated at compile time
template <class E>
constexpr size_t count_items()
{
	size_t n = 0;
	for (auto i : utki::enum_iterable_v<E>) {
		if (size_t(i) != n) {
			return ~size_t(0);
		}
		++n;
		if (n > size_t(E::enum_size)) {
			return n;
		}
	}
	return n;
}

template <class E>
void iterate(pbt::gen& g)
{
	constexpr size_t n = size_t(E::enum_size);
	size_t k = 0;
	for (auto i : utki::enum_iterable_v<E>) {
		CHECK(k < n, "more items than there are");
		CHECK(i == E(k), "item ", k);
		++k;
	}
	CHECK_EQ(k, n, " number of items visited");
	CHECK_EQ(utki::enum_iterable_v<E>.size(), n, " size");
	CHECK_EQ((std::integral_constant<size_t, count_items<E>()>::value), n, " items visited at compile time");
	utki::enum_iterable<E> en;
	k = 0;
	auto last = en.cend();
	for (auto i = en.cbegin(); i != last; ++i, ++k) {
		CHECK(k < n, "more items than there are");
		CHECK(*i == E(k), "item ", k);
	}
	CHECK_EQ(k, n, " number of items visited");
	// backwards
	k = n;
	for (auto i = en.rbegin(); i != en.rend(); ++i) {
		CHECK(k > 0, "more items backwards than there are");
		--k;
		CHECK(*i == E(k), "item ", k, " backwards");
	}
	CHECK_EQ(k, size_t(0), " items not visited backwards");
	k = n;
	for (auto i = utki::enum_iterable_v<E>.crbegin(); i != utki::enum_iterable_v<E>.crend(); ++i) {
		CHECK(k > 0, "more items backwards than there are");
		--k;
		CHECK(*i == E(k), "item ", k, " backwards");
	}
	CHECK_EQ(k, size_t(0), " items not visited backwards");
	// start in the middle
	size_t from = g.choice(n);
	auto i = utki::next(en.begin(), from);
	if (from != n) {
		CHECK(*i == E(from), "item ", from, " by next");
		auto j = i;
		auto& r = ++j;
		CHECK(&r == &j, "++ returns itself");
		CHECK(j != i, "++ moves");
		CHECK(*i == E(from), "copy of iterator moved");
	}
	for (k = from; i != en.end(); ++i, ++k) {
		CHECK(k < n && *i == E(k), "item ", k);
	}
	CHECK_EQ(k, n, " last item reached");
	// back and forth, the value of each step is the iterator before or after it
	auto walk = [&](auto i, auto begin, auto end, auto item, const char* what) {
		size_t pos = 0;
		for (auto steps = g.choice(12); steps != 0; --steps) {
			auto before = i;
			auto old = pos;
			auto how = g.choice(3);
			if (how <= 1 ? pos == n : pos == 0) {
				continue;
			}
			pos = how <= 1 ? pos + 1 : pos - 1;
			switch (how) {
				case 0:
					{
						auto& r = ++i;
						CHECK(&r == &i, what, " ++ returns itself");
						break;
					}
				case 1:
					{
						auto r = i++;
						CHECK(r == before, what, " post-increment at ", old);
						break;
					}
				case 2:
					{
						auto& r = --i;
						CHECK(&r == &i, what, " -- returns itself");
						break;
					}
				default:
					{
						auto r = i--;
						CHECK(r == before, what, " post-decrement at ", old);
						break;
					}
			}
			CHECK(!(i == before) && i != before, what, " step from ", old, " to ", pos);
			CHECK_EQ((i == begin), (pos == 0), " ", what, " begins at ", pos);
			CHECK_EQ((i == end), (pos == n), " ", what, " ends at ", pos);
			if (pos != n) {
				CHECK(*i == item(pos), what, " item ", pos);
			}
		}
	};
	auto forward = [](size_t k) {
		return E(k);
	};
	auto backward = [](size_t k) {
		return E(n - 1 - k);
	};
	walk(en.begin(), en.cbegin(), en.end(), forward, "forward");
	walk(en.rbegin(), en.crbegin(), en.rend(), backward, "backward");
}

template <class E, class T>
void array(pbt::gen& g)
{
	constexpr size_t n = size_t(E::enum_size);
	using arr = utki::enum_array<T, E>;
	std::vector<T> m(n);
	auto p = std::make_unique<arr>();
	arr& a = *p;
	const arr& ca = a;
	CHECK_EQ(ca.size(), n, " size of array");
	CHECK_EQ(sizeof(arr), sizeof(T) * n, " bytes of array");
	for (auto& e : a) {
		e = T();
	}
	auto verify = [&](const char* what) {
		size_t k = 0;
		for (auto& e : ca) {
			CHECK(k < n && e == m[k], "element ", k, " after ", what);
			++k;
		}
		CHECK_EQ(k, n, " elements iterated");
		for (size_t j = 0; j != n; ++j) {
			CHECK(ca[E(j)] == m[j], "element of item ", j, " after ", what);
			CHECK(&ca[E(j)] == &a[E(j)], "constant and mutable access differ at ", j);
			CHECK(&ca[E(j)] == ca.data() + j && &a[j] == ca.data() + j, "address of element ", j);
		}
	};
	auto steps = 1 + g.size(12);
	for (size_t s = 0; s != steps; ++s) {
		auto i = size_t(g.choice(n - 1));
		auto v = value<T>(g);
		const char* what = "";
		switch (g.choice(4)) {
			case 0:
				what = "write by item";
				a[E(i)] = v;
				m[i] = v;
				break;
			case 1:
				what = "write by index";
				a[i] = v;
				m[i] = v;
				break;
			case 2:
				{
					what = "write of pairs";
					size_t k = 0;
					auto z = a.zip_with_enum();
					for (auto [e, item] : z) {
						CHECK(k < n, "more pairs than items");
						CHECK(item == E(k), "item of pair ", k);
						CHECK(&e == &a[E(k)], "element of pair ", k);
						if (k % 3 == i % 3) {
							e = v;
							m[k] = v;
						}
						++k;
					}
					CHECK_EQ(k, n, " pairs");
				}
				break;
			case 3:
				{
					what = "read of pairs";
					size_t k = 0;
					auto z = ca.zip_with_enum();
					for (auto [e, item] : z) {
						CHECK(k < n, "more pairs than items");
						CHECK(item == E(k), "item of pair ", k);
						CHECK(&e == &ca[E(k)], "element of pair ", k);
						CHECK((std::is_const_v<std::remove_reference_t<decltype(e)>>), "type");
						++k;
					}
					CHECK_EQ(k, n, " pairs");
				}
				break;
			default:
				{
					what = "copy";
					auto c = std::make_unique<arr>(ca);
					CHECK(*c == ca, "copy is equal");
					(*c)[E(i)] = v;
					CHECK(&(*c)[E(i)] != &a[E(i)], "copy shares elements");
					if (g.boolean()) {
						a = *c;
						m[i] = v;
					}
				}
				break;
		}
		g.say([&] {
			return pbt::cat(what, " at ", i, " value ", v);
		});
		verify(what);
	}
}

template <class E>
void run(pbt::gen& g)
{
	constexpr size_t n = size_t(E::enum_size);
	g.say([&] {
		return pbt::cat("enumeration of ", n, " items, underlying type of ", sizeof(E), " bytes");
	});
	if (n >= 2) {
		g.nontrivial();
	}
	iterate<E>(g);
	switch (g.choice(2)) {
		case 0:
			array<E, int32_t>(g);
			break;
		case 1:
			array<E, uint8_t>(g);
			break;
		default:
			array<E, std::string>(g);
			break;
	}
}

using fn = void (*)(pbt::gen&);

template <class U, size_t... N>
std::vector<fn> table(std::index_sequence<N...>)
{
	return {&run<typename holder<U, N>::e>...};
}

template <size_t... N>
using sizes = std::index_sequence<N...>;

enum class weekday {
	monday,
	tuesday,
	wednesday,
	thursday,
	friday,
	saturday,
	sunday,

	enum_size
};
} // namespace

PROPERTY("int", 2)
{
	static const auto t = table<int>(sizes<1, 7, 128>());
	g.pick(t)(g);
}

PROPERTY("narrow", 3)
{
	static const auto t = table<uint8_t>(sizes<2, 127, 128, 200, 255>());
	static const auto s = table<int8_t>(sizes<127>());
	g.boolean() ? g.pick(t)(g) : g.pick(s)(g);
}

PROPERTY("wide", 1)
{
	static const auto t = table<uint64_t>(sizes<64>());
	static const auto s = table<int16_t>(sizes<300>());
	g.boolean() ? g.pick(t)(g) : g.pick(s)(g);
}

// constructed from a value for each item
PROPERTY("construction", 1)
{
	g.nontrivial();
	std::array<int, 7> v;
	for (auto& i : v) {
		i = g.integer<int>();
	}
	utki::enum_array<int, weekday> a = {{v[0], v[1], v[2], v[3], v[4], v[5], v[6]}};
	g.say([&] {
		return pbt::cat("array of ", v);
	});
	CHECK_EQ(a[weekday::monday], v[0]);
	CHECK_EQ(a[weekday::tuesday], v[1]);
	CHECK_EQ(a[weekday::wednesday], v[2]);
	CHECK_EQ(a[weekday::thursday], v[3]);
	CHECK_EQ(a[weekday::friday], v[4]);
	CHECK_EQ(a[weekday::saturday], v[5]);
	CHECK_EQ(a[weekday::sunday], v[6]);
	std::array<std::string, 7> sv;
	for (auto& i : sv) {
		i = g.text(20, "xy");
	}
	const utki::enum_array<std::string, weekday> s = {{sv[0], sv[1], sv[2], sv[3], sv[4], sv[5], sv[6]}};
	for (auto d : utki::enum_iterable_v<weekday>) {
		CHECK_EQ(s[d], sv[size_t(d)]);
	}
}
