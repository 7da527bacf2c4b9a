// C20: contains, flip_map, flip_pair, next, prev, end_pointer, offset_sequence
#include "pbt.hpp"

#include <deque>
#include <forward_list>
#include <list>
#include <unordered_map>
#include <unordered_set>

#include <utki/utility.hpp>

const char* const pbt::rule = "the container has at least two elements";

namespace {
template <class C>
void seq_contains(pbt::gen& g)
{
	using T = typename C::value_type;
	auto val = [&]() -> T {
		if constexpr (std::is_same_v<T, std::string>) {
			return g.text(3, "ab");
		} else {
			return T(g.choice(20));
		}
	};
	std::vector<T> v;
	auto n = g.large(12, 700);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(val());
	}
	const C c(v.begin(), v.end());
	auto x = val();
	bool expected = false;
	for (auto& e : v) {
		expected = expected || e == x;
	}
	if (n > 1) {
		g.nontrivial();
	}
	g.label(expected ? "contained" : "not contained");
	g.say([&] {
		return pbt::cat(v, " contains ", x);
	});
	CHECK_EQ(utki::contains(c, x), expected, " ", x, " in ", v);
	CHECK(c == C(v.begin(), v.end()), "container changed");
}

template <class M>
void map_contains(pbt::gen& g, M m = M())
{
	std::set<int> keys;
	auto n = g.large(12, 700);
	for (size_t i = 0; i != n; ++i) {
		int k = int(g.choice(20)) - 10;
		// values look like keys, to tell the difference
		m[k] = int(g.choice(20)) - 10;
		keys.insert(k);
	}
	if (keys.size() > 1) {
		g.nontrivial();
	}
	int x = int(g.choice(20)) - 10;
	g.label(keys.count(x) ? "contained" : "not contained");
	g.say([&] {
		return pbt::cat("map with keys ", keys, " contains ", x);
	});
	auto copy = m;
	CHECK_EQ(utki::contains(m, x), keys.count(x) != 0, " key ", x);
	CHECK(copy == m, "map changed");
}

// a map finds keys by its own order or equality, which may take different keys for the same
struct by_tens {
	bool operator()(int a, int b) const
	{
		return a / 10 < b / 10;
	}
};

struct tens_equal {
	bool operator()(int a, int b) const
	{
		return a / 10 == b / 10;
	}
};

struct tens_hash {
	size_t operator()(int a) const
	{
		return size_t(a / 10);
	}
};

template <class M>
void map_contains_equivalent(pbt::gen& g)
{
	M m;
	std::set<int> tens;
	auto n = g.size(8);
	for (size_t i = 0; i != n; ++i) {
		int k = int(g.choice(99));
		m[k] = int(g.choice(99));
		tens.insert(k / 10);
	}
	if (tens.size() > 1) {
		g.nontrivial();
	}
	int x = int(g.choice(99));
	g.label(tens.count(x / 10) ? "contained" : "not contained");
	g.say([&] {
		return pbt::cat("map with keys of tens ", tens, " contains ", x);
	});
	auto copy = m;
	CHECK_EQ(utki::contains(m, x), tens.count(x / 10) != 0, " key ", x);
	CHECK(copy == m, "map changed");
}

// heterogeneous look up
void map_contains_view(pbt::gen& g)
{
	std::map<std::string, int, std::less<>> m;
	auto n = g.size(8);
	for (size_t i = 0; i != n; ++i) {
		m[g.text(3, "ab")] = 1;
	}
	if (m.size() > 1) {
		g.nontrivial();
	}
	auto x = g.text(3, "ab");
	g.say([&] {
		return pbt::cat("map of ", m.size(), " strings contains ", x);
	});
	CHECK_EQ(utki::contains(m, std::string_view(x)), m.find(x) != m.end(), " key ", x);
	CHECK_EQ(utki::contains(m, x), m.find(x) != m.end(), " key ", x);
}

template <class K, class V>
struct any_value {
	static K key(pbt::gen& g)
	{
		if constexpr (std::is_same_v<K, std::string>) {
			return g.text(3, "ab");
		} else {
			return K(g.choice(30));
		}
	}
};

// order which depends on the state of the comparator
struct either {
	bool down = false;

	template <class T>
	bool operator()(const T& a, const T& b) const
	{
		return this->down ? b < a : a < b;
	}
};

template <class K, class V, class Cmp>
void flip(pbt::gen& g, Cmp cmp = Cmp())
{
	std::map<K, V, Cmp> m(cmp);
	auto n = g.large(14, 500);
	for (size_t i = 0; i != n; ++i) {
		m[any_value<K, V>::key(g)] = any_value<V, K>::key(g);
	}
	auto m0 = m;
	if (m.size() > 1) {
		g.nontrivial();
	}
	g.say([&] {
		std::string s = "flip of";
		for (auto& e : m) {
			s += pbt::cat(" ", e.first, ":", e.second);
		}
		return s;
	});
	auto verify = [&](const auto& f) {
		std::set<V> values;
		for (auto& e : m0) {
			values.insert(e.second);
		}
		CHECK_EQ(f.size(), values.size(), " number of pairs");
		g.label(values.size() == m0.size() ? "values are unique" : "values are repeated");
		for (auto& e : f) {
			auto i = m0.find(e.second);
			CHECK(i != m0.end() && i->second == e.first, "pair ", e.first, " ", e.second);
			values.erase(e.first);
		}
		CHECK(values.empty(), "value is lost");
	};
	auto f = utki::flip_map(m);
	CHECK((std::is_same_v<decltype(f), std::map<V, K>>), "type");
	verify(f);
	auto fg = utki::flip_map<std::greater<V>>(m);
	CHECK((std::is_same_v<decltype(fg), std::map<V, K, std::greater<V>>>), "type");
	verify(fg);
	CHECK(std::is_sorted(fg.begin(), fg.end(), [](auto& a, auto& b) { return a.first > b.first; }), "order of flipped map");
	CHECK(m == m0, "map changed");
	if (f.size() == m0.size()) {
		auto ff = utki::flip_map(f);
		CHECK(ff.size() == m0.size() && std::all_of(ff.begin(), ff.end(), [&](auto& e) {
				  auto i = m0.find(e.first);
				  return i != m0.end() && i->second == e.second;
			  }), "flipped twice");
	}
	std::pair<K, V> p(any_value<K, V>::key(g), any_value<V, K>::key(g));
	auto fp = utki::flip_pair(p);
	CHECK((std::is_same_v<decltype(fp), std::pair<V, K>>), "type");
	CHECK(fp.first == p.second && fp.second == p.first, "flipped pair");
}

// iterator over integers whose difference type is narrow
template <class D, class Category>
struct narrow {
	using iterator_category = Category;
	using difference_type = D;
	using value_type = int64_t;
	using reference = int64_t;
	using pointer = void;

	int64_t p;

	int64_t operator*() const
	{
		return p;
	}

	narrow& operator++()
	{
		++p;
		return *this;
	}

	narrow& operator--()
	{
		--p;
		return *this;
	}

	narrow& operator+=(D d)
	{
		p += d;
		return *this;
	}

	narrow& operator-=(D d)
	{
		p -= d;
		return *this;
	}

	bool operator==(const narrow& n) const
	{
		return p == n.p;
	}

	bool operator!=(const narrow& n) const
	{
		return p != n.p;
	}
};

template <class It>
void narrow_steps(pbt::gen& g)
{
	auto from = int64_t(g.choice(100));
	auto n = size_t(g.boolean() ? g.choice(1000) : g.pick<size_t>({0, 1, 126, 127, 128, 129, 253, 254, 255, 256, 381, 508}));
	g.nontrivial();
	g.say([&] {
		return pbt::cat("step of ", n, " from ", from, ", difference type of ", sizeof(typename It::difference_type), " bytes");
	});
	CHECK_EQ(utki::next(It{from}, n).p, from + int64_t(n), " next by ", n);
	CHECK_EQ(utki::prev(It{from}, n).p, from - int64_t(n), " prev by ", n);
}

template <class C>
void steps(pbt::gen& g)
{
	C c;
	auto n = g.large(60, 3000);
	for (size_t i = 0; i != n; ++i) {
		c.push_back(int(i));
	}
	if (n > 1) {
		g.nontrivial();
	}
	auto a = size_t(g.choice(n));
	auto b = a + size_t(g.choice(n - a));
	g.say([&] {
		return pbt::cat("step between ", a, " and ", b, " of ", n);
	});
	auto ia = std::next(c.begin(), std::ptrdiff_t(a));
	auto ib = std::next(c.begin(), std::ptrdiff_t(b));
	auto keep_a = ia;
	CHECK(utki::next(ia, b - a) == ib, "next");
	CHECK(utki::prev(ib, b - a) == ia, "prev");
	CHECK(ia == keep_a, "iterator given is changed");
	CHECK(utki::next(c.cbegin(), b) == ib, "next of constant iterator");
	CHECK(utki::prev(c.cend(), n - b) == ib, "prev of constant iterator");
}

template <size_t Off, size_t... I>
std::vector<size_t> seq(std::index_sequence<I...>)
{
	return {I...};
}
} // namespace

PROPERTY("contains", 3)
{
	switch (g.choice(7)) {
		case 0:
			return seq_contains<std::vector<int>>(g);
		case 1:
			return seq_contains<std::list<std::string>>(g);
		case 2:
			return seq_contains<std::set<int>>(g);
		case 3:
			return seq_contains<std::deque<uint8_t>>(g);
		case 4:
			return seq_contains<std::unordered_set<std::string>>(g);
		case 5:
			return seq_contains<std::string>(g);
		case 6:
			return seq_contains<std::forward_list<int>>(g);
		default:
			return seq_contains<std::multiset<int>>(g);
	}
}

PROPERTY("contains_key", 2)
{
	switch (g.choice(5)) {
		case 0:
			return map_contains<std::map<int, int>>(g);
		case 1:
			return map_contains<std::unordered_map<int, int>>(g);
		case 2:
			return map_contains_equivalent<std::map<int, int, by_tens>>(g);
		case 3:
			return map_contains_equivalent<std::unordered_map<int, int, tens_hash, tens_equal>>(g);
		case 4:
			return map_contains_view(g);
		default:
			return map_contains(g, std::map<int, int, either>(either{g.boolean()}));
	}
}

PROPERTY("contains_array", 1)
{
	std::array<int, 6> a;
	for (auto& i : a) {
		i = int(g.choice(9));
	}
	int c[6];
	std::copy(a.begin(), a.end(), c);
	int x = int(g.choice(9));
	g.nontrivial();
	g.say([&] {
		return pbt::cat(a, " contains ", x);
	});
	bool expected = std::count(a.begin(), a.end(), x) != 0;
	CHECK_EQ(utki::contains(a, x), expected);
	CHECK_EQ(utki::contains(c, x), expected);
	CHECK_EQ(utki::contains(utki::make_span(a), x), expected);
	auto il = {a[0], a[1], a[2]};
	CHECK_EQ(utki::contains(il, x), std::count(il.begin(), il.end(), x) != 0);
}

PROPERTY("flip", 2)
{
	switch (g.choice(4)) {
		case 3:
			return flip<int, std::string>(g, either{g.boolean()});
		case 4:
			return flip<std::string, std::string>(g, either{g.boolean()});
		case 0:
			return flip<int, std::string, std::less<int>>(g);
		case 1:
			return flip<std::string, int, std::greater<std::string>>(g);
		default:
			return flip<int, int, std::greater<int>>(g);
	}
}

PROPERTY("steps", 2)
{
	switch (g.choice(3)) {
		case 0:
			return steps<std::vector<int>>(g);
		case 1:
			return steps<std::list<int>>(g);
		case 2:
			return steps<std::deque<int>>(g);
		default:
			return steps<std::basic_string<wchar_t>>(g);
	}
}

PROPERTY("steps_narrow", 2)
{
	switch (g.choice(2)) {
		case 0:
			return narrow_steps<narrow<int8_t, std::random_access_iterator_tag>>(g);
		case 1:
			return narrow_steps<narrow<int8_t, std::bidirectional_iterator_tag>>(g);
		default:
			return narrow_steps<narrow<int16_t, std::bidirectional_iterator_tag>>(g);
	}
}

PROPERTY("end_pointer", 1)
{
	auto v = g.bytes(60);
	std::vector<uint32_t> w(v.begin(), v.end());
	std::string s(v.begin(), v.end());
	if (v.size() > 1) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("end of ", v.size(), " elements");
	});
	CHECK(utki::end_pointer(v) == v.data() + v.size(), "vector");
	CHECK(utki::end_pointer(std::as_const(w)) == w.data() + w.size(), "constant vector");
	CHECK(utki::end_pointer(s) == s.data() + s.size(), "string");
	CHECK(utki::end_pointer(std::string_view(s)) == s.data() + s.size(), "view");
	CHECK(utki::end_pointer(utki::make_span(w)) == w.data() + w.size(), "span");
	std::array<uint16_t, 3> a{};
	CHECK(utki::end_pointer(a) == a.data() + 3, "array");
	int c[5];
	CHECK(utki::end_pointer(c) == c + 5, "C array");
	// offset of index sequences
	CHECK_EQ((seq<0>(utki::offset_sequence_t<3, std::make_index_sequence<4>>())), (std::vector<size_t>{3, 4, 5, 6}));
	CHECK_EQ((seq<0>(utki::offset_sequence_t<0, std::index_sequence<5, 1, 9>>())), (std::vector<size_t>{5, 1, 9}));
	CHECK_EQ((seq<0>(utki::offset_sequence_t<7, std::index_sequence<>>())), (std::vector<size_t>{}));
}

// containers of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(18, 60);
	auto a = size_t(g.choice(n));
	auto b = a + size_t(g.choice(n - a));
	auto x = uint32_t(g.choice(n));
	g.say([&] {
		return pbt::cat(n, " elements, positions ", a, " and ", b, ", value ", x);
	});
	if (n > 3000) {
		g.nontrivial();
		g.label(n >= 65536 ? "65536 elements or more" : "more than 3000 elements");
	}
	std::vector<uint32_t> v(n);
	for (size_t i = 0; i != n; ++i) {
		v[i] = uint32_t(i);
	}
	std::list<uint32_t> l(v.begin(), v.end());
	auto ia = std::next(l.begin(), std::ptrdiff_t(a));
	auto ib = std::next(l.begin(), std::ptrdiff_t(b));
	CHECK(utki::next(ia, b - a) == ib, "next in list");
	CHECK(utki::prev(ib, b - a) == ia, "prev in list");
	CHECK(utki::next(v.begin() + std::ptrdiff_t(a), b - a) == v.begin() + std::ptrdiff_t(b), "next in vector");
	CHECK(utki::prev(v.begin() + std::ptrdiff_t(b), b - a) == v.begin() + std::ptrdiff_t(a), "prev in vector");
	CHECK_EQ(utki::contains(v, x), x < n, " vector contains ", x);
	CHECK_EQ(utki::contains(l, x), x < n, " list contains ", x);
	CHECK(utki::end_pointer(v) == v.data() + n, "end pointer");
	if (n <= 70000) {
		std::map<uint32_t, uint32_t> m;
		for (auto i : v) {
			m.emplace_hint(m.end(), i, uint32_t(n) - i);
		}
		CHECK_EQ(utki::contains(m, x), x < n, " map contains ", x);
		auto f = utki::flip_map(m);
		CHECK_EQ(f.size(), n, " pairs of flipped map");
		for (auto& e : f) {
			CHECK_EQ(e.first, uint32_t(n) - e.second, " flipped pair");
		}
	}
}

// sequences which are larger than 32 bits can tell
PROPERTY("huge", 1)
{
	pbt::huge h;
	if (!h) {
		return;
	}
	auto n = h.size(g);
	auto k = h.up_to(g, n);
	g.say([&] {
		return pbt::cat(n, " elements, ", k, " steps");
	});
	if (k >> 32) {
		g.nontrivial();
		g.label("more than 2^32 steps");
	}
	auto b = static_cast<const uint8_t*>(h.data());
	CHECK(utki::next(b, k) == b + k, "next");
	CHECK(utki::prev(b + n, k) == b + (n - k), "prev");
	std::string_view v(reinterpret_cast<const char*>(b), n);
	CHECK(utki::end_pointer(v) == v.data() + n, "end pointer");
	auto i = utki::next(v.begin(), k);
	CHECK_EQ(size_t(i - v.begin()), k, " next of iterator");
	CHECK_EQ(size_t(v.end() - utki::prev(v.end(), k)), k, " prev of iterator");
	auto r = utki::next(v.rbegin(), k);
	CHECK_EQ(size_t(r - v.rbegin()), k, " next of reverse iterator");
}
