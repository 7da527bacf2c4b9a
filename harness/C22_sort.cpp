// C22: sorting
#include "child.hpp"
#include "pbt.hpp"

#include <deque>

#include <pthread.h>

#include <utki/sort.hpp>

const char* const pbt::rule = "at least three elements to sort, not in order already";

namespace {
struct rec {
	int key = 0;
	std::string id; // identifies the element

	bool operator==(const rec& r) const
	{
		return key == r.key && id == r.id;
	}
};

template <class C, class Cmp>
void check(pbt::gen& g, C c, Cmp cmp, const char* what)
{
	auto n = c.size();
	// a part of the container is sorted
	size_t a = 0;
	size_t b = n;
	if (g.chance(1, 3) && n) {
		a = g.choice(n);
		b = a + g.choice(n - a);
	}
	const C orig = c;
	if (b - a >= 3 && !std::is_sorted(c.begin() + std::ptrdiff_t(a), c.begin() + std::ptrdiff_t(b), cmp)) {
		g.nontrivial();
	}
	g.label(what);
	g.say([&] {
		return pbt::cat(what, ", elements ", a, " to ", b, " of ", n);
	});
	utki::sort(c.begin() + std::ptrdiff_t(a), c.begin() + std::ptrdiff_t(b), cmp);
	CHECK_EQ(c.size(), n);
	for (size_t i = 0; i != n; ++i) {
		if (i < a || i >= b) {
			CHECK(c[i] == orig[i], "element ", i, " outside of the range changed, ", what);
		} else if (i > a) {
			CHECK(!cmp(c[i], c[i - 1]), "elements ", i - 1, " and ", i, " are out of order, ", what);
		}
	}
	CHECK(std::is_permutation(c.begin() + std::ptrdiff_t(a), c.begin() + std::ptrdiff_t(b), orig.begin() + std::ptrdiff_t(a)),
		  "not a permutation, ", what);
}

template <class F>
std::vector<int> keys(pbt::gen& g, size_t max, F show)
{
	std::vector<int> v;
	auto n = g.large(max, 2000, 200);
	auto kind = g.choice(6);
	auto range = g.pick<int>({1, 2, 5, 100000});
	for (size_t i = 0; i != n; ++i) {
		switch (kind) {
			case 0:
			case 1:
				v.push_back(int(g.choice(unsigned(range))));
				break;
			case 2:
				v.push_back(g.integer<int>());
				break;
			case 3: // ascending
				v.push_back(int(i));
				break;
			case 4: // descending
				v.push_back(-int(i));
				break;
			case 5: // organ pipe
				v.push_back(int(std::min(i, n - i)));
				break;
			default: // nearly sorted
				v.push_back(int(i) + int(g.choice(3)));
				break;
		}
	}
	if (n > 1 && g.boolean()) {
		std::swap(v[g.choice(n - 1)], v[g.choice(n - 1)]);
	}
	g.say([&] {
		return pbt::cat("keys ", v);
	});
	return v;
}
} // namespace

PROPERTY("integers", 3)
{
	auto v = keys(g, 200, 0);
	switch (g.choice(4)) {
		case 0:
			return check(g, v, std::less<>(), "ascending");
		case 1:
			return check(g, v, std::greater<>(), "descending");
		case 2:
			// many are equivalent
			return check(g, v, [](int a, int b) { return (a & 3) < (b & 3); }, "by two bits");
		case 3:
			return check(g, v, [](int, int) { return false; }, "all equivalent");
		default:
			{
				int pivot = int(g.choice(5));
				return check(
					g,
					std::deque<int>(v.begin(), v.end()),
					[pivot](int a, int b) { return std::abs(int64_t(a) - pivot) < std::abs(int64_t(b) - pivot); },
					"by distance, deque"
				);
			}
	}
}

PROPERTY("default_order", 1)
{
	auto v = keys(g, 200, 0);
	auto e = v;
	std::sort(e.begin(), e.end());
	if (v.size() >= 3 && e != v) {
		g.nontrivial();
	}
	std::vector<int> guard;
	guard.push_back(123);
	guard.insert(guard.end(), v.begin(), v.end());
	guard.push_back(456);
	utki::sort(guard.begin() + 1, guard.end() - 1);
	CHECK(guard.front() == 123 && guard.back() == 456, "elements outside of the range changed");
	CHECK_EQ(std::vector<int>(guard.begin() + 1, guard.end() - 1), e);
	// plain pointers
	pbt::exact<int> x(v);
	utki::sort(x.begin(), x.end());
	CHECK_EQ(std::vector<int>(x.begin(), x.end()), e);
}

PROPERTY("records", 2)
{
	auto k = keys(g, 60, 0);
	std::vector<rec> v;
	for (size_t i = 0; i != k.size(); ++i) {
		v.push_back({k[i], std::to_string(i) + std::string(g.boolean() ? 20 : 0, 'z')});
	}
	switch (g.choice(2)) {
		case 0:
			return check(g, v, [](const rec& a, const rec& b) { return a.key < b.key; }, "records by key");
		case 1:
			return check(g, v, [](const rec& a, const rec& b) { return a.id < b.id; }, "records by identifier");
		default:
			return check(
				g,
				std::deque<rec>(v.begin(), v.end()),
				[](const rec& a, const rec& b) { return std::tie(b.key, a.id) < std::tie(a.key, b.id); },
				"records by key and identifier, deque"
			);
	}
}

PROPERTY("strings", 1)
{
	auto n = g.size(60);
	std::vector<std::string> v;
	for (size_t i = 0; i != n; ++i) {
		v.push_back(g.text(4, "ab") + std::string(g.choice(1) * 20, 'c'));
	}
	g.boolean() ? check(g, v, std::less<>(), "strings") : check(g, v, std::greater<std::string>(), "strings descending");
}

// sorting at compile time is in C22_probe.cpp

// any order of magnitude
PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(17, 60);
	auto m = g.many();
	auto range = g.pick<uint32_t>({2, 100, 65536, 0xffffffff});
	g.say([&] {
		return pbt::cat(n, " elements below ", range);
	});
	if (n > 2000) {
		g.nontrivial();
		g.label(n > 65535 ? "more than 65535 elements" : "more than 2000 elements");
	}
	std::vector<std::pair<uint32_t, uint32_t>> v(n);
	for (size_t i = 0; i != n; ++i) {
		v[i] = {uint32_t(m.below(range)), uint32_t(i)};
	}
	auto w = v;
	utki::sort(w.begin(), w.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
	for (size_t i = 1; i < n; ++i) {
		CHECK(w[i - 1].first <= w[i].first, "not in order at ", i, " of ", n);
	}
	// it is a permutation
	std::vector<bool> seen(n);
	for (auto& p : w) {
		CHECK(p.second < n && !seen[p.second] && v[p.second].first == p.first, "not a permutation");
		seen[p.second] = true;
	}
}

namespace {
struct on_thread {
	std::vector<int>* v;
	bool descending;

	static void* go(void* p)
	{
		auto& t = *static_cast<on_thread*>(p);
		if (t.descending) {
			utki::sort(t.v->begin(), t.v->end(), std::greater<>());
		} else {
			utki::sort(t.v->begin(), t.v->end());
		}
		return nullptr;
	}
};
} // namespace

// An order of elements which is unfavourable for choosing elements to compare to: the range is sorted all the same, on a
// stack of 256 kilobytes.
PROPERTY("unfavourable_order", 1)
{
	const bool is_long = g.chance(1, 100);
	const size_t n = is_long ? 5000 + g.choice(2000) : g.choice(60);
	const auto shape = g.choice(4);
	const auto step = 1 + int(g.choice(2));
	std::vector<int> v;
	for (size_t i = 0; i != n; ++i) {
		const auto to_middle = int(i < n / 2 ? n / 2 - i : i - n / 2);
		switch (shape) {
			case 0: // the least is in the middle
				v.push_back(to_middle * step);
				break;
			case 1: // the greatest is in the middle
				v.push_back(-to_middle * step);
				break;
			case 2: // ascending and descending in turn
				v.push_back(i % 2 ? int(i) : int(n - i));
				break;
			case 3:
				v.push_back(i % 2 ? -int(i) : -int(n - i));
				break;
			default: // two runs
				v.push_back(int(i % (n / 2 + 1)));
				break;
		}
	}
	if (n > 1) {
		for (auto k = g.choice(3); k; --k) {
			std::swap(v[g.choice(n - 1)], v[g.choice(n - 1)]);
		}
	}
	on_thread t{&v, g.boolean()};
	g.say([&] {
		return pbt::cat(n, " elements, shape ", shape, t.descending ? ", descending" : "", n < 100 ? pbt::cat(" ", v) : std::string());
	});
	auto e = v;
	if (t.descending) {
		std::sort(e.begin(), e.end(), std::greater<>());
	} else {
		std::sort(e.begin(), e.end());
	}
	if (!is_long) {
		on_thread::go(&t);
		CHECK_EQ(v, e, " sorted");
		return;
	}
	g.nontrivial();
	g.label("long unfavourable order");
	auto r = child::run([&] {
		pthread_attr_t a;
		pthread_attr_init(&a);
		pthread_attr_setstacksize(&a, 256 * 1024);
		pthread_t th;
		if (pthread_create(&th, &a, &on_thread::go, &t) != 0) {
			return; // no thread, nothing to judge
		}
		pthread_join(th, nullptr);
		if (v != e) {
			throw 1;
		}
	});
	CHECK(r.survived(), "sorting ", n, " elements on a small stack: ", r.how());
}
