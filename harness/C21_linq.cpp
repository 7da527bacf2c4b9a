// C21: query pipelines against textbook definitions of the operations
#include "pbt.hpp"

#include <deque>
#include <list>
#include <memory>

#include <utki/linq.hpp>

const char* const pbt::rule = "the sequence has at least two elements";

namespace {
struct item {
	int key = 0;
	std::string text;
	int id = 0;

	bool operator==(const item& i) const
	{
		return key == i.key && text == i.text && id == i.id;
	}

	bool operator<(const item& i) const
	{
		return std::tie(key, text, id) < std::tie(i.key, i.text, i.id);
	}
};

std::string show(const item& i)
{
	return std::to_string(i.key) + "/" + i.text + "/" + std::to_string(i.id);
}

template <class C>
std::string show(const C& c)
{
	std::string s = "[";
	for (auto& i : c) {
		s += (s.size() == 1 ? "" : " ") + show(i);
	}
	return s + "]";
}

std::vector<item> items(pbt::gen& g)
{
	std::vector<item> v;
	auto n = g.large(40, 700, 150);
	auto range = g.pick<int>({1, 3, 100});
	for (size_t i = 0; i != n; ++i) {
		// long texts are on the heap, so that use after move shows
		v.push_back({int(g.choice(unsigned(range))) - range / 2, g.text(3, "ab") + (g.boolean() ? std::string(20, 'x') : ""), int(i)});
	}
	if (n > 1) {
		g.nontrivial();
	}
	g.say([&] {
		return "items " + show(v);
	});
	return v;
}

// what a pipeline leaves is put to a vector
template <class C>
std::vector<item> list_of(const C& c)
{
	return std::vector<item>(c.begin(), c.end());
}

struct pred {
	int mod;
	int rem;

	bool operator()(const item& i) const
	{
		return ((i.key % mod) + mod) % mod == rem || i.text.size() > 21;
	}
};

item change(const item& i)
{
	return {i.key * 2 + 1, i.text + "!", i.id};
}

template <class C>
void pipeline(pbt::gen& g)
{
	auto v = items(g);
	C source(v.begin(), v.end());
	const C copy = source;
	auto model = list_of(source);
	pred p{1 + int(g.choice(3)), 0};
	p.rem = int(g.choice(unsigned(p.mod - 1)));

	bool by_move = g.boolean();
	g.label(by_move ? "by rvalue" : "by reference");
	auto expect = [&](const auto& got, const std::vector<item>& e, const char* what) {
		CHECK(list_of(got) == e, what, " gave ", show(got), " expected ", show(e));
	};
	auto start = [&](auto f) {
		if (by_move) {
			C tmp = source;
			f(utki::linq(std::move(tmp)));
		} else if (g.boolean()) {
			f(utki::linq(source));
		} else {
			f(utki::linq(copy));
		}
	};

	auto filtered = [&](std::vector<item> m) {
		std::vector<item> r;
		for (auto& i : m) {
			if (p(i)) {
				r.push_back(i);
			}
		}
		return r;
	};
	auto projected = [&](const std::vector<item>& m) {
		std::vector<item> r;
		for (auto& i : m) {
			r.push_back(change(i));
		}
		return r;
	};
	// ordered, and a permutation of the source
	auto check_ordered = [&](const std::vector<item>& got, std::vector<item> from, auto key, const char* what) {
		for (size_t i = 1; i < got.size(); ++i) {
			CHECK(!(key(got[i]) < key(got[i - 1])), what, " is not ordered: ", show(got));
		}
		auto s = got;
		std::sort(s.begin(), s.end());
		std::sort(from.begin(), from.end());
		CHECK(s == from, what, " is not a permutation: ", show(got), " of ", show(from));
	};
	auto by_key = [](const item& i) -> const int& {
		return i.key;
	};
	auto by_text = [](const item& i) -> const std::string& {
		return i.text;
	};

	switch (g.choice(10)) {
		case 0:
			g.say([] { return "select"; });
			start([&](auto q) {
				expect(q.select([](item i) { return change(i); }).get(), projected(model), "select");
			});
			break;
		case 1:
			g.say([] { return "select with index"; });
			start([&](auto q) {
				auto r = q.select([](auto&& i, size_t n) { return std::make_pair(n, item(i)); }).get();
				CHECK_EQ(r.size(), model.size(), " selected");
				for (size_t i = 0; i != r.size(); ++i) {
					CHECK_EQ(r[i].first, i, " index");
					CHECK(r[i].second == model[i], "element ", i, " is ", show(r[i].second));
				}
			});
			break;
		case 2:
			g.say([] { return "where"; });
			start([&](auto q) {
				expect(q.where(p).get(), filtered(model), "where");
			});
			break;
		case 3:
			g.say([] { return "where where select"; });
			start([&](auto q) {
				auto r = q.where(p).where([](const item& i) { return i.id % 2 == 0; }).select([](const item& i) {
							  return change(i);
						  }).get();
				auto m = filtered(model);
				m.erase(std::remove_if(m.begin(), m.end(), [](auto& i) { return i.id % 2 != 0; }), m.end());
				expect(r, projected(m), "where where select");
			});
			break;
		case 4:
			g.say([] { return "select where"; });
			start([&](auto q) {
				expect(q.select([](item i) { return change(i); }).where(p).get(), filtered(projected(model)), "select where");
			});
			break;
		case 5:
		case 6:
			g.say([] { return "group_by"; });
			start([&](auto q) {
				auto r = q.group_by([&](const item& i) { return i.key % 3; }).get();
				std::map<int, std::vector<item>> m;
				for (auto& i : model) {
					m[i.key % 3].push_back(i);
				}
				CHECK_EQ(r.size(), m.size(), " groups");
				for (auto& e : m) {
					auto i = r.find(e.first);
					CHECK(i != r.end(), "group ", e.first, " is missing");
					expect(i->second, e.second, "group");
				}
			});
			break;
		case 7:
			g.say([] { return "group_by select"; });
			start([&](auto q) {
				auto r = q.where(p)
							 .group_by([&](const item& i) { return i.text; })
							 .select([](auto&& e) {
								 return std::make_pair(e.first, std::vector<item>(e.second));
							 })
							 .get();
				std::map<std::string, std::vector<item>> m;
				for (auto& i : filtered(model)) {
					m[i.text].push_back(i);
				}
				CHECK_EQ(r.size(), m.size(), " groups");
				size_t k = 0;
				for (auto& e : m) {
					CHECK_EQ(r[k].first, e.first, " key of group");
					expect(r[k].second, e.second, "group");
					++k;
				}
			});
			break;
		case 8:
			g.say([] { return "order_by key"; });
			if constexpr (std::is_same_v<C, std::vector<item>> || std::is_same_v<C, std::deque<item>>) {
				start([&](auto q) {
					check_ordered(list_of(q.order_by(by_key).get()), model, by_key, "order_by key");
				});
			} else {
				check_ordered(list_of(utki::linq(copy).order_by(by_key).get()), model, by_key, "order_by key");
			}
			break;
		case 9:
			g.say([] { return "where order_by text"; });
			if constexpr (std::is_same_v<C, std::vector<item>> || std::is_same_v<C, std::deque<item>>) {
				start([&](auto q) {
					check_ordered(
						list_of(q.where(p).order_by(by_text).get()),
						filtered(model),
						by_text,
						"where order_by text"
					);
				});
			} else {
				start([&](auto q) {
					auto r = q.select([](const item& i) { return change(i); }).order_by(by_text).get();
					check_ordered(list_of(r), projected(model), by_text, "select order_by text");
				});
			}
			break;
		default:
			g.say([] { return "select order_by select"; });
			start([&](auto q) {
				auto r = q.select([](const item& i) { return change(i); })
							 .order_by(by_key)
							 .select([](item&& i, size_t n) { return item{i.key, std::move(i.text), i.id + int(n) * 1000}; })
							 .get();
				auto got = list_of(r);
				for (size_t i = 0; i != got.size(); ++i) {
					CHECK_EQ(got[i].id / 1000, int(i), " index");
					got[i].id %= 1000;
				}
				check_ordered(got, projected(model), by_key, "select order_by select");
			});
			break;
	}
	CHECK(source == copy, "source given by reference changed");
}
} // namespace

PROPERTY("vector", 3)
{
	pipeline<std::vector<item>>(g);
}

PROPERTY("other_sequences", 2)
{
	switch (g.choice(2)) {
		case 0:
			return pipeline<std::list<item>>(g);
		case 1:
			return pipeline<std::deque<item>>(g);
		default:
			return pipeline<std::multiset<item>>(g);
	}
}

// pairs of a map, as in the documentation
PROPERTY("map", 2)
{
	std::map<int, std::string> m;
	auto n = g.large(20, 700, 150);
	for (size_t i = 0; i != n; ++i) {
		m[int(g.choice(40))] = g.text(4, "abc") + std::string(size_t(g.choice(1)) * 30, 'y');
	}
	if (m.size() > 1) {
		g.nontrivial();
	}
	g.say([&] {
		std::string s = "map";
		for (auto& e : m) {
			s += pbt::cat(" ", e.first, ":", e.second);
		}
		return s;
	});
	const auto m0 = m;
	bool mv = g.boolean();
	auto start = [&](auto f) {
		if (mv) {
			auto t = m;
			f(utki::linq(std::move(t)));
		} else {
			f(utki::linq(m));
		}
	};
	switch (g.choice(2)) {
		case 0:
			start([&](auto q) {
				auto r = q.where([](const auto& e) { return e.first % 2 == 0; }).get();
				std::map<int, std::string> e;
				for (auto& i : m0) {
					if (i.first % 2 == 0) {
						e.insert(i);
					}
				}
				CHECK(r == e, "where on map");
			});
			break;
		case 1:
			start([&](auto q) {
				auto r = q.group_by([](const auto& e) { return e.second; }).get();
				std::map<std::string, std::vector<int>> e;
				for (auto& i : m0) {
					e[i.second].push_back(i.first);
				}
				CHECK_EQ(r.size(), e.size(), " groups");
				for (auto& i : e) {
					auto j = r.find(i.first);
					CHECK(j != r.end(), "group is missing");
					std::vector<int> keys;
					for (auto& x : j->second) {
						keys.push_back(x.first);
						CHECK_EQ(x.second, i.first, " value in group");
					}
					CHECK_EQ(keys, i.second, " keys in group");
				}
			});
			break;
		default:
			start([&](auto q) {
				auto r = q.select([](const auto& e, size_t i) { return std::make_tuple(e.first, e.second, i); }).get();
				CHECK_EQ(r.size(), m0.size());
				size_t k = 0;
				for (auto& i : m0) {
					CHECK(r[k] == std::make_tuple(i.first, i.second, k), "selected ", k);
					++k;
				}
			});
			break;
	}
	CHECK(m == m0, "source given by reference changed");
}

// plain values
PROPERTY("select_plain", 1)
{
	std::vector<int> v;
	auto n = g.large(30, 1500, 150);
	for (size_t i = 0; i != n; ++i) {
		v.push_back(int(g.choice(100)));
	}
	if (n > 1) {
		g.nontrivial();
	}
	g.say([&] {
		return pbt::cat("select of ", v);
	});
	const auto v0 = v;
	auto r = utki::linq(v).select([](int i) { return std::to_string(i); }).get();
	std::vector<std::string> e;
	for (auto i : v0) {
		e.push_back(std::to_string(i));
	}
	CHECK_EQ(r, e);
	CHECK(v == v0, "source changed");
	CHECK(utki::linq(v).get() == v0, "get of untouched collection");
	auto w = v;
	CHECK(utki::linq(std::move(w)).get() == v0, "get of untouched collection");
}

// collections of any order of magnitude
// elements which can only be moved, and elements which count their copies
namespace {
struct moved_only {
	std::unique_ptr<int> id;
	int key;

	explicit moved_only(const std::pair<int, int>& p) :
		id(std::make_unique<int>(p.second)),
		key(p.first)
	{}
};

struct counted {
	static size_t copies;
	std::unique_ptr<int> id;
	int key;

	explicit counted(const std::pair<int, int>& p) :
		id(std::make_unique<int>(p.second)),
		key(p.first)
	{}

	counted(const counted& c) :
		id(c.id ? std::make_unique<int>(*c.id) : nullptr),
		key(c.key)
	{
		++copies;
	}

	counted(counted&&) = default;

	counted& operator=(const counted& c)
	{
		this->id = c.id ? std::make_unique<int>(*c.id) : nullptr;
		this->key = c.key;
		++copies;
		return *this;
	}

	counted& operator=(counted&&) = default;
	~counted() = default;
};

size_t counted::copies = 0;

template <class C>
void moving(pbt::gen& g, const char* what)
{
	using T = typename C::value_type;
	using pairs = std::vector<std::pair<int, int>>;
	pairs model;
	auto n = g.large(30, 300, 60);
	for (size_t i = 0; i != n; ++i) {
		model.emplace_back(int(g.choice(6)), int(i));
	}
	if (n > 1) {
		g.nontrivial();
	}
	auto show = [](const pairs& p) {
		std::string r;
		for (auto& i : p) {
			r += pbt::cat(i.first, "/", i.second, " ");
		}
		return r;
	};
	g.say([&] {
		return pbt::cat("moving ", what, ": ", show(model));
	});
	counted::copies = 0;
	C c;
	for (auto& p : model) {
		c.emplace_back(p);
	}
	auto plain = [](const auto& c) {
		pairs r;
		for (auto& e : c) {
			r.emplace_back(e.key, e.id ? *e.id : -1);
		}
		return r;
	};
	auto check = [&](const pairs& got, const pairs& e, const char* op) {
		CHECK(got == e, op, " of moved elements gave ", show(got), "expected ", show(e));
		CHECK_EQ(counted::copies, size_t(0), " copies made by ", op, " of an rvalue ", what);
	};
	const int rem = int(g.choice(2));
	auto matches = [rem](const T& e) {
		return e.key % 3 != rem;
	};
	switch (g.choice(5)) {
		case 0:
			{
				pairs e;
				std::copy_if(model.begin(), model.end(), std::back_inserter(e), [&](auto& p) {
					return p.first % 3 != rem;
				});
				check(plain(utki::linq(std::move(c)).where(matches).get()), e, "where");
			}
			break;
		case 1:
			check(plain(utki::linq(std::move(c)).select([](T e) { return e; }).get()), model, "select by value");
			break;
		case 2:
			{
				std::vector<size_t> indices;
				check(
					plain(utki::linq(std::move(c))
							  .select([&](T&& e, size_t i) {
								  indices.push_back(i);
								  return std::move(e);
							  })
							  .get()),
					model,
					"select by rvalue with index"
				);
				for (size_t i = 0; i != n; ++i) {
					CHECK_EQ(indices[i], i, " index");
				}
			}
			break;
		case 3:
			{
				auto got = plain(utki::linq(std::move(c)).order_by([](const T& e) -> const int& { return e.key; }).get());
				auto e = model;
				CHECK(std::is_sorted(got.begin(), got.end(), [](auto& a, auto& b) { return a.first < b.first; }), "order_by of moved elements: ", show(got));
				std::sort(got.begin(), got.end());
				std::sort(e.begin(), e.end());
				check(got, e, "order_by");
			}
			break;
		case 4:
			{
				auto q = utki::linq(std::move(c)).group_by([](const T& e) { return e.key; }).get();
				pairs got;
				for (auto& i : q) {
					for (auto& e : i.second) {
						CHECK_EQ(e.key, i.first, " group");
						got.emplace_back(e.key, e.id ? *e.id : -1);
					}
				}
				auto e = model;
				std::sort(e.begin(), e.end());
				check(got, e, "group_by");
			}
			break;
		default:
			{
				auto got = plain(utki::linq(std::move(c))
									 .where(matches)
									 .select([](T e) { return e; })
									 .order_by([](const T& e) -> const int& { return *e.id; })
									 .get());
				pairs e;
				std::copy_if(model.begin(), model.end(), std::back_inserter(e), [&](auto& p) {
					return p.first % 3 != rem;
				});
				check(got, e, "where, select, order_by");
			}
			break;
	}
}
} // namespace

PROPERTY("moving", 2)
{
	switch (g.choice(3)) {
		case 0:
			moving<std::vector<moved_only>>(g, "vector of elements which can only be moved");
			break;
		case 1:
			moving<std::deque<moved_only>>(g, "deque of elements which can only be moved");
			break;
		case 2:
			moving<std::vector<counted>>(g, "vector");
			break;
		default:
			moving<std::deque<counted>>(g, "deque");
			break;
	}
}

PROPERTY("any_magnitude", 1)
{
	auto n = g.wide(17, 80);
	auto m = g.many();
	auto range = 1 + g.wide(17, 10);
	g.say([&] {
		return pbt::cat(n, " elements below ", range);
	});
	if (n > 1500) {
		g.nontrivial();
		g.label(n > 65535 ? "more than 65535 elements" : "more than 1500 elements");
	}
	std::vector<std::pair<uint32_t, uint32_t>> v(n);
	for (size_t i = 0; i != n; ++i) {
		v[i] = {uint32_t(m.below(range)), uint32_t(i)};
	}
	auto key = [](const auto& p) {
		return p.first;
	};
	auto key_reference = [](const auto& p) -> const uint32_t& {
		return p.first;
	};
	auto by_key = [](const auto& a, const auto& b) {
		return a.first < b.first;
	};
	auto s = utki::linq(v).select(key).get();
	CHECK_EQ(s.size(), n, " selected");
	for (size_t i = 0; i != n; ++i) {
		CHECK_EQ(s[i], v[i].first, " selected at ", i);
	}
	auto indices = utki::linq(v).select([](const auto& p, size_t i) {
		return std::make_pair(p.second, i);
	}).get();
	CHECK_EQ(indices.size(), n, " selected with index");
	for (size_t i = 0; i != n; ++i) {
		CHECK(indices[i].first == i && indices[i].second == i, "index of ", i, " is ", indices[i].second, ", element ", indices[i].first);
	}
	auto even = [](const auto& p) {
		return p.first % 2 == 0;
	};
	std::vector<std::pair<uint32_t, uint32_t>> evens;
	std::copy_if(v.begin(), v.end(), std::back_inserter(evens), even);
	CHECK(utki::linq(v).where(even).get() == evens, "where");
	auto o = utki::linq(v).order_by(key_reference).get();
	CHECK_EQ(o.size(), n, " ordered");
	CHECK(std::is_sorted(o.begin(), o.end(), by_key), "order_by");
	std::sort(o.begin(), o.end());
	auto sorted = v;
	std::sort(sorted.begin(), sorted.end());
	CHECK(o == sorted, "elements of order_by");
	auto q = utki::linq(v).group_by(key).get();
	size_t total = 0;
	for (auto& e : q) {
		total += e.second.size();
		size_t last = 0;
		bool first = true;
		for (auto& p : e.second) {
			CHECK_EQ(p.first, e.first, " key of group");
			CHECK(first || p.second > last, "order in group");
			last = p.second;
			first = false;
		}
	}
	CHECK_EQ(total, n, " elements in groups");
}
