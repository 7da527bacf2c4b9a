// C13: tree traversal
#include "tree_ref.hpp"

const char* const pbt::rule = "the forest has at least three nodes and at least one node below the root level";

namespace {
template <class It>
void check_at(pbt::gen& g, const It& it, const ref::forest& f, const ref::path& p, bool bounds = false)
{
	CHECK_EQ(it.depth(), p.size(), " depth");
	auto idx = it.index();
	CHECK_EQ(ref::path(idx.begin(), idx.end()), p, " index");
	CHECK_EQ((*it).value, ref::at(f, p).value, " value at ", p);
	CHECK_EQ(it->value, ref::at(f, p).value, " value at ", p);
	CHECK_EQ(it->children.size(), ref::at(f, p).children.size(), " children at ", p);
	It m = it;
	CHECK(&*m == &*it && m.operator->() == &*it, "mutable and constant access address different nodes");
	const ref::forest* up = nullptr;
	for (size_t l = 0; l != p.size(); ++l) {
		const auto& n = (l == 0 ? f : *up)[p[l]];
		up = &n.children;
		CHECK_EQ(it.at_level(l).value, n.value, " ancestor at level ", l, " of ", p);
		CHECK(&m.at_level(l) == &it.at_level(l), "at_level");
	}
	CHECK(&it.at_level(p.size() - 1) == &*it, "at_level of the node itself");
	if (bounds) {
		auto l = g.beyond(p.size());
		CHECK(pbt::throws<std::out_of_range>([&] { it.at_level(l); }), "at_level ", l, " of ", p);
		CHECK(pbt::throws<std::out_of_range>([&] { m.at_level(l); }), "at_level ", l, " of ", p);
	}
	auto pp = p;
	++pp.back();
	CHECK_EQ(it.is_last_child(), !ref::valid(f, pp), " is last child at ", p);
}

// constant or mutable traversal object, iterator getters
template <class Tr, class It, class B, class E, class Mk>
void traverse(
	pbt::gen& g,
	Tr& tr,
	const ref::forest& f,
	const std::vector<ref::path>& order,
	It first,
	It last,
	B rfirst,
	E rlast,
	Mk make,
	bool ordered
)
{
	// forwards
	size_t n = 0;
	for (auto i = first; i != last; ++i, ++n) {
		CHECK(n < order.size(), "visits more nodes than there are, at ", i.index());
		CHECK(!(i == last), "equal to the end");
		check_at(g, i, f, order[n]);
	}
	CHECK_EQ(n, order.size(), " number of visited nodes");
	// backwards
	{
		auto i = last;
		for (n = order.size(); n != 0; --n) {
			CHECK(i != first, "beginning is reached too early, at ", n);
			auto& r = --i;
			CHECK(&r == &i, "-- returns itself");
			check_at(g, i, f, order[n - 1]);
		}
		CHECK(i == first, "beginning is not reached");
	}
	{
		n = order.size();
		for (auto i = rfirst; i != rlast; ++i, --n) {
			CHECK(n != 0, "reverse traversal visits more nodes than there are");
			CHECK_EQ((*i).value, ref::at(f, order[n - 1]).value, " reverse at ", order[n - 1]);
		}
		CHECK_EQ(n, size_t(0), " nodes are left by reverse traversal");
	}
	// random walk
	{
		auto i = first;
		size_t pos = 0;
		auto steps = g.size(60);
		for (size_t s = 0; s != steps; ++s) {
			if (pos != order.size() && (pos == 0 || g.choice(2) != 0)) {
				auto& r = ++i;
				CHECK(&r == &i, "++ returns itself");
				++pos;
			} else if (pos != 0) {
				--i;
				--pos;
			}
			CHECK_EQ(i == last, pos == order.size(), " at the end");
			CHECK_EQ(i == first, pos == 0, " at the beginning");
			if (pos != order.size()) {
				check_at(g, i, f, order[pos]);
				CHECK(i == make(order[pos]), "iterator made of index path differs at ", order[pos]);
			}
		}
	}
	// iterator made of index path can be walked
	if (!order.empty()) {
		size_t pos = g.choice(order.size() - 1);
		auto i = make(order[pos]);
		check_at(g, i, f, order[pos], true);
		auto j = i;
		for (size_t k = pos; k != order.size(); ++k) {
			check_at(g, j, f, order[k]);
			++j;
		}
		CHECK(j == last, "end is not reached from ", order[pos]);
		for (size_t k = pos; k != 0; --k) {
			--i;
			check_at(g, i, f, order[k - 1]);
		}
		CHECK(i == first, "beginning is not reached from ", order[pos]);
	}
}

template <class C>
void run(pbt::gen& g)
{
	auto f = ref::gen_forest(g);
	auto order = ref::preorder(f);
	g.say([&] {
		return "forest " + ref::show(f);
	});
	if (order.size() >= 3 && order.size() > f.size()) {
		g.nontrivial();
	}
	auto c = ref::build<C>(f);
	const auto& cc = c;

	auto tr = utki::make_traversal(c);
	auto ctr = utki::make_traversal(cc);
	using path = std::vector<typename C::size_type>;

	CHECK((std::is_same_v<decltype(ctr), utki::traversal<const C>>), "type");
	CHECK((std::is_same_v<decltype(*tr.begin()), typename C::value_type&>), "type");
	auto cb = ctr.begin();
	CHECK((std::is_same_v<decltype(*cb), const typename C::value_type&>), "type");

	auto make = [&](const ref::path& p) {
		return tr.make_iterator(path(p.begin(), p.end()));
	};
	auto cmake = [&](const ref::path& p) {
		return tr.make_const_iterator(utki::make_span(p));
	};
	auto ccmake = [&](const ref::path& p) {
		return ctr.make_iterator(p);
	};
	switch (g.choice(2)) {
		case 0:
			traverse(g, tr, f, order, tr.begin(), tr.end(), tr.rbegin(), tr.rend(), make, true);
			break;
		case 1:
			traverse(g, tr, f, order, tr.cbegin(), tr.cend(), tr.crbegin(), tr.crend(), cmake, true);
			break;
		default:
			traverse(g, ctr, f, order, ctr.begin(), ctr.end(), ctr.rbegin(), ctr.rend(), ccmake, true);
			break;
	}

	// no node is there at the end, hence it is not the last one
	CHECK(!tr.end().is_last_child() && !tr.cend().is_last_child(), "end is last child");

	// order of iterators is the order of traversal
	if constexpr (ref::is_random<C>::value) {
		std::vector<decltype(tr.begin())> its;
		std::vector<decltype(tr.cbegin())> cits;
		for (auto i = tr.begin(); i != tr.end(); ++i) {
			its.push_back(i);
		}
		for (auto i = tr.cbegin(); i != tr.cend(); ++i) {
			cits.push_back(i);
		}
		its.push_back(tr.end());
		cits.push_back(tr.cend());
		auto cmp = [&](auto& v, size_t a, size_t b) {
			CHECK_EQ(v[a] < v[b], a < b, " ", a, " ", b);
			CHECK_EQ(v[a] > v[b], a > b, " ", a, " ", b);
			CHECK_EQ(v[a] <= v[b], a <= b, " ", a, " ", b);
			CHECK_EQ(v[a] >= v[b], a >= b, " ", a, " ", b);
			CHECK_EQ(v[a] == v[b], a == b, " ", a, " ", b);
			CHECK_EQ(v[a] != v[b], a != b, " ", a, " ", b);
		};
		for (unsigned k = 0; k != 12; ++k) {
			auto a = g.choice(its.size() - 1);
			auto b = g.choice(its.size() - 1);
			cmp(its, a, b);
			cmp(cits, b, a);
		}
	}

	// index paths
	for (unsigned k = 0; k != 4; ++k) {
		ref::path p;
		if (!order.empty() && g.choice(3)) {
			p = g.pick(order);
			switch (g.choice(4)) {
				case 0:
					break;
				case 1:
					p.push_back(g.choice(2));
					break;
				case 2:
					p[g.choice(p.size() - 1)] += 1 + g.choice(1);
					break;
				case 3:
					p.pop_back();
					break;
				default:
					p[g.choice(p.size() - 1)] = g.beyond(g.choice(3));
					break;
			}
		} else {
			auto n = g.choice(4);
			for (size_t i = 0; i != n; ++i) {
				p.push_back(g.choice(3));
			}
		}
		g.say([&] {
			return pbt::cat("index path ", p);
		});
		auto v = ref::valid(f, p);
		if constexpr (ref::is_random<C>::value) {
			CHECK_EQ(tr.is_valid(p), v, " validity of ", p);
			CHECK_EQ(ctr.is_valid(utki::make_span(p)), v, " validity of ", p);
			if (p.size() == 2) {
				CHECK_EQ((tr.is_valid({p[0], p[1]})), v, " validity of ", p);
			}
		}
		g.label(v ? "valid index path" : "invalid index path");
		if (v) {
			CHECK(&*make(p) == ref::node_at(c, p), "make_iterator ", p);
			CHECK(&*cmake(p) == ref::node_at(c, p), "make_const_iterator ", p);
			if constexpr (ref::is_random<C>::value) {
				const auto& k = tr;
				CHECK(&tr[p] == ref::node_at(c, p), "operator[] ", p);
				CHECK(&k[p] == ref::node_at(c, p), "operator[] const ", p);
				CHECK(&tr[utki::make_span(p)] == ref::node_at(c, p), "operator[] span ", p);
				if (p.size() == 3) {
					CHECK((&tr[{p[0], p[1], p[2]}]) == ref::node_at(c, p), "operator[] list ", p);
					CHECK((&*tr.make_iterator({p[0], p[1], p[2]}) == ref::node_at(c, p)), "make_iterator list ", p);
					CHECK((&*tr.make_const_iterator({p[0], p[1], p[2]}) == ref::node_at(c, p)), "make_const_iterator list ", p);
				}
			}
		} else if (!p.empty()) {
			CHECK(pbt::throws<std::out_of_range>([&] { make(p); }), "make_iterator of invalid ", p);
			CHECK(pbt::throws<std::out_of_range>([&] { cmake(p); }), "make_const_iterator of invalid ", p);
			CHECK(pbt::throws<std::out_of_range>([&] { ccmake(p); }), "make_iterator of invalid ", p);
		}
	}

	// mutable traversal writes to the nodes
	int add = 1000;
	for (auto& n : tr) {
		n.value += add;
	}
	for (auto i = tr.rbegin(); i != tr.rend(); ++i) {
		(*i).value -= add;
	}
	CHECK(ref::read(c) == f, "forest changed by traversal");
}
} // namespace

PROPERTY("vector", 4)
{
	run<utki::tree<int>::container_type>(g);
}

PROPERTY("deque", 1)
{
	run<utki::tree<int, std::deque>::container_type>(g);
}

PROPERTY("list", 1)
{
	run<utki::tree<int, std::list>::container_type>(g);
}

// numbers of nodes of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	using tree = utki::tree<uint32_t>;
	auto n = 1 + g.wide(17, 200);
	auto parent = size_t(g.choice(n - 1));
	auto k = g.wide(17, 200);
	g.say([&] {
		return pbt::cat(n, " roots, root ", parent, " has ", k, " children");
	});
	if (n + k > 1000) {
		g.nontrivial();
		g.label(n + k > 65535 ? "more than 65535 nodes" : "more than 1000 nodes");
	}
	tree::container_type c;
	uint32_t next = 0;
	for (size_t i = 0; i != n; ++i) {
		c.push_back(tree(next++));
		if (i == parent) {
			for (size_t j = 0; j != k; ++j) {
				c.back().children.push_back(tree(next++));
			}
		}
	}
	auto tr = utki::make_traversal(c);
	uint32_t x = 0;
	auto i = tr.begin();
	for (; i != tr.end(); ++i) {
		CHECK_EQ(i->value, x, " node visited");
		++x;
	}
	CHECK_EQ(x, next, " nodes visited");
	for (; x != 0; --x) {
		--i;
		CHECK_EQ(i->value, x - 1, " node visited backwards");
	}
	CHECK(i == tr.begin(), "begin is not reached");
	// indices
	auto target = uint32_t(g.choice(next - 1));
	std::vector<size_t> path;
	if (target <= parent) {
		path = {target};
	} else if (target <= parent + k) {
		path = {parent, target - parent - 1};
	} else {
		path = {target - k};
	}
	CHECK(tr.is_valid(path), "index ", path, " is not valid");
	auto t = tr.make_iterator(path);
	CHECK_EQ(t->value, target, " node of index ", path);
	CHECK_EQ(t.index(), path, " index of node ", target);
	CHECK_EQ(t.is_last_child(), path.size() == 1 ? path[0] + 1 == n : path[1] + 1 == k, " last child ", path);
	CHECK(!tr.is_valid({n}), "index after the last is valid");
	CHECK(!tr.is_valid({parent, k}), "index after the last is valid");
	CHECK_EQ((tr.begin() < t), target != 0, " order of ", path);
	CHECK(!(t < tr.begin()), "order of ", path);
}
