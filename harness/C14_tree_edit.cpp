// C14: edits of forests through traversal iterators, compared to a model
#include "tree_ref.hpp"

const char* const pbt::rule = "at least two edits, at least one of them below the root level";

namespace {
template <class C>
typename C::value_type build_one(const ref::node& n)
{
	return std::move(*ref::build<C>({n}).begin());
}

template <class C>
void run(pbt::gen& g)
{
	auto f = ref::gen_forest(g, 30);
	g.say([&] {
		return "forest " + ref::show(f);
	});
	auto c = ref::build<C>(f);
	utki::traversal<C> tr(c);
	using path = std::vector<typename C::size_type>;
	int next = 1000;

	auto it = tr.begin();
	// position of it in the model
	ref::path pos{0};

	auto at_end = [&] {
		return pos.size() == 1 && pos[0] == f.size();
	};

	size_t deep = 0;
	auto steps = 1 + g.size(30);
	for (size_t s = 0; s != steps; ++s) {
		// sometimes go on with the iterator returned last, sometimes take a new one
		auto order = ref::preorder(f);
		bool fresh = g.boolean();
		if (fresh) {
			if (order.empty() || g.chance(1, 8)) {
				pos = {f.size()};
				it = tr.end();
			} else {
				pos = g.pick(order);
				it = tr.make_iterator(path(pos.begin(), pos.end()));
			}
		} else {
			g.label("continues with returned iterator");
		}
		auto n = [&] {
			ref::node ret{next++, {}};
			if (g.chance(1, 3)) {
				ret.children = ref::gen_forest(g, 5, next);
				next += 10;
			}
			return ret;
		};
		if (pos.size() > 1) {
			++deep;
		}
		switch (g.weighted({3, 3, 3, 2})) {
			case 0:
				{
					auto nn = n();
					auto t = build_one<C>(nn);
					bool copy = g.boolean();
					g.say([&] {
						return pbt::cat("insert before ", pos, " ", ref::show({nn}));
					});
					it = copy ? tr.insert(it, std::as_const(t)) : tr.insert(it, std::move(t));
					if (copy) {
						CHECK(t == build_one<C>(nn), "inserted by copy, original changed");
					}
					auto& l = ref::level_of(f, pos);
					l.insert(l.begin() + pos.back(), nn);
				}
				break;
			case 1:
				{
					if (at_end()) {
						break;
					}
					auto nn = n();
					auto t = build_one<C>(nn);
					bool copy = g.boolean();
					g.say([&] {
						return pbt::cat("insert after ", pos, " ", ref::show({nn}));
					});
					it = copy ? tr.insert_after(it, std::as_const(t)) : tr.insert_after(it, std::move(t));
					if (copy) {
						CHECK(t == build_one<C>(nn), "inserted by copy, original changed");
					}
					auto& l = ref::level_of(f, pos);
					++pos.back();
					l.insert(l.begin() + pos.back(), nn);
				}
				break;
			case 2:
				{
					if (at_end()) {
						break;
					}
					g.say([&] {
						return pbt::cat("erase ", pos);
					});
					it = tr.erase(it);
					auto& l = ref::level_of(f, pos);
					l.erase(l.begin() + pos.back());
					// next in traversal order after the erased subtree
					while (pos.size() > 1 && pos.back() == ref::level_of(f, pos).size()) {
						pos.pop_back();
						++pos.back();
					}
					if (at_end()) {
						g.label("erase returns end");
					}
				}
				break;
			default:
				// step
				{
					auto i = std::find(order.begin(), order.end(), pos);
					if (g.boolean()) {
						if (i == order.end()) {
							break;
						}
						++it;
						++i;
					} else {
						if (i == order.begin()) {
							break;
						}
						--it;
						--i;
					}
					pos = i == order.end() ? ref::path{f.size()} : *i;
					g.say([&] {
						return pbt::cat("step to ", pos);
					});
				}
				break;
		}
		auto now = ref::read(c);
		CHECK(now == f, "forest ", ref::show(now), " is not the expected ", ref::show(f));
		auto idx = it.index();
		CHECK_EQ(ref::path(idx.begin(), idx.end()), pos, " index of returned iterator");
		CHECK_EQ(it == tr.end(), at_end(), " is end");
		if (!at_end()) {
			CHECK_EQ(it->value, ref::at(f, pos).value, " value at returned iterator");
			CHECK(it == tr.make_iterator(path(pos.begin(), pos.end())), "returned iterator differs from a fresh one");
			CHECK(&*it == ref::node_at(c, pos), "returned iterator addresses another node");
		}
	}
	// the iterator can be used to go on to both ends
	{
		auto order = ref::preorder(f);
		auto i = std::find(order.begin(), order.end(), pos);
		auto j = it;
		for (auto k = i; k != order.end(); ++k, ++j) {
			CHECK_EQ(j->value, ref::at(f, *k).value, " going on from the returned iterator");
		}
		CHECK(j == tr.end(), "end is not reached");
		j = it;
		for (auto k = i; k != order.begin();) {
			--k;
			--j;
			CHECK_EQ(j->value, ref::at(f, *k).value, " going back from the returned iterator");
		}
		CHECK(j == tr.begin(), "beginning is not reached");
	}
	if (steps >= 2 && deep) {
		g.nontrivial();
	}
}
// erasing by predicate while traversing, as in erase-remove loops
template <class C>
void filter(pbt::gen& g)
{
	auto f = ref::gen_forest(g, 40);
	auto c = ref::build<C>(f);
	auto tr = utki::make_traversal(c);
	auto mod = int(2 + g.choice(3));
	auto order = ref::preorder(f);
	g.say([&] {
		return pbt::cat("forest ", ref::show(f), " erase all values divisible by ", mod);
	});
	if (order.size() >= 3 && order.size() > f.size()) {
		g.nontrivial();
	}
	size_t n = 0;
	for (auto i = tr.begin(); i != tr.end();) {
		CHECK(n++ <= order.size(), "loop does not end");
		if (i->value % mod == 0) {
			i = tr.erase(i);
		} else {
			++i;
		}
	}
	std::function<void(ref::forest&)> rm = [&](ref::forest& l) {
		l.erase(std::remove_if(l.begin(), l.end(), [&](auto& n) { return n.value % mod == 0; }), l.end());
		for (auto& n : l) {
			rm(n.children);
		}
	};
	rm(f);
	CHECK(ref::read(c) == f, "forest ", ref::show(ref::read(c)), " is not the expected ", ref::show(f));
}
} // namespace

PROPERTY("vector", 4)
{
	run<utki::tree<int>::container_type>(g);
}

PROPERTY("deque", 1)
{
	run<utki::tree<int, std::deque>::container_type>(g);
}

PROPERTY("list", 1)
{
	run<utki::tree<int, std::list>::container_type>(g);
}

PROPERTY("filter", 2)
{
	switch (g.choice(2)) {
		case 0:
			return filter<utki::tree<int>::container_type>(g);
		case 1:
			return filter<utki::tree<int, std::deque>::container_type>(g);
		default:
			return filter<utki::tree<int, std::list>::container_type>(g);
	}
}

// numbers of nodes of any order of magnitude
PROPERTY("any_magnitude", 1)
{
	using tree = utki::tree<uint32_t>;
	auto n = 1 + g.wide(16, 60);
	tree::container_type c;
	std::vector<uint32_t> model;
	for (size_t i = 0; i != n; ++i) {
		c.push_back(tree(uint32_t(i)));
		model.push_back(uint32_t(i));
	}
	bool nested = g.boolean();
	if (nested) {
		tree t(0xffffff, std::move(c));
		c.clear();
		c.push_back(tree(0xfffffe));
		c.push_back(std::move(t));
	}
	g.say([&] {
		return pbt::cat(n, nested ? " children" : " roots");
	});
	if (n > 600) {
		g.nontrivial();
		g.label(n > 65535 ? "more than 65535 nodes" : "more than 600 nodes");
	}
	auto tr = utki::make_traversal(c);
	auto path = [&](size_t at) {
		return nested ? std::vector<size_t>{1, at} : std::vector<size_t>{at};
	};
	auto steps = 1 + g.choice(5);
	for (size_t s = 0; s != steps && !model.empty(); ++s) {
		auto at = size_t(g.choice(model.size() - 1));
		auto what = g.choice(2);
		g.say([&] {
			return pbt::cat(what == 0 ? "erase " : what == 1 ? "insert before " : "insert after ", at);
		});
		auto i = tr.make_iterator(path(at));
		auto v = uint32_t(0x100000 + s);
		switch (what) {
			case 0:
				i = tr.erase(i);
				model.erase(model.begin() + std::ptrdiff_t(at));
				if (at != model.size()) {
					CHECK_EQ(i->value, model[at], " node after the erased one");
				} else {
					CHECK(i == tr.end(), "iterator after erasing the last");
				}
				break;
			case 1:
				i = tr.insert(i, tree(v));
				model.insert(model.begin() + std::ptrdiff_t(at), v);
				CHECK_EQ(i->value, v, " inserted node");
				CHECK_EQ(i.index(), path(at), " inserted node");
				break;
			default:
				i = tr.insert_after(i, tree(v));
				model.insert(model.begin() + std::ptrdiff_t(at) + 1, v);
				CHECK_EQ(i->value, v, " inserted node");
				CHECK_EQ(i.index(), path(at + 1), " inserted node");
				break;
		}
		auto& nodes = nested ? c.back().children : c;
		CHECK_EQ(nodes.size(), model.size(), " nodes");
		for (size_t k = 0; k != model.size(); ++k) {
			CHECK_EQ(nodes[k].value, model[k], " node ", k);
			CHECK(nodes[k].children.empty(), "children of ", k);
		}
	}
}
