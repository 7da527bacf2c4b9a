// C15: value semantics of trees
#include "tree_ref.hpp"

#include <memory>

const char* const pbt::rule = "at least three operations and at least one copy or move of a tree with children";

namespace {
// counts its instances, notices use after destruction and copying
struct tracked {
	static int64_t live;
	static int64_t copies;
	static bool broken;
	static constexpr uint32_t alive = 0xa11feu;

	uint32_t magic = alive;
	int v = 0;
	// own heap memory, so that sharing or double destruction is seen by the address sanitizer
	std::unique_ptr<int> heap;

	tracked() :
		heap(new int(0))
	{
		++live;
	}

	explicit tracked(int v) :
		v(v),
		heap(new int(v))
	{
		++live;
	}

	tracked(const tracked& t) :
		v(t.v),
		heap(t.heap ? new int(*t.heap) : nullptr)
	{
		t.check();
		++live;
		++copies;
	}

	tracked(tracked&& t) noexcept :
		v(t.v),
		heap(std::move(t.heap))
	{
		t.check();
		t.v = -1;
		++live;
	}

	tracked& operator=(const tracked& t)
	{
		this->check();
		t.check();
		if (this != &t) {
			v = t.v;
			heap.reset(t.heap ? new int(*t.heap) : nullptr);
		}
		++copies;
		return *this;
	}

	tracked& operator=(tracked&& t) noexcept
	{
		this->check();
		t.check();
		if (this != &t) {
			v = t.v;
			t.v = -1;
			heap = std::move(t.heap);
		}
		return *this;
	}

	~tracked()
	{
		this->check();
		magic = 0;
		--live;
	}

	void check() const
	{
		if (magic != alive) {
			broken = true;
		}
	}

	bool operator==(const tracked& t) const
	{
		return v == t.v;
	}

	explicit operator int() const
	{
		this->check();
		return heap && *heap == v ? v : -12345;
	}

	void set(int n)
	{
		v = n;
		heap.reset(new int(n));
	}
};

int64_t tracked::live = 0;
int64_t tracked::copies = 0;
bool tracked::broken = false;

size_t count(const ref::node& n)
{
	size_t ret = 1;
	for (auto& c : n.children) {
		ret += count(c);
	}
	return ret;
}

template <class Tree>
ref::node read1(const Tree& t)
{
	return {int(t.value), ref::read(t.children)};
}

template <class Tree>
Tree build1(const ref::node& n)
{
	Tree t;
	t.value = typename Tree::value_type(n.value);
	t.children = ref::build<typename Tree::container_type>(n.children);
	return t;
}

template <class Tree>
void run(pbt::gen& g)
{
	using container = typename Tree::container_type;
	int64_t live0 = tracked::live;
	tracked::broken = false;
	{
		struct slot {
			Tree t;
			ref::node m;
			bool moved = false; // value unspecified, can only be assigned and destroyed
		};

		std::vector<std::unique_ptr<slot>> slots;
		int next = 1;
		auto small = [&] {
			ref::node n{next++, {}};
			if (g.boolean()) {
				n.children = ref::gen_forest(g, 6, next);
				next += 8;
				if (g.boolean()) {
					// equal values
					n.value = 7;
					for (auto& c : n.children) {
						c.value = 7;
					}
				}
			}
			return n;
		};
		auto any = [&](bool usable) -> slot* {
			std::vector<slot*> c;
			for (auto& s : slots) {
				if (!usable || !s->moved) {
					c.push_back(s.get());
				}
			}
			return c.empty() ? nullptr : g.pick(c);
		};
		bool interesting = false;
		auto steps = 1 + g.size(25);
		for (size_t st = 0; st != steps; ++st) {
			auto op = g.choice(11);
			if (slots.size() > 6 && op < 5) {
				op = 11;
			}
			switch (op) {
				case 0: // value
					{
						int v = next++;
						g.say([&] {
							return pbt::cat("construct with value ", v);
						});
						if (g.boolean()) {
							slots.emplace_back(new slot{Tree(tracked(v)), {v, {}}});
						} else {
							tracked tv(v);
							slots.emplace_back(new slot{Tree(tv), {v, {}}});
							CHECK_EQ(tv.v, v);
						}
					}
					break;
				case 1: // children container
					{
						ref::forest f;
						f.push_back(small());
						f.push_back(small());
						auto c = ref::build<container>(f);
						bool with_value = g.boolean();
						int v = with_value ? next++ : 0;
						g.say([&] {
							return pbt::cat("construct of children ", ref::show(f), " value ", v);
						});
						if (g.boolean()) {
							auto before = tracked::copies;
							slots.emplace_back(
								new slot{with_value ? Tree(tracked(v), std::move(c)) : Tree(std::move(c)), {v, f}}
							);
							CHECK_EQ(tracked::copies, before, " children moved in were copied");
						} else {
							slots.emplace_back(new slot{with_value ? Tree(tracked(v), c) : Tree(c), {v, f}});
							CHECK(ref::read(c) == f, "children given by copy changed");
							if (!c.empty()) {
								c.begin()->value.set(9999);
							}
						}
					}
					break;
				case 2: // initializer list
					{
						auto a = small();
						auto b = small();
						auto ta = build1<Tree>(a);
						auto tb = build1<Tree>(b);
						int v = next++;
						switch (g.choice(3)) {
							case 0:
								slots.emplace_back(new slot{Tree(std::initializer_list<Tree>{ta, tb}), {0, {a, b}}});
								break;
							case 1:
								slots.emplace_back(new slot{Tree(tracked(v), {ta, tb}), {v, {a, b}}});
								break;
							case 2:
								slots.emplace_back(new slot{Tree(tracked(v), {tb, ta, tb}), {v, {b, a, b}}});
								break;
							default:
								slots.emplace_back(
									new slot{Tree(tracked(v), {Tree(tracked(3), {ta}), tb}), {v, {{3, {a}}, b}}}
								);
								break;
						}
						g.say([&] {
							return "construct of list " + ref::show({slots.back()->m});
						});
						CHECK(read1(ta) == a && read1(tb) == b, "listed trees changed");
					}
					break;
				case 3: // copy
					if (auto s = any(true)) {
						g.say([&] {
							return "copy " + ref::show({s->m});
						});
						slots.emplace_back(new slot{Tree(std::as_const(s->t)), s->m});
						interesting = interesting || !s->m.children.empty();
						CHECK(slots.back()->t == s->t, "copy is not equal");
						CHECK(read1(s->t) == s->m, "copied tree changed");
					}
					break;
				case 4: // move
					if (auto s = any(true)) {
						g.say([&] {
							return "move " + ref::show({s->m});
						});
						auto before = tracked::copies;
						slots.emplace_back(new slot{Tree(std::move(s->t)), s->m});
						CHECK_EQ(tracked::copies, before, " values copied by move");
						interesting = interesting || !s->m.children.empty();
						s->moved = true;
					}
					break;
				case 5: // copy assignment
					if (auto s = any(true)) {
						auto d = any(false);
						g.say([&] {
							return pbt::cat("copy-assign ", ref::show({s->m}), s == d ? " to itself" : "");
						});
						d->t = std::as_const(s->t);
						d->m = ref::node(s->m);
						d->moved = false;
						interesting = interesting || !s->m.children.empty();
						CHECK(d->t == s->t, "assigned copy is not equal");
					}
					break;
				case 6: // move assignment
					if (auto s = any(true)) {
						auto d = any(false);
						if (s == d) {
							break;
						}
						g.say([&] {
							return "move-assign " + ref::show({s->m});
						});
						auto before = tracked::copies;
						d->t = std::move(s->t);
						CHECK_EQ(tracked::copies, before, " values copied by move");
						d->m = s->m;
						d->moved = false;
						s->moved = true;
						interesting = interesting || !s->m.children.empty();
					}
					break;
				case 7: // assign a part of a tree to another part of the same tree
					if (auto s = any(true)) {
						auto order = ref::preorder(s->m.children);
						if (order.empty()) {
							break;
						}
						auto node_of = [&](const std::vector<size_t>& p) -> Tree& {
							return p.empty() ? s->t : *ref::node_at(s->t.children, p);
						};
						auto model_of = [&](const std::vector<size_t>& p) -> ref::node& {
							return p.empty() ? s->m : const_cast<ref::node&>(ref::at(s->m.children, p));
						};
						std::vector<size_t> low = g.pick(order);
						std::vector<size_t> high(low.begin(), low.begin() + std::ptrdiff_t(g.choice(low.size() - 1)));
						interesting = true;
						auto kind = g.choice(2);
						g.say([&] {
							return pbt::cat("in tree ", ref::show({s->m}), " assign to node ",
											kind == 2 ? low : high, kind == 0 ? " copy of " : kind == 1 ? " moved " : " copy of ",
											kind == 2 ? high : low);
						});
						if (kind == 2) { // ancestor to descendant
							ref::node m = model_of(high);
							node_of(low) = std::as_const(node_of(high));
							model_of(low) = std::move(m);
						} else {
							ref::node m = model_of(low);
							if (kind == 0) {
								node_of(high) = std::as_const(node_of(low));
							} else {
								auto before = tracked::copies;
								node_of(high) = std::move(node_of(low));
								CHECK_EQ(tracked::copies, before, " values copied by move");
							}
							model_of(high) = std::move(m);
						}
						CHECK(read1(s->t) == s->m, "tree differs after assignment of its part");
					}
					break;
				case 8: // mutate
				case 9:
					if (auto s = any(true)) {
						auto order = ref::preorder(s->m.children);
						int v = next++;
						if (order.empty() || g.chance(1, 4)) {
							s->t.value.set(v);
							s->m.value = v;
						} else {
							auto p = g.pick(order);
							ref::node_at(s->t.children, p)->value.set(v);
							const_cast<ref::node&>(ref::at(s->m.children, p)).value = v;
						}
						g.say([&] {
							return "mutated to " + ref::show({s->m});
						});
					}
					break;
				case 10: // add a child
					if (auto s = any(true)) {
						auto n = small();
						auto order = ref::preorder(s->m.children);
						if (order.empty()) {
							s->t.children.push_back(build1<Tree>(n));
							s->m.children.push_back(n);
						} else {
							auto p = g.pick(order);
							ref::node_at(s->t.children, p)->children.push_back(build1<Tree>(n));
							const_cast<ref::node&>(ref::at(s->m.children, p)).children.push_back(n);
						}
						g.say([&] {
							return "added child to " + ref::show({s->m});
						});
					}
					break;
				default: // destroy
					if (!slots.empty()) {
						slots.erase(slots.begin() + std::ptrdiff_t(g.choice(slots.size() - 1)));
					}
					break;
			}
			// all trees are what the model says
			size_t n = 0;
			bool exact = true;
			for (auto& s : slots) {
				if (s->moved) {
					exact = false;
					continue;
				}
				auto now = read1(s->t);
				CHECK(now == s->m, "tree ", ref::show({now}), " is not the expected ", ref::show({s->m}));
				n += count(s->m);
			}
			CHECK(!tracked::broken, "value is used after destruction");
			if (exact) {
				CHECK_EQ(tracked::live - live0, int64_t(n), " number of living values");
			} else {
				CHECK(tracked::live - live0 >= int64_t(n), "too few values are alive");
			}
			// equality
			if (auto a = any(true)) {
				auto b = any(true);
				CHECK_EQ(a->t == b->t, a->m == b->m, " equality of ", ref::show({a->m}), " and ", ref::show({b->m}));
				CHECK_EQ(!(a->t == b->t), !(a->m == b->m));
				CHECK(a->t == a->t, "not equal to itself");
				CHECK_EQ(a->t == b->t.value, a->m.value == b->m.value, " comparison with value");
				// a single difference
				auto order = ref::preorder(a->m.children);
				if (!order.empty()) {
					Tree c = a->t;
					auto p = g.pick(order);
					auto node = ref::node_at(c.children, p);
					switch (g.choice(4)) {
						case 3:
							// same children, other order
							{
								auto& l = p.size() == 1 ? c.children :
														  ref::node_at(c.children, ref::path(p.begin(), p.end() - 1))->children;
								auto x = std::next(l.begin(), std::ptrdiff_t(p.back()));
								auto y = std::next(l.begin(), std::ptrdiff_t(g.choice(l.size() - 1)));
								if (read1(*x) == read1(*y)) {
									node->value.set(node->value.v + 1);
								} else {
									std::iter_swap(x, y);
								}
							}
							break;
						case 0:
							node->value.set(node->value.v + 1);
							break;
						case 1:
							node->children.push_back(Tree(tracked(1)));
							break;
						case 2:
							// same values, other shape: the node becomes a child of a new node
							{
								Tree old = std::move(*node);
								Tree fresh{tracked(old.value.v)};
								fresh.children.push_back(std::move(old));
								*node = std::move(fresh);
							}
							break;
						default:
							c.children.erase(c.children.begin());
							break;
					}
					CHECK(!(c == a->t), "equal to a tree which differs at ", p);
					CHECK(!(a->t == c), "equal to a tree which differs at ", p);
				}
				// compatible with standard algorithms
				if (!a->m.children.empty()) {
					auto v = g.pick(a->m.children).value;
					auto i = std::find(a->t.children.begin(), a->t.children.end(), tracked(v));
					auto j = std::find_if(a->m.children.begin(), a->m.children.end(), [&](auto& n) { return n.value == v; });
					CHECK_EQ(
						std::distance(a->t.children.begin(), i),
						std::distance(a->m.children.begin(), j),
						" child found by value"
					);
				}
			}
		}
		if (interesting && steps >= 3) {
			g.nontrivial();
		}
	}
	CHECK(!tracked::broken, "value is used after destruction");
	CHECK_EQ(tracked::live, live0, " values alive after all trees are gone");
}
} // namespace

PROPERTY("vector", 4)
{
	run<utki::tree<tracked>>(g);
}

PROPERTY("deque", 1)
{
	run<utki::tree<tracked, std::deque>>(g);
}

PROPERTY("list", 1)
{
	run<utki::tree<tracked, std::list>>(g);
}

// values which can only be moved
PROPERTY("move_only", 1)
{
	using tree = utki::tree<std::unique_ptr<int>>;
	auto n = g.size(10);
	if (n > 1) {
		g.nontrivial();
	}
	tree::container_type c;
	std::vector<int*> p;
	for (size_t i = 0; i != n; ++i) {
		auto u = std::make_unique<int>(int(i));
		p.push_back(u.get());
		c.push_back(tree(std::move(u)));
	}
	tree t(std::make_unique<int>(-1), std::move(c));
	tree t2(std::move(t));
	tree t3;
	t3 = std::move(t2);
	CHECK(t3.value && *t3.value == -1, "value");
	CHECK_EQ(t3.children.size(), n);
	for (size_t i = 0; i != n; ++i) {
		CHECK(t3.children[i].value.get() == p[i], "value moved");
	}
	g.say([&] {
		return pbt::cat("moved tree with ", n, " children with move-only values");
	});
}
