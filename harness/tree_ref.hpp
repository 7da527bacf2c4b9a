// Reference forest and generator of forests.
#pragma once
#include "pbt.hpp"

#include <deque>
#include <list>

#include <utki/tree.hpp>

namespace ref {
struct node {
	int value = 0;
	std::vector<node> children;

	bool operator==(const node& n) const
	{
		return value == n.value && children == n.children;
	}
};

using forest = std::vector<node>;
using path = std::vector<size_t>;

inline void gen_level(pbt::gen& g, forest& f, int& budget, unsigned shape, unsigned depth, int& next)
{
	size_t n;
	switch (shape) {
		case 0: // small
			n = g.choice(3);
			break;
		case 1: // chain
			n = g.chance(1, 6) ? g.choice(2) : (depth > 40 ? 0 : 1);
			break;
		case 2: // wide
			n = g.choice(depth == 0 ? 12 : 4);
			break;
		case 4: // very deep
			n = depth > 400 ? 0 : 1 + g.chance(1, 30);
			break;
		case 5: // very wide
			n = depth == 0 ? g.choice(500) : depth == 1 && g.chance(1, 20) ? g.choice(300) : g.chance(1, 20);
			break;
		default:
			n = g.choice(2);
			break;
	}
	for (size_t i = 0; i != n && budget > 0; ++i) {
		--budget;
		f.push_back({next++, {}});
		if (shape == 1 || shape == 4 || g.boolean()) {
			gen_level(g, f.back().children, budget, shape, depth + 1, next);
		}
	}
}

// values are different when distinct
inline forest gen_forest(pbt::gen& g, int budget = 60, int first = 1)
{
	forest ret;
	auto shape = unsigned(g.choice(3));
	if (budget >= 60 && g.chance(1, 300)) {
		shape = 4 + unsigned(g.choice(1));
		budget = 600;
	}
	int next = first;
	gen_level(g, ret, budget, shape, 0, next);
	return ret;
}

inline void preorder(const forest& f, std::vector<path>& out, path& cur)
{
	for (size_t i = 0; i != f.size(); ++i) {
		cur.push_back(i);
		out.push_back(cur);
		preorder(f[i].children, out, cur);
		cur.pop_back();
	}
}

inline std::vector<path> preorder(const forest& f)
{
	std::vector<path> ret;
	path p;
	preorder(f, ret, p);
	return ret;
}

inline const node& at(const forest& f, const path& p)
{
	const forest* l = &f;
	const node* n = nullptr;
	for (auto i : p) {
		n = &(*l)[i];
		l = &n->children;
	}
	return *n;
}

inline forest& level_of(forest& f, const path& p)
{
	forest* l = &f;
	for (size_t i = 0; i + 1 < p.size(); ++i) {
		l = &(*l)[p[i]].children;
	}
	return *l;
}

inline bool valid(const forest& f, const path& p)
{
	if (p.empty()) {
		return false;
	}
	const forest* l = &f;
	for (auto i : p) {
		if (i >= l->size()) {
			return false;
		}
		l = &(*l)[i].children;
	}
	return true;
}

inline std::string show(const forest& f)
{
	std::string s = "{";
	for (auto& n : f) {
		if (s.size() != 1) {
			s += ' ';
		}
		s += std::to_string(n.value);
		if (!n.children.empty()) {
			s += show(n.children);
		}
	}
	return s + "}";
}

// ---- conversion to and from the tree under test, by plain access to its containers ----

template <class C>
C build(const forest& f)
{
	C ret;
	for (const auto& n : f) {
		typename C::value_type t;
		t.value = typename C::value_type::value_type(n.value);
		t.children = build<C>(n.children);
		ret.push_back(std::move(t));
	}
	return ret;
}

template <class C>
forest read(const C& c)
{
	forest ret;
	for (const auto& t : c) {
		ret.push_back({int(t.value), read(t.children)});
	}
	return ret;
}

// address of the node at path
template <class C>
auto node_at(C& c, const path& p)
{
	auto l = &c;
	decltype(&*l->begin()) n = nullptr;
	for (auto i : p) {
		n = &*std::next(l->begin(), std::ptrdiff_t(i));
		l = &n->children;
	}
	return n;
}

template <class C>
struct is_random : std::bool_constant<std::is_same_v<
					   typename std::iterator_traits<typename C::iterator>::iterator_category,
					   std::random_access_iterator_tag>> {};
} // namespace ref
